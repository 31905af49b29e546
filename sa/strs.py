"""Operations on abstract strings; each returns a list of (state, result)."""
from __future__ import annotations

import re

from . import rx
from .dom import *  # noqa: F401,F403
from .dom import (
    UNDEF, AStr, DVar, IVar, Lin, Num, Opq, Rep, St, Tab, Undecided, Var,
    as_lin, assume_range, bits, bounds, concat, dvar, lin_add, lin_div, lin_eq,
    lin_mod, lin_mul, lin_table, mk_lin, mk_str, mk_tab, norm_int, segs_of,
    joined_digits, split_lin,
)

FORK_CAP = 400
CLASS_MIN = 40


def is_str(x):
    return isinstance(x, (str, AStr))


def is_int(x):
    return isinstance(x, Lin) or (isinstance(x, int) and not isinstance(x, bool))


# -- basic structure ------------------------------------------------------


def restrict_var(st, var, mask):
    """Restrict, carrying derived variables over to their expression."""
    st2 = st.restrict(var, mask)
    if st2 is None:
        return None
    if isinstance(var, DVar):
        m = st2.mask(var)
        vals = [var.values[i] for i in bits(m)]
        st2 = assume_range(st2, var.lin, min(vals), max(vals))
    return st2


_tl = {}


def tab_len(st, tab):
    """Common image length on the domain, or None."""
    m = st.mask(tab.var)
    key = (id(tab.img), m)
    got = _tl.get(key)
    if got is not None and got[0] is tab.img:
        return got[1]
    r = _tab_len(m, tab)
    if len(_tl) > 20000:
        _tl.clear()
    _tl[key] = (tab.img, r)
    return r


def _tab_len(m, tab):
    ln = None
    for i in bits(m):
        x = tab.img[i]
        if x is UNDEF:
            continue
        if ln is None:
            ln = len(x)
        elif ln != len(x):
            return None
    return 0 if ln is None else ln


def by_length(st, tab):
    groups = {}
    for i in bits(st.mask(tab.var)):
        x = tab.img[i]
        if x is UNDEF:
            continue
        groups[len(x)] = groups.get(len(x), 0) | (1 << i)
    out = []
    for ln, m in sorted(groups.items()):
        s2 = restrict_var(st, tab.var, m) if len(groups) > 1 else st
        if s2 is not None:
            out.append((s2, ln))
    return out


def str_len(st, x):
    if isinstance(x, str):
        return len(x)
    total = Lin(0)
    for s in x.segs:
        if isinstance(s, str):
            total = lin_add(total, len(s))
        elif isinstance(s, Tab):
            n = tab_len(st, s)
            if n is not None:
                total = lin_add(total, n)
            else:
                total = lin_add(
                    total,
                    lin_table(
                        s.var, tuple(UNDEF if y is UNDEF else len(y) for y in s.img)
                    ),
                )
        elif isinstance(s, Num):
            total = lin_add(total, s.width)
        elif isinstance(s, Rep):
            total = lin_add(total, s.len)
        else:
            raise Undecided("length of an unknown string")
    return norm_int(total)


def simplify(st, x):
    """Substitute variables that have only one value left."""
    if isinstance(x, str):
        return x
    out = []
    ch = False
    for s in x.segs:
        if isinstance(s, Tab):
            m = st.mask(s.var)
            vals = {s.img[i] for i in bits(m)}
            vals.discard(UNDEF)
            if len(vals) == 1:
                out.append(vals.pop())
                ch = True
                continue
        elif isinstance(s, Num):
            a, b = bounds(st, s.lin)
            if a == b:
                from .dom import to_base

                out.append(to_base(a, s.base, s.width, s.digits()))
                ch = True
                continue
        out.append(s)
    return mk_str(out) if ch else x


def digit_cell(st, d, digits):
    """One character segment for a digit value."""
    if not isinstance(d, Lin):
        return digits[d]
    a, b = bounds(st, d)
    if a == b:
        return digits[a]
    if len(d.t) == 1 and not d.a:
        v, tab = d.t[0]
        return mk_tab(
            v,
            tuple(
                UNDEF
                if (x is UNDEF or not 0 <= x + d.c < len(digits))
                else digits[x + d.c]
                for x in tab
            ),
        )
    v = dvar(d, 0, len(digits) - 1)
    return mk_tab(v, tuple(digits))


_cell_cache = {}


def num_cells(st, num):
    """Single digit segments of a number."""
    digits = num.digits()
    out = []
    rem = num.lin
    for pos in range(num.width - 1, 0, -1):
        cut = num.base**pos
        d = lin_div(st, rem, cut)
        rem = lin_mod(st, rem, cut)
        out.append(digit_cell(st, d, digits))
    out.append(digit_cell(st, rem, digits))
    return out


def char_units(st, x):
    """Expand into literal characters, Tabs, Reps; numbers into digits."""
    out = []
    for s in segs_of(x):
        if isinstance(s, str):
            out.extend(s)
        elif isinstance(s, Num):
            out.extend(num_cells(st, s))
        elif isinstance(s, Opq):
            raise Undecided("characters of an unknown string")
        else:
            out.append(s)
    return out


def tab_chars(st, tab, n):
    """Split a table with images of length n into n one-character tables."""
    if n == 1:
        return [tab]
    out = []
    for k in range(n):
        out.append(
            mk_tab(
                tab.var,
                tuple(UNDEF if (y is UNDEF or len(y) != n) else y[k] for y in tab.img),
            )
        )
    return out


def cut_tab(tab, a, b):
    return mk_tab(tab.var, tuple(UNDEF if y is UNDEF else y[a:b] for y in tab.img))


# -- slicing --------------------------------------------------------------


def _fresh_cells(rep, n):
    return [
        mk_tab(v, v.values)
        for v in (Var("run", sorted(rep.chars)) for _ in range(n))
    ]


def take_drop(st, segs, n):
    """Cut after n characters: list of (st, left segs, right segs, missing)."""
    out = []
    todo = [(st, 0, (), n)]
    while todo:
        st, i, left, n = todo.pop()
        while True:
            if n == 0 or i == len(segs):
                out.append((st, left, tuple(segs[i:]), n))
                break
            s = segs[i]
            if isinstance(s, str):
                if len(s) <= n:
                    left += (s,)
                    n -= len(s)
                    i += 1
                    continue
                out.append((st, left + (s[:n],), (s[n:],) + tuple(segs[i + 1 :]), 0))
                break
            if isinstance(s, Num):
                if s.width <= n:
                    left += (s,)
                    n -= s.width
                    i += 1
                    continue
                lo_w = s.width - n
                cut = s.base**lo_w
                hi = lin_div(st, s.lin, cut)
                lo = lin_mod(st, s.lin, cut)
                l = Num(as_lin(hi), s.base, n, s.upper)
                r = Num(as_lin(lo), s.base, lo_w, s.upper)
                out.append((st, left + (l,), (r,) + tuple(segs[i + 1 :]), 0))
                break
            if isinstance(s, Tab):
                ln = tab_len(st, s)
                if ln is None:
                    a = [len(y) for k, y in enumerate(s.img)
                         if y is not UNDEF and st.mask(s.var) >> k & 1]
                    if max(a) <= n and i == len(segs) - 1 and False:
                        pass
                    forks = by_length(st, s)
                    if len(todo) + len(out) > FORK_CAP:
                        raise Undecided("too many cut positions")
                    for s2, _ in forks[1:]:
                        todo.append((s2, i, left, n))
                    st = forks[0][0]
                    continue
                if ln <= n:
                    left += (s,)
                    n -= ln
                    i += 1
                    continue
                out.append(
                    (
                        st,
                        left + (cut_tab(s, 0, n),),
                        (cut_tab(s, n, None),) + tuple(segs[i + 1 :]),
                        0,
                    )
                )
                break
            if isinstance(s, Rep):
                a, b = bounds(st, s.len)
                if a >= n:
                    cells = tuple(_fresh_cells(s, n))
                    rest = Rep(s.chars, lin_add(s.len, -n))
                    out.append((st, left + cells, (rest,) + tuple(segs[i + 1 :]), 0))
                    break
                if b <= n and a == b:
                    left += (s,)
                    n -= a
                    i += 1
                    continue
                # fork on the run length
                if n - a > 40:
                    raise Undecided("cut inside a run")
                hi = assume_range(st, as_lin(s.len), n, None)
                if hi is not None:
                    todo.append((hi, i, left, n))
                lo = assume_range(st, as_lin(s.len), None, n - 1)
                if lo is None:
                    break
                st = lo
                left += (s,)
                raise Undecided("cut beyond a run")
            raise Undecided("cut in an unknown string")
    return out


def rev_segs(st, segs):
    out = []
    for s in reversed(segs):
        if isinstance(s, str):
            out.append(s[::-1])
        elif isinstance(s, Tab):
            out.append(
                mk_tab(s.var, tuple(UNDEF if y is UNDEF else y[::-1] for y in s.img))
            )
        elif isinstance(s, Num):
            out.extend(reversed(num_cells(st, s)))
        elif isinstance(s, Rep):
            out.append(s)
        else:
            raise Undecided("reverse of an unknown string")
    return tuple(out)


def take_drop_right(st, segs, n):
    """Cut n characters before the end: (st, left, right, missing)."""
    # numbers are kept whole where possible
    i = len(segs)
    tail = ()
    k = n
    while i > 0 and k > 0:
        s = segs[i - 1]
        if isinstance(s, str):
            ln = len(s)
        elif isinstance(s, Num):
            ln = s.width
        elif isinstance(s, Tab):
            ln = tab_len(st, s)
        else:
            ln = None
        if ln is None:
            break
        if ln <= k:
            tail = (s,) + tail
            k -= ln
            i -= 1
            continue
        out = []
        for s2, l, r, miss in take_drop(st, (s,), ln - k):
            out.append((s2, tuple(segs[: i - 1]) + l, r + tail, 0))
        return out
    if k == 0 or i == 0:
        return [(st, tuple(segs[:i]), tail, k)]
    out = []
    s = segs[i - 1]
    if isinstance(s, Tab):
        for s2, _ in by_length(st, s):
            for s3, l, r, miss in take_drop_right(s2, segs[:i], k):
                out.append((s3, l, r + tail, miss))
        return out
    raise Undecided("cut from the right in a run")


_compact = {}


def compact(st, x):
    """Digits of one number, written one by one, as that number."""
    if isinstance(x, str):
        return x
    if sum(isinstance(s, Tab) and isinstance(s.var, DVar) for s in x.segs) < 2:
        return x
    key = (x, tuple(st.mask(s.var) for s in x.segs if isinstance(s, Tab)), st.cons)
    got = _compact.get(key)
    if got is None:
        if len(_compact) > 5000:
            _compact.clear()
        got = _compact[key] = _compacted(st, x)
    return got


def _compacted(st, x):
    for digits in ("01", "0123456789", "0123456789ABCDEF", "0123456789abcdef"):
        out, run = [], []

        def close():
            if sum(isinstance(s, Tab) and isinstance(s.var, DVar) for s in run) > 1:
                n = sum(tab_len(st, s) if isinstance(s, Tab) else
                        len(s) if isinstance(s, str) else s.width for s in run)
                v = digits_value(st, run, digits)
                if v is not None and not any(isinstance(y, DVar) for y, _ in as_lin(v).t) and all(
                    isinstance(y, IVar) for y, _ in as_lin(v).a
                ):
                    out.append(Num(as_lin(v), len(digits), n, digits[-1] == "F"))
                    run.clear()
                    return
            out.extend(run)
            run.clear()

        for s in x.segs:
            if isinstance(s, str):
                fits = all(c in digits for c in s)
            elif isinstance(s, Num):
                fits = s.digits() == digits
            elif isinstance(s, Tab):
                fits = tab_len(st, s) is not None and all(
                    s.img[i] is not UNDEF and all(c in digits for c in s.img[i])
                    for i in bits(st.mask(s.var)))
            else:
                fits = False
            if fits:
                run.append(s)
            else:
                close()
                out.append(s)
        close()
        if len(out) < len(x.segs):
            return mk_str(out)
    return x


def slice_str(st, x, a, b, step=None):
    """x[a:b:step] with concrete bounds."""
    if isinstance(x, str):
        return [(st, x[a:b:step])]
    x = compact(st, x)
    if isinstance(x, str):
        return [(st, x[a:b:step])]
    if step not in (None, 1):
        if step == -1 and a is None and b is None:
            return [(st, mk_str(rev_segs(st, x.segs)))]
        out = []
        for s2, y in slice_str(st, x, a, b) if step > 0 else []:
            units = []
            for u in char_units(s2, y):
                if isinstance(u, str):
                    units.append(u)
                elif isinstance(u, Tab) and tab_len(s2, u) is not None:
                    units.extend(tab_chars(s2, u, tab_len(s2, u)))
                else:
                    raise Undecided("stepped slice of variable length text")
            out.append((s2, mk_str(units[::step])))
        if step < 0:
            raise Undecided("negative step")
        return out
    segs = x.segs
    if (a is not None and a < 0) or (b is not None and b < 0):
        n = str_len(st, x)
        if not isinstance(n, Lin):
            a2, b2, _ = slice(a, b).indices(n)
            return slice_str(st, x, a2, b2)
    out = []
    if a is None:
        a = 0
    if a >= 0:
        rights = [(s2, r) for s2, _, r, _ in take_drop(st, segs, a)]
        for s2, r in rights:
            if b is None:
                out.append((s2, mk_str(r)))
            elif b >= 0:
                if b <= a:
                    out.append((s2, ""))
                else:
                    for s3, l, _, _ in take_drop(s2, r, b - a):
                        out.append((s3, mk_str(l)))
            else:
                for s3, l, _, miss in take_drop_right(s2, r, -b):
                    out.append((s3, mk_str(l)))
        return out
    # a < 0
    for s2, _, r, miss in take_drop_right(st, segs, -a):
        if b is None:
            out.append((s2, mk_str(r)))
        elif b < 0:
            for s3, l, _, _ in take_drop_right(s2, r, -b):
                out.append((s3, mk_str(l)))
        else:
            raise Undecided("mixed slice bounds on variable length text")
    return out


# -- language membership --------------------------------------------------


class PredProg:
    """Automaton of non-empty strings whose characters satisfy a predicate."""

    def __init__(self, name, pred, allow_empty=False):
        self.name = name
        self.pred = pred
        self.start = 0
        self.allow_empty = allow_empty

    def step(self, state, c):
        if state == 2:
            return 2
        return 1 if self.pred(c) else 2

    def run(self, state, s):
        for c in s:
            state = self.step(state, c)
        return state

    def accepts(self, state):
        return state == 1 or (state == 0 and self.allow_empty)


_dead = {}


def fullmatch(st, prog, x):
    """[(state, bool)] partition by membership."""
    if isinstance(x, str):
        return [(st, prog.accepts(prog.run(prog.start, x)))]
    segs = x.segs
    if len(segs) == 1 and isinstance(segs[0], Opq):
        return opq_match(st, prog, x)
    # cubes: list of (dfa state, {var: mask})
    cubes = [(prog.start, {})]
    queue = list(segs)
    idx = 0
    memo2 = {}
    while idx < len(queue):
        s = queue[idx]
        idx += 1
        if isinstance(s, str):
            cubes = [(prog.run(d, s), c) for d, c in cubes]
            continue
        if isinstance(s, Num):
            digs = s.digits()
            ok = True
            new = []
            for d, c in cubes:
                cur = d
                for k in range(s.width):
                    nx = {prog.step(cur, ch) for ch in digs}
                    if len(nx) > 1:
                        ok = False
                        break
                    cur = nx.pop()
                if not ok:
                    break
                new.append((cur, c))
            if ok:
                cubes = new
                continue
            queue[idx:idx] = num_cells(st, s)
            continue
        if isinstance(s, Rep):
            lo, hi = bounds(st, s.len)
            new = []
            for d, c in cubes:
                cur = {d}
                n = 0
                while n < lo:
                    nxt = {prog.step(q, ch) for q in cur for ch in s.chars}
                    n += 1
                    if nxt == cur:
                        break
                    cur = nxt
                acc = set(cur)
                while n < hi:
                    nxt = {prog.step(q, ch) for q in cur for ch in s.chars}
                    n += 1
                    if nxt <= acc:
                        break
                    cur = nxt
                    acc |= nxt
                new.extend((q, c) for q in acc)
            cubes = new
            if len(cubes) > FORK_CAP:
                raise Undecided("too many automaton states")
            continue
        if isinstance(s, Opq):
            raise Undecided("membership of a partly unknown string")
        # Tab
        v = s.var
        new = {}
        order = []
        for d, c in cubes:
            m = c.get(v)
            if m is None:
                m = st.mask(v)
            groups = {}
            memo = {}
            for i in bits(m):
                y = s.img[i]
                if y is UNDEF:
                    continue
                q = memo.get(y)
                if q is None:
                    q = memo[y] = prog.run(d, y)
                groups[q] = groups.get(q, 0) | (1 << i)
            for q, gm in groups.items():
                if gm == m and v not in c:
                    c2 = c
                else:
                    c2 = dict(c)
                    c2[v] = gm
                new.setdefault(q, []).append(c2)
        if len(new) > 1 and sum(map(len, new.values())) > CLASS_MIN:
            new = alike(st, prog, new, queue, idx, memo2)
        cubes = []
        for q, cs in new.items():
            for c in merge_cubes(st, cs):
                cubes.append((q, c))
        if len(cubes) > FORK_CAP:
            raise Undecided("too many automaton states")
    yes, no = [], []
    for d, c in cubes:
        (yes if prog.accepts(d) else no).append(c)
    out = []
    for cs, val in ((yes, True), (no, False)):
        for c in merge_cubes(st, cs):
            s2 = apply_cube(st, c)
            if s2 is not None:
                out.append((s2, val))
    return out


def alike(st, prog, new, queue, idx, memo):
    """Cubes by state, states with one verdict on every possible rest of the text taken together."""
    rest = [s for s in queue[idx:]]
    if any(isinstance(s, (Num, Rep, Opq)) for s in rest):
        return new
    sets = memo.get("sets")
    if sets is None or len(sets) != len(queue):
        memo.clear()
        sets = memo["sets"] = [
            (s,) if isinstance(s, str)
            else tuple({s.img[i] for i in bits(st.mask(s.var))} - {UNDEF})
            if isinstance(s, Tab) else None
            for s in queue
        ]

    def key(d, k):
        if k == len(queue):
            return prog.accepts(d)
        got = memo.get((d, k))
        if got is None:
            to = [key(q, k + 1) for q in [prog.run(d, y) for y in sets[k]]]
            got = to[0] if to and isinstance(to[0], bool) and all(x is to[0] for x in to) else (
                memo.setdefault(("id", k, tuple(to)), ("id", k, len(memo))))
            memo[(d, k)] = got
        return got

    out = {}
    first = {}
    for q, cs in new.items():
        r = first.setdefault(key(q, idx), q)
        out.setdefault(r, []).extend(cs)
    return out


def apply_cube(st, c):
    for v, m in c.items():
        st = restrict_var(st, v, m)
        if st is None:
            return None
    return st


def merge_cubes(st, cs):
    if len(cs) < 2:
        return cs
    acc = []
    for c in reversed(cs):
        cur = c
        again = True
        while again:
            again = False
            for k in range(len(acc) - 1, -1, -1):
                m = _merge_two(st, cur, acc[k])
                if m is not None:
                    cur = m
                    del acc[k]
                    again = True
                    break
        acc.append(cur)
    acc.reverse()
    return acc


def _merge_two(st, a, b):
    diff = None
    for v in a.keys() | b.keys():
        ma = a.get(v)
        if ma is None:
            ma = st.mask(v)
        mb = b.get(v)
        if mb is None:
            mb = st.mask(v)
        if ma != mb:
            if diff is not None:
                return None
            diff = (v, ma | mb)
    if diff is None:
        return a
    v, m = diff
    c = dict(a)
    if m == st.mask(v):
        c.pop(v, None)
    else:
        c[v] = m
    return c


def opq_match(st, prog, x):
    o = x.segs[0]
    out = []
    for val in (True, False):
        cons = o.cons + ((prog, val),)
        w = opq_witness(cons)
        if w is not None:
            out.append((val, cons, w))
    if len(out) == 1:
        return [(st, out[0][0])]
    raise OpqSplit(o, [(val, w) for val, _, w in out])


class OpqSplit(Undecided):
    """An unknown string splits; carries one member of either side."""

    def __init__(self, opq, parts):
        super().__init__("unknown string splits on a pattern")
        self.opq = opq
        self.parts = parts


_wit = {}


def opq_witness(cons):
    """Shortest string satisfying all (program, positive) constraints."""
    key = tuple((id(p), v) for p, v in cons)
    if key in _wit:
        return _wit[key]
    progs = [p for p, _ in cons]
    classes = None
    real = [p for p in progs if isinstance(p, rx.Prog)]
    if len(real) == len(progs):
        classes = rx._classes(real)
    else:
        classes = rx.UNIVERSE
    start = tuple(p.start for p in progs)
    seen = {start: None}
    todo = [start]
    res = None
    while todo and res is None:
        nxt = []
        for s in todo:
            if all(p.accepts(q) == v for (p, v), q in zip(cons, s)):
                out = []
                cur = s
                while seen[cur] is not None:
                    cur, c = seen[cur]
                    out.append(c)
                res = "".join(reversed(out))
                break
            if any(v and not q and isinstance(p, rx.Prog) for (p, v), q in zip(cons, s)):
                continue
            for c in classes:
                n = tuple(p.step(q, c) for p, q in zip(progs, s))
                if n not in seen:
                    seen[n] = (s, c)
                    nxt.append(n)
            if len(seen) > 400000:
                raise Undecided("language product too large")
        todo = nxt
    _wit[key] = res
    return res


# -- equality -------------------------------------------------------------


def eq_str(st, x, y):
    """[(state, True/False)], raising Undecided when it cannot separate."""
    if isinstance(x, str) and isinstance(y, str):
        return [(st, x == y)]
    if x == y:
        return [(st, True)]
    x, y = simplify(st, x), simplify(st, y)
    if isinstance(x, str) and isinstance(y, str):
        return [(st, x == y)]
    for o in (x, y):
        if isinstance(o, AStr) and any(isinstance(s, Opq) for s in o.segs):
            if isinstance(x, str) or isinstance(y, str):
                lit = x if isinstance(x, str) else y
                return fullmatch(st, rx.prog(re.escape(lit)), o)
            raise Undecided("comparison with an unknown string")
    if isinstance(x, str):
        return fullmatch(st, rx.prog(re.escape(x)), y)
    if isinstance(y, str):
        return fullmatch(st, rx.prog(re.escape(y)), x)
    r = same_text(st, x, y)
    if r is not None:
        return [(st, r)]
    return _eq_walk(st, x, y)


def _flat(st, x):
    """Segments with literals split into characters."""
    out = []
    for s in segs_of(x):
        if isinstance(s, str):
            out.extend(s)
        else:
            out.append(s)
    return out


def seg_same(st, p, q):
    if p is q:
        return True
    if isinstance(p, str) or isinstance(q, str):
        return p == q if isinstance(p, str) and isinstance(q, str) else False
    if isinstance(p, Tab) and isinstance(q, Tab) and p.var is q.var:
        return all(p.img[i] == q.img[i] for i in bits(st.mask(p.var)))
    if isinstance(p, Num) and isinstance(q, Num):
        return (
            p.base == q.base
            and p.width == q.width
            and p.upper == q.upper
            and lin_eq(st, p.lin, q.lin) is True
        )
    if isinstance(p, Rep) and isinstance(q, Rep):
        return p.chars == q.chars and lin_eq(st, p.len, q.len) is True
    return False


def digits_value(st, segs, digits):
    """Integer value of a run of fixed length digit segments, or None."""
    base = len(digits)
    idx = {c: i for i, c in enumerate(digits)}
    total = Lin(0)
    for s in segs:
        if isinstance(s, str):
            for c in s:
                if c not in idx:
                    return None
                total = lin_add(lin_mul(total, base), idx[c])
        elif isinstance(s, Num):
            if s.base == base and s.digits() == digits:
                total = lin_add(lin_mul(total, base**s.width), s.lin)
            elif s.base < base and s.width == 1 and s.digits() == digits[: s.base]:
                total = lin_add(lin_mul(total, base), s.lin)
            else:
                return None
        elif isinstance(s, Tab):
            n = tab_len(st, s)
            if n is None:
                return None
            tab = []
            m = st.mask(s.var)
            for i, y in enumerate(s.img):
                if y is UNDEF or len(y) != n or any(c not in idx for c in y):
                    if m >> i & 1 and y is not UNDEF:
                        return None
                    tab.append(UNDEF)
                else:
                    k = 0
                    for c in y:
                        k = k * base + idx[c]
                    tab.append(k)
            total = lin_add(lin_mul(total, base**n), lin_table(s.var, tab))
        else:
            return None
    return joined_digits(st, total)


ALPHABETS = ("01", "0123456789", "0123456789ABCDEF", "0123456789abcdef", B64, B64U)


def same_text(st, x, y):
    """True, False or None without forking."""
    a, b = _flat(st, x), _flat(st, y)
    i, j = 0, 0
    ea, eb = len(a), len(b)
    while i < ea and j < eb and seg_same(st, a[i], b[j]):
        i += 1
        j += 1
    while ea > i and eb > j and seg_same(st, a[ea - 1], b[eb - 1]):
        ea -= 1
        eb -= 1
    a, b = a[i:ea], b[j:eb]
    if not a and not b:
        return True
    try:
        la, lb = str_len(st, mk_str(a)), str_len(st, mk_str(b))
    except Undecided:
        return None
    if not isinstance(la, Lin) and not isinstance(lb, Lin):
        if la != lb:
            return False
        for digs in ALPHABETS:
            va = digits_value(st, a, digs)
            if va is None:
                continue
            vb = digits_value(st, b, digs)
            if vb is None:
                continue
            return lin_eq(st, va, vb)
        # compare piecewise at common cut points
        return _piecewise(st, a, b)
    (a1, a2), (b1, b2) = bounds(st, la), bounds(st, lb)
    if a2 < b1 or b2 < a1:
        return False
    r, a, b = _cancel(st, a, b)
    if r is not None:
        return r
    # fuse: both functions of one common variable
    fa, fb = fuse(st, mk_str(a)), fuse(st, mk_str(b))
    if fa is not None and fb is not None:
        if isinstance(fa, str) and isinstance(fb, str):
            return fa == fb
        va = fa[0] if not isinstance(fa, str) else fb[0]
        ok = {True: 0, False: 0}
        if not isinstance(fa, str) and not isinstance(fb, str) and fa[0] is not fb[0]:
            return None
        for k in bits(st.mask(va)):
            p = fa if isinstance(fa, str) else fa[1][k]
            q = fb if isinstance(fb, str) else fb[1][k]
            ok[p == q] += 1
        if not ok[False]:
            return True
        if not ok[True]:
            return False
    # cell by cell with common variables
    r = _cellwise(st, a, b)
    if r is None and _disjoint(st, a, b):
        return False
    return r


def _size(st, s):
    if isinstance(s, str):
        return len(s)
    if isinstance(s, Num):
        return s.width
    if isinstance(s, Tab):
        return tab_len(st, s)
    return None


def _cancel(st, a, b):
    """(verdict or None, rests) after dropping leading pieces of one length."""
    while True:
        i = j = n = m = 0
        while True:
            if i and j and n == m:
                break
            if n <= m and i < len(a):
                k = _size(st, a[i])
                i += 1
                n = None if k is None else n + k
            elif j < len(b):
                k = _size(st, b[j])
                j += 1
                m = None if k is None else m + k
            else:
                return None, a, b
            if n is None or m is None:
                return None, a, b
        r = same_text(st, mk_str(a[:i]), mk_str(b[:j]))
        if r is False:
            return False, a, b
        if r is None:
            return None, a, b
        a, b = a[i:], b[j:]
        if not a and not b:
            return True, a, b


def _disjoint(st, a, b, cap=20000):
    """No text is an image of both sequences, whatever the variables are."""
    try:
        sides = [[u for s in x for u in _expand(st, s)] for x in (a, b)]
    except Undecided:
        return False
    sets = []
    for side in sides:
        out = []
        for u in side:
            if isinstance(u, str):
                out.append((u,))
            elif isinstance(u, Tab):
                out.append(tuple({u.img[k] for k in bits(st.mask(u.var)) if u.img[k] is not UNDEF}))
            else:
                return False
        sets.append(out)
    # (position left, position right, text one side is ahead by, side ahead)
    todo = [(0, 0, "", 0)]
    seen = set(todo)
    while todo:
        i, j, rest, who = todo.pop()
        if len(seen) > cap:
            return False
        if i == len(sets[0]) and j == len(sets[1]):
            if not rest:
                return False
            continue
        # extend the side that is behind
        side = 1 if (rest and who == 0) or (not rest and i == len(sets[0])) else 0
        k = j if side else i
        if k == len(sets[side]):
            continue
        for y in sets[side][k]:
            if rest:
                if rest.startswith(y):
                    n = (rest[len(y):], who)
                elif y.startswith(rest):
                    n = (y[len(rest):], side)
                else:
                    continue
            else:
                n = (y, side)
            t = (i + (side == 0), j + (side == 1), n[0], n[1] if n[0] else 0)
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return True


def _cellwise(st, a, b):
    """Align runs that depend on the same variable."""
    i = j = 0
    verdict = True
    while i < len(a) or j < len(b):
        # take a maximal run depending on one variable on either side
        v = None
        for u in (a[i:i + 1] or b[j:j + 1]):
            if isinstance(u, Tab):
                v = u.var
        if v is None:
            for u in b[j:j + 1]:
                if isinstance(u, Tab):
                    v = u.var
        if v is None:
            if i < len(a) and j < len(b) and seg_same(st, a[i], b[j]):
                i += 1
                j += 1
                continue
            return None
        i2, j2 = i, j
        pa, pb = [], []
        while i2 < len(a) and isinstance(a[i2], (str, Tab)) and (
            isinstance(a[i2], str) or a[i2].var is v
        ):
            pa.append(a[i2])
            i2 += 1
        while j2 < len(b) and isinstance(b[j2], (str, Tab)) and (
            isinstance(b[j2], str) or b[j2].var is v
        ):
            pb.append(b[j2])
            j2 += 1
        fa, fb = fuse(st, mk_str(pa)), fuse(st, mk_str(pb))
        if fa is None or fb is None:
            return None
        same = True
        for k in bits(st.mask(v)):
            p = fa if isinstance(fa, str) else fa[1][k]
            q = fb if isinstance(fb, str) else fb[1][k]
            if p != q:
                same = False
        if not same:
            return None
        i, j = i2, j2
    return verdict


def _piecewise(st, a, b):
    """Fixed length texts: compare chunk by chunk."""

    def cuts(segs):
        pos, out = 0, []
        for s in segs:
            n = len(s) if isinstance(s, str) else (
                s.width if isinstance(s, Num) else tab_len(st, s)
            )
            pos += n
            out.append(pos)
        return out

    try:
        ca, cb = cuts(a), cuts(b)
    except (AttributeError, TypeError):
        return None
    common = sorted(set(ca) & set(cb))
    if len(common) < 2:
        va = [_expand(st, s) for s in a]
        vb = [_expand(st, s) for s in b]
        fa = [u for s in va for u in s]
        fb = [u for s in vb for u in s]
        if len(fa) == len(fb) and (len(fa) > len(a) or len(fb) > len(b)):
            return _piecewise(st, fa, fb)
        if len(fa) != len(fb):
            return None
    verdict = True
    i = j = 0
    for c in common:
        pa, pb = [], []
        while i < len(a) and ca[i] <= c:
            pa.append(a[i])
            i += 1
        while j < len(b) and cb[j] <= c:
            pb.append(b[j])
            j += 1
        r = None
        if len(pa) == len(pb) and all(seg_same(st, p, q) for p, q in zip(pa, pb)):
            r = True
        else:
            for digs in ALPHABETS:
                va = digits_value(st, pa, digs)
                if va is None:
                    continue
                vb = digits_value(st, pb, digs)
                if vb is None:
                    continue
                r = lin_eq(st, va, vb)
                break
            else:
                fa, fb = fuse(st, mk_str(pa)), fuse(st, mk_str(pb))
                if fa is not None and fb is not None:
                    sa = set([fa] if isinstance(fa, str) else
                             [fa[1][k] for k in bits(st.mask(fa[0]))])
                    sb = set([fb] if isinstance(fb, str) else
                             [fb[1][k] for k in bits(st.mask(fb[0]))])
                    if not (sa & sb):
                        r = False
                    elif len(sa) == 1 and sa == sb:
                        r = True
                    elif (not isinstance(fa, str) and not isinstance(fb, str)
                          and fa[0] is fb[0]):
                        eqs = {fa[1][k] == fb[1][k] for k in bits(st.mask(fa[0]))}
                        if eqs == {True}:
                            r = True
                        elif eqs == {False}:
                            r = False
        if r is False:
            return False
        if r is None:
            verdict = None
    return verdict


def _expand(st, s):
    if isinstance(s, Num):
        return num_cells(st, s)
    if isinstance(s, Tab):
        n = tab_len(st, s)
        if n:
            return tab_chars(st, s, n)
    return [s]


def _eq_walk(st, x, y):
    """Fork on the variables the two texts share."""
    a = [u for s in _flat(st, x) for u in _expand(st, s)]
    b = [u for s in _flat(st, y) for u in _expand(st, s)]
    if len(a) != len(b):
        while a and b and seg_same(st, a[0], b[0]):
            a, b = a[1:], b[1:]
        while a and b and seg_same(st, a[-1], b[-1]):
            a, b = a[:-1], b[:-1]
        if a and b:
            raise Undecided("comparison of differently shaped texts")
        # equal to the empty text: every remaining part has to be empty
        a = a or b
        b = [""] * len(a)
    cur = [st]
    out = []
    for p, q in zip(a, b):
        nxt = []
        for s in cur:
            if seg_same(s, p, q):
                nxt.append(s)
                continue
            fp, fq = fuse(s, mk_str([p])), fuse(s, mk_str([q]))
            if fp is None or fq is None:
                raise Undecided("comparison of unrelated cells")
            if isinstance(fp, str) and isinstance(fq, str):
                out.append((s, False))
                continue
            if not isinstance(fp, str) and not isinstance(fq, str) and fp[0] is not fq[0]:
                raise Undecided("comparison of unrelated cells")
            v = fp[0] if not isinstance(fp, str) else fq[0]
            me = md = 0
            for k in bits(s.mask(v)):
                c1 = fp if isinstance(fp, str) else fp[1][k]
                c2 = fq if isinstance(fq, str) else fq[1][k]
                if c1 == c2:
                    me |= 1 << k
                else:
                    md |= 1 << k
            if me:
                s2 = restrict_var(s, v, me)
                if s2 is not None:
                    nxt.append(s2)
            if md:
                s2 = restrict_var(s, v, md)
                if s2 is not None:
                    out.append((s2, False))
        cur = nxt
    out.extend((s, True) for s in cur)
    return out


def fuse(st, x):
    """Plain str, (var, images) when one variable decides, else None."""
    if isinstance(x, str):
        return x
    v = None
    for s in x.segs:
        if isinstance(s, str):
            continue
        if isinstance(s, Tab):
            if v is None:
                v = s.var
            elif v is not s.var:
                return None
        elif isinstance(s, Num):
            l = s.lin
            if l.a or len(l.t) != 1:
                return None
            if v is None:
                v = l.t[0][0]
            elif v is not l.t[0][0]:
                return None
        else:
            return None
    if len(x.segs) == 1 and isinstance(x.segs[0], Tab):
        return v, x.segs[0].img
    from .dom import to_base

    img = []
    for k in range(v.n):
        out = []
        for s in x.segs:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, Tab):
                y = s.img[k]
                if y is UNDEF:
                    out = None
                    break
                out.append(y)
            else:
                y = s.lin.t[0][1][k]
                if y is UNDEF or y + s.lin.c < 0:
                    out = None
                    break
                out.append(to_base(y + s.lin.c, s.base, s.width, s.digits()))
        img.append(UNDEF if out is None else "".join(out))
    return v, tuple(img)


# -- scanning with captures -------------------------------------------------

# A position is (unit index, character offset).


class Units:
    """String as scan units."""

    def __init__(self, st, x):
        u = []
        for s in segs_of(x):
            if isinstance(s, Num):
                u.extend(num_cells(st, s))
            elif isinstance(s, Opq):
                raise Undecided("scan of an unknown string")
            else:
                u.append(s)
        # join neighbouring literals
        v = []
        for s in u:
            if isinstance(s, str) and v and isinstance(v[-1], str):
                v[-1] += s
            else:
                v.append(s)
        self.u = v

    def text(self, p, q):
        """Segments between two positions (offsets valid on the domain)."""
        (i, a), (j, b) = p, q
        out = []
        k = i
        while k < j or (k == j and b > 0):
            s = self.u[k]
            lo = a if k == i else 0
            hi = b if k == j else None
            if lo == 0 and hi is None:
                out.append(s)
            elif isinstance(s, str):
                out.append(s[lo:hi])
            elif isinstance(s, Tab):
                out.append(cut_tab(s, lo, hi))
            else:
                raise Undecided("cut inside a run")
            k += 1
        return mk_str(out)

    def norm(self, st, p):
        """Canonical position: move past the end of a unit."""
        i, a = p
        while i < len(self.u):
            s = self.u[i]
            if isinstance(s, str):
                n = len(s)
            elif isinstance(s, Tab):
                n = tab_len(st, s)
            else:
                n = None
            if n is not None and a >= n and a > 0:
                i, a = i + 1, a - n
            else:
                break
        return (i, a)


def _sim(prog, threads, matched, image, ui, off, search, last, full):
    """Feed one image; returns (threads, matched, finished)."""
    n = len(image)
    for k in range(off, n):
        c = image[k]
        nxt = []
        seen = set()
        pos = (ui, k + 1)
        at_end = bool(last and k + 1 == n)
        if last and not at_end and image[k + 1 :] == "\n":
            at_end = "nl"
        for pc, caps in threads:
            ins = prog.code[pc]
            if ins[0] == rx.MATCH:
                continue
            if ins[1](c):
                prog.add_thread(nxt, seen, pc + 1, caps, pos, False, at_end)
        if search and matched is None:
            ncaps = (None,) * (2 * prog.groups + 2)
            ncaps = (pos,) + ncaps[1:]
            prog.add_thread(nxt, seen, 0, ncaps, pos, False, at_end)
        threads = []
        for pc, caps in nxt:
            if prog.code[pc][0] == rx.MATCH:
                if full:
                    if at_end is True:
                        matched = (caps, pos)
                        threads = []
                        return tuple(threads), matched, True
                    continue
                matched = (caps, pos)
                break
            threads.append((pc, caps))
        threads = tuple(threads)
        if not threads and (matched is not None or not search):
            return (), matched, True
    return threads, matched, False


def scan(st, prog, units, pos, mode, idle_cut=False):
    """Find the first match from a position.

    Yields (state, kind, data): kind "match" with (start, end, caps),
    "none", or "idle" with a unit index (only with idle_cut).
    """
    search = mode == "search"
    full = mode == "fullmatch"
    u = units.u
    out = []
    ncap = 2 * prog.groups + 2
    caps0 = (pos,) + (None,) * (ncap - 1)
    pos = units.norm(st, pos)
    caps0 = (pos,) + (None,) * (ncap - 1)
    start_threads = []
    at_end0 = pos[0] >= len(u)
    if not at_end0 and pos[0] == len(u) - 1 and isinstance(u[-1], str):
        if u[-1][pos[1]:] == "\n":
            at_end0 = "nl"
    prog.add_thread(
        start_threads, set(), 0, caps0, pos, pos == (0, 0), at_end0
    )
    matched = None
    threads = []
    for pc, caps in start_threads:
        if prog.code[pc][0] == rx.MATCH:
            if full and at_end0 is not True:
                continue
            matched = (caps, pos)
            break
        threads.append((pc, caps))
    threads = tuple(threads)
    if matched is not None and not threads:
        return [(st, "match", (matched[0][0], matched[1], matched[0]))]
    if not threads and not search:
        return [(st, "none", None)]
    # frontier at each unit boundary: list of (st, threads, matched)
    todo = [(st, pos[0], pos[1], threads, matched, True)]
    steps = 0
    while todo:
        st, ui, off, threads, matched, first = todo.pop()
        steps += 1
        if steps > 4000:
            raise Undecided("scan too wide")
        if ui >= len(u):
            if matched is not None:
                out.append((st, "match", (matched[0][0], matched[1], matched[0])))
            else:
                out.append((st, "none", None))
            continue
        s = u[ui]
        last = ui == len(u) - 1
        if isinstance(s, str):
            th, ma, fin = _sim(prog, threads, matched, s, ui, off, search, last, full)
            _finish(prog, out, todo, st, ui, th, ma, fin, search, idle_cut, units)
            continue
        if isinstance(s, Rep):
            # only runs that can neither start nor continue a match
            ok = search and matched is None
            for ch in s.chars:
                th, ma, fin = _sim(prog, threads, matched, ch, ui, 0, search, False, full)
                if ma is not None or not _is_idle(prog, th, (ui, 1)):
                    ok = False
                    break
            if not ok:
                raise Undecided("pattern inside a run")
            st2 = st
            th = _idle_threads(prog, (ui + 1, 0), last)
            _finish(prog, out, todo, st2, ui, th, None, False, search, idle_cut, units)
            continue
        # Tab: group images by their effect
        groups = {}
        order = []
        memo = {}
        for i in bits(st.mask(s.var)):
            y = s.img[i]
            if y is UNDEF:
                continue
            r = memo.get(y)
            if r is None:
                r = _sim(prog, threads, matched, y, ui, off, search, last, full)
                th, ma, fin = r
                # positions at the end of the unit are normalised so that
                # images of different length can share a group
                n = len(y)
                th = tuple(
                    (pc, tuple(_np(p, ui, n) for p in caps)) for pc, caps in th
                )
                if ma is not None:
                    ma = (tuple(_np(p, ui, n) for p in ma[0]), _np(ma[1], ui, n))
                r = memo[y] = (th, ma, fin)
            if r not in groups:
                groups[r] = 0
                order.append(r)
            groups[r] |= 1 << i
        for r in order:
            s2 = restrict_var(st, s.var, groups[r]) if len(order) > 1 else st
            if s2 is None:
                continue
            th, ma, fin = r
            _finish(prog, out, todo, s2, ui, th, ma, fin, search, idle_cut, units)
        if len(todo) + len(out) > FORK_CAP * 2:
            raise Undecided("scan forks too much")
    return out


def _np(p, ui, n):
    if p is not None and p[0] == ui and p[1] == n:
        return (ui + 1, 0)
    return p


def _idle_threads(prog, pos, at_end):
    caps = (pos,) + (None,) * (2 * prog.groups + 1)
    lst = []
    prog.add_thread(lst, set(), 0, caps, pos, False, at_end)
    return tuple((pc, c) for pc, c in lst if prog.code[pc][0] != rx.MATCH)


def _is_idle(prog, threads, pos):
    return all(caps[0] == pos for pc, caps in threads)


def _finish(prog, out, todo, st, ui, th, ma, fin, search, idle_cut, units):
    if fin:
        if ma is not None:
            out.append((st, "match", (ma[0][0], ma[1], ma[0])))
        else:
            out.append((st, "none", None))
        return
    n = units.u[ui]
    ln = len(n) if isinstance(n, str) else None
    if ln is not None:
        th = tuple((pc, tuple(_np(p, ui, ln) for p in caps)) for pc, caps in th)
        if ma is not None:
            ma = (tuple(_np(p, ui, ln) for p in ma[0]), _np(ma[1], ui, ln))
    if (
        idle_cut
        and search
        and ma is None
        and ui + 1 < len(units.u)
        and _is_idle(prog, th, (ui + 1, 0))
    ):
        out.append((st, "idle", ui + 1))
        return
    todo.append((st, ui + 1, 0, th, ma, False))
