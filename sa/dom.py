"""Abstract values.

A *cell variable* ranges over a small finite set (for instance the 82 characters
a GS1 serial may contain); an abstract string is a sequence of segments, each a
literal, a table over one cell variable, a zero padded number in some radix or
a run of unknown length.  Integers are affine sums of tables and opaque atoms.
A state maps cell variables to the part of their range still possible.
"""
from __future__ import annotations

import math

from math import gcd


class Undecided(Exception):
    """The analysis cannot represent the result; never a verdict."""


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"

    def __deepcopy__(self, memo):
        return self


UNDEF = _Undef()

_ids = [0]


def fresh_id():
    _ids[0] += 1
    return _ids[0]


class Var:
    """Finite variable."""

    __slots__ = ("name", "values", "full", "id", "n")

    def __init__(self, name, values):
        self.name = name
        self.values = tuple(values)
        self.n = len(self.values)
        self.full = (1 << self.n) - 1
        self.id = fresh_id()

    def __repr__(self):
        return f"<{self.name}>"

    def mask(self, pred):
        m = 0
        for i, v in enumerate(self.values):
            if pred(v):
                m |= 1 << i
        return m


class DVar(Var):
    """Finite variable that stands for the value of an affine expression."""

    __slots__ = ("lin",)

    def __init__(self, lin, lo, hi):
        super().__init__(f"[{lin}]", range(lo, hi + 1))
        self.lin = lin


_dvars = {}


def dvar(lin, lo, hi):
    key = (lin, lo, hi)
    v = _dvars.get(key)
    if v is None:
        v = _dvars[key] = DVar(lin, lo, hi)
    return v


def bits(mask):
    while mask:
        low = mask & -mask
        yield low.bit_length() - 1
        mask ^= low


# -- integers -----------------------------------------------------------


class Atom:
    __slots__ = ("id",)

    def __init__(self):
        self.id = fresh_id()


class IVar(Atom):
    __slots__ = ("name", "lo", "hi")

    def __init__(self, name, lo, hi):
        super().__init__()
        self.name = name
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return f"<{self.name}:{self.lo}..{self.hi}>"


class ModAtom(Atom):
    __slots__ = ("lin", "m")

    def __init__(self, lin, m):
        super().__init__()
        self.lin = lin
        self.m = m

    def __repr__(self):
        return f"({self.lin} mod {self.m})"


class DivAtom(Atom):
    __slots__ = ("lin", "m")

    def __init__(self, lin, m):
        super().__init__()
        self.lin = lin
        self.m = m

    def __repr__(self):
        return f"({self.lin} div {self.m})"


_atoms = {}


def mod_atom(lin, m):
    k = ("mod", lin, m)
    a = _atoms.get(k)
    if a is None:
        a = _atoms[k] = ModAtom(lin, m)
    return a


def div_atom(lin, m):
    k = ("div", lin, m)
    a = _atoms.get(k)
    if a is None:
        a = _atoms[k] = DivAtom(lin, m)
    return a


class Lin:
    """c + sum of tables (one per variable) + sum of coef * atom."""

    __slots__ = ("c", "t", "a", "_h")

    def __init__(self, c, t=(), a=()):
        self.c = c
        self.t = t
        self.a = a
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t, self.a))
        return self._h

    def __eq__(self, o):
        return (
            isinstance(o, Lin) and self.c == o.c and self.a == o.a and self.t == o.t
        )

    def __repr__(self):
        parts = [str(self.c)] if self.c or not (self.t or self.a) else []
        for v, tab in self.t:
            parts.append(f"{v.name}~")
        for at, k in self.a:
            parts.append(f"{k}*{at}")
        return " + ".join(parts)

    @property
    def const(self):
        return not self.t and not self.a

    def vars(self):
        out = set()
        for v, _ in self.t:
            out.add(v)
            if isinstance(v, DVar):
                out |= v.lin.vars()
        for at, _ in self.a:
            if isinstance(at, (ModAtom, DivAtom)):
                out |= at.lin.vars()
            else:
                out.add(at)
        return out


_tabconst = {}


def _tab_const(tab):
    """The common value of a table without undefined entries, else None."""
    first = tab[0]
    if first is UNDEF:
        return None
    for x in tab:
        if x is UNDEF or x != first:
            return None
    return first


def mk_lin(c, t, a):
    """Build from dicts, dropping constant tables and zero coefficients."""
    tt = []
    for v, tab in t.items():
        k = _tab_const(tab)
        if k is not None:
            c += k
        else:
            tt.append((v, tab))
    tt.sort(key=lambda x: x[0].id)
    aa = [(at, k) for at, k in a.items() if k]
    aa.sort(key=lambda x: x[0].id)
    if len(aa) > 1 and any(at.__class__ is DivAtom for at, _ in aa):
        got = recombine(aa)
        if got is not None:
            rest, x, k = got
            return lin_add(Lin(c, tuple(tt), rest), x, k)
    return Lin(c, tuple(tt), tuple(aa))


def recombine(aa):
    """Find k*m*(x div m) + k*(x mod m) among the terms: (other terms, x, k)."""
    for at, c in aa:
        if at.__class__ is not DivAtom or c % at.m:
            continue
        k = c // at.m
        for bt, c2 in aa:
            if bt.__class__ is ModAtom and c2 == k and bt.m == at.m:
                if residue(at.lin, at.m) == bt.lin:
                    return (
                        tuple(x for x in aa if x[0] is not at and x[0] is not bt), at.lin, k)
    return None


_residue = {}


def residue(lin, m):
    """Canonical form of lin modulo m."""
    key = (lin, m)
    r = _residue.get(key)
    if r is not None:
        return r
    c = lin.c
    t = {}
    for v, tab in lin.t:
        first = next((x for x in tab if x is not UNDEF), 0)
        c += first
        t[v] = tuple(UNDEF if x is UNDEF else (x - first) % m for x in tab)
    a = {}
    extra = []
    for at, k in lin.a:
        if at.__class__ is ModAtom and (k * at.m) % m == 0:
            extra.append((at.lin, k))
        else:
            a[at] = k % m
    red = mk_lin(c % m, t, a)
    if extra:
        for l, k in extra:
            red = lin_add(red, l, k)
        red = residue(red, m)
    else:
        red = Lin(red.c % m, red.t, red.a)
    if len(_residue) > 20000:
        _residue.clear()
    _residue[key] = red
    return red


def as_lin(x):
    if isinstance(x, Lin):
        return x
    return Lin(int(x))


def norm_int(l):
    """Plain python int when constant."""
    if isinstance(l, Lin) and l.const:
        return l.c
    return l


def lin_add(x, y, ky=1):
    x, y = as_lin(x), as_lin(y)
    if not y.t and not y.a:
        return Lin(x.c + ky * y.c, x.t, x.a)
    t = dict(x.t)
    for v, tab in y.t:
        if v in t:
            t[v] = tuple(
                UNDEF if (p is UNDEF or q is UNDEF) else p + ky * q
                for p, q in zip(t[v], tab)
            )
        elif ky == 1:
            t[v] = tab
        else:
            t[v] = tuple(UNDEF if q is UNDEF else ky * q for q in tab)
    a = dict(x.a)
    for at, k in y.a:
        a[at] = a.get(at, 0) + ky * k
    return mk_lin(x.c + ky * y.c, t, a)


def lin_mul(x, k):
    x = as_lin(x)
    if k == 0:
        return Lin(0)
    if k == 1:
        return x
    return Lin(
        x.c * k,
        tuple((v, tuple(UNDEF if q is UNDEF else k * q for q in tab)) for v, tab in x.t),
        tuple((at, k * c) for at, c in x.a),
    )


def lin_table(var, tab):
    return mk_lin(0, {var: tuple(tab)}, {})


_mm = {}


def tab_minmax(tab, mask):
    k = (id(tab), mask)
    r = _mm.get(k)
    if r is not None and r[0] is tab:
        return r[1], r[2]
    lo = hi = None
    for i in bits(mask):
        x = tab[i]
        if x is UNDEF:
            continue
        if lo is None or x < lo:
            lo = x
        if hi is None or x > hi:
            hi = x
    if lo is None:
        lo = hi = 0
    if len(_mm) > 200000:
        _mm.clear()
    _mm[k] = (tab, lo, hi)
    return lo, hi


# -- strings -------------------------------------------------------------


class Tab:
    """One segment whose text is a function of a single variable."""

    __slots__ = ("var", "img", "_h", "_l")

    def __init__(self, var, img):
        self.var = var
        self.img = img
        self._h = None
        self._l = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.var, self.img))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Tab) and self.var is o.var and self.img == o.img
        )

    def __repr__(self):
        return f"{{{self.var.name}}}"


_tabs = {}


def mk_tab(var, img):
    k = (var, img)
    t = _tabs.get(k)
    if t is None:
        if len(_tabs) > 300000:
            _tabs.clear()
        t = _tabs[k] = Tab(var, img)
    return t


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64U = B64[:-2] + "-_"


class Num:
    """Number in a radix, zero padded to a width that is known to suffice."""

    __slots__ = ("lin", "base", "width", "upper", "_h")

    def __init__(self, lin, base, width, upper=False):
        self.lin = lin
        self.base = base
        self.width = width
        self.upper = upper and base in (16, 64)  # 64: URL alphabet
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.lin, self.base, self.width, self.upper))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Num)
            and self.base == o.base
            and self.width == o.width
            and self.upper == o.upper
            and self.lin == o.lin
        )

    def __repr__(self):
        return f"{{num{self.base}w{self.width}}}"

    def digits(self):
        if self.base == 64:
            return B64U if self.upper else B64
        s = "0123456789abcdef"[: self.base]
        return s.upper() if self.upper else s


class Rep:
    """A run of lo.. characters of a set; length is an atom."""

    __slots__ = ("chars", "len")

    def __init__(self, chars, ln):
        self.chars = frozenset(chars)
        self.len = ln  # IVar

    def __repr__(self):
        return f"{{rep{self.len}}}"


class Opq:
    """Any string of a regular language given as (program, positive) pairs."""

    __slots__ = ("name", "cons")

    def __init__(self, name, cons=()):
        self.name = name
        self.cons = cons

    def __repr__(self):
        return f"{{any:{self.name}}}"


class AStr:
    __slots__ = ("segs", "_h")

    def __init__(self, segs):
        self.segs = segs
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.segs)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, AStr) and self.segs == o.segs)

    def __repr__(self):
        return "AStr(" + "".join(
            s if isinstance(s, str) else repr(s) for s in self.segs
        ) + ")"


def segs_of(x):
    if isinstance(x, str):
        return (x,) if x else ()
    return x.segs


def mk_str(segs):
    """AStr, or a plain python string when everything is literal."""
    segs = tuple(s for s in segs if not (isinstance(s, str) and s == ""))
    for s in segs:
        if not isinstance(s, str):
            return AStr(segs)
    return "".join(segs)


def concat(x, y):
    if isinstance(x, str) and isinstance(y, str):
        return x + y
    return mk_str(segs_of(x) + segs_of(y))


class BytesV:
    """Immutable bytes given by their lower case hexadecimal text."""

    __slots__ = ("hex",)

    def __init__(self, hex_):
        self.hex = hex_

    def __hash__(self):
        return hash(("b", self.hex))

    def __eq__(self, o):
        return isinstance(o, BytesV) and self.hex == o.hex


class Fin:
    """Any other value that is a function of one variable."""

    __slots__ = ("var", "img", "_h")

    def __init__(self, var, img):
        self.var = var
        self.img = img
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.var, len(self.img)))
        return self._h

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Fin)
            and self.var is o.var
            and all(
                type(a) is type(b) and a == b for a, b in zip(self.img, o.img)
            )
        )

    def __repr__(self):
        return f"Fin({self.var.name})"


# -- states ---------------------------------------------------------------


class St:
    """Abstract state."""

    __slots__ = ("dom", "cons", "heap", "frames", "writes")

    def __init__(self, dom=None, cons=(), heap=None, frames=(), writes=()):
        self.dom = dom if dom is not None else {}
        self.cons = cons
        self.heap = heap if heap is not None else {}
        self.frames = frames  # tuple of dicts; copied on write
        self.writes = writes

    def clone(self):
        return St(
            dict(self.dom),
            self.cons,
            dict(self.heap),
            tuple(dict(f) for f in self.frames),
            self.writes,
        )

    def mask(self, var):
        return self.dom.get(var, var.full)

    def restrict(self, var, mask):
        """New state with the variable restricted, or None when impossible."""
        cur = self.dom.get(var, var.full)
        new = cur & mask
        if not new:
            return None
        st = self.clone()
        if new != cur:
            st.dom[var] = new
            if not st.feasible(var):
                return None
        return st

    def feasible(self, var=None):
        for lin, lo, hi in self.cons:
            a, b = raw_bounds(self, lin)
            if (lo is not None and b < lo) or (hi is not None and a > hi):
                return False
        return True


INF = 10**400


def atom_bounds(st, at):
    if isinstance(at, IVar):
        return at.lo, (at.hi if at.hi is not None else INF)
    if isinstance(at, ModAtom):
        return 0, at.m - 1
    if isinstance(at, DivAtom):
        a, b = bounds(st, at.lin)
        return a // at.m, b // at.m
    raise Undecided(f"bounds of {at!r}")


def raw_bounds(st, lin):
    lo = hi = lin.c
    dom = st.dom
    for v, tab in lin.t:
        a, b = tab_minmax(tab, dom.get(v, v.full))
        lo += a
        hi += b
    for at, k in lin.a:
        a, b = atom_bounds(st, at)
        if k < 0:
            a, b = b, a
        lo += k * a
        hi += k * b
    return lo, hi


def bounds(st, x):
    if not isinstance(x, Lin):
        return int(x), int(x)
    lo, hi = raw_bounds(st, x)
    if lo == hi or not st.cons:
        return lo, hi
    rest, acc_lo, acc_hi, used = x, 0, 0, 0
    for l, a, b in st.cons:
        d = lin_diff_const(st, x, l)
        if d is not None:
            if a is not None:
                lo = max(lo, a + d)
            if b is not None:
                hi = min(hi, b + d)
            continue
        # one constrained part inside a larger sum
        k = scale_of(st, x, l)
        if k:
            la, lb = raw_bounds(st, l)
            if a is not None:
                la = max(la, a)
            if b is not None:
                lb = min(lb, b)
            if k < 0:
                la, lb = lb, la
            ra, rb = raw_bounds(st, lin_add(x, l, -k))
            lo = max(lo, ra + k * la)
            hi = min(hi, rb + k * lb)
            if scale_of(st, rest, l) == k:
                # several constrained parts together
                rest = lin_add(rest, l, -k)
                acc_lo += k * la
                acc_hi += k * lb
                used += 1
    if used > 1:
        ra, rb = raw_bounds(st, rest)
        lo = max(lo, ra + acc_lo)
        hi = min(hi, rb + acc_hi)
    return lo, hi


def scale_of(st, x, l):
    """Integer k when x contains k*l (judged by one shared variable), else None."""
    for v, tab in l.t:
        m = st.mask(v)
        i = j = None
        for n in bits(m):
            if tab[n] is UNDEF:
                continue
            if i is None:
                i = n
            elif tab[n] != tab[i]:
                j = n
                break
        if j is None:
            continue
        for w, t2 in x.t:
            if w is v:
                if t2[i] is UNDEF or t2[j] is UNDEF:
                    return None
                q, p = t2[j] - t2[i], tab[j] - tab[i]
                return None if q % p else q // p
        return None
    if l.a:
        at, k = l.a[0]
        for bt, k2 in x.a:
            if bt is at and k2 % k == 0:
                return k2 // k
    return None


def lin_diff_const(st, x, y):
    """x - y when that is a constant in this state, else None."""
    if len(x.t) != len(y.t) and not st.dom:
        return None
    d = lin_add(x, y, -1)
    if d.a:
        return None
    c = d.c
    for v, tab in d.t:
        a, b = tab_minmax(tab, st.mask(v))
        if a != b:
            return None
        c += a
    return c


def no_mods(x):
    """The same integer with x mod m written as x - m * (x div m)."""
    for _ in range(8):
        mods = [(a, k) for a, k in x.a if isinstance(a, ModAtom)]
        if not mods:
            break
        for a, k in mods:
            x = lin_add(x, Lin(0, (), ((a, 1),)), -k)
            x = lin_add(x, a.lin, k)
            x = lin_add(x, Lin(0, (), ((div_atom(a.lin, a.m), 1),)), -k * a.m)
    return x


def lin_eq(st, x, y):
    """True / False / None."""
    if not isinstance(x, Lin) and not isinstance(y, Lin):
        return x == y
    x, y = as_lin(x), as_lin(y)
    if x == y:
        return True
    d = lin_add(x, y, -1)
    lo, hi = bounds(st, d)
    if lo == hi == 0:
        return True
    if lo > 0 or hi < 0:
        return False
    e = no_mods(d)
    if e is not d:
        lo, hi = bounds(st, e)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
    if any(isinstance(v, DVar) for v, _ in d.t):
        e = expand(st, d)
        lo, hi = bounds(st, e)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
    # disjoint ranges under the constraints of either side
    a, b = bounds(st, x)
    c, e = bounds(st, y)
    if b < c or e < a:
        return False
    return None


def assume_range(st, lin, lo, hi):
    """State in which lo <= lin <= hi (either may be None), or None."""
    a, b = bounds(st, lin)
    if (lo is None or a >= lo) and (hi is None or b <= hi):
        return st
    if (lo is not None and b < lo) or (hi is not None and a > hi):
        return None
    st = st.clone()
    # single variable: exact
    if len(lin.t) == 1 and not lin.a:
        v, tab = lin.t[0]
        m = 0
        for i in bits(st.mask(v)):
            x = tab[i]
            if x is UNDEF:
                continue
            x += lin.c
            if (lo is None or x >= lo) and (hi is None or x <= hi):
                m |= 1 << i
        if not m:
            return None
        st.dom[v] = m
        if isinstance(v, DVar):
            vals = [v.values[i] for i in bits(m)]
            st2 = assume_range(st, v.lin, min(vals), max(vals))
            if st2 is None:
                return None
            st = st2
        return st if st.feasible(v) else None
    # bounds propagation on the tables
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        ra, rb = raw_bounds(st, lin)
        for v, tab in lin.t:
            cur = st.mask(v)
            ta, tb = tab_minmax(tab, cur)
            m = 0
            for i in bits(cur):
                x = tab[i]
                if x is UNDEF:
                    continue
                if hi is not None and ra - ta + x > hi:
                    continue
                if lo is not None and rb - tb + x < lo:
                    continue
                m |= 1 << i
            if m != cur:
                if not m:
                    return None
                st.dom[v] = m
                changed = True
                ra, rb = raw_bounds(st, lin)
    a, b = raw_bounds(st, lin)
    if (lo is None or a >= lo) and (hi is None or b <= hi):
        return st
    # keep the residual constraint
    new = []
    done = False
    for l, x, y in st.cons:
        d = lin_diff_const(st, lin, l)
        if d is not None and not done:
            x2 = x if lo is None else (lo - d if x is None else max(x, lo - d))
            y2 = y if hi is None else (hi - d if y is None else min(y, hi - d))
            if x2 is not None and y2 is not None and x2 > y2:
                return None
            new.append((l, x2, y2))
            done = True
        else:
            new.append((l, x, y))
    if not done:
        new.append((lin, lo, hi))
    st.cons = tuple(new)
    return st


# -- arithmetic needing a state --------------------------------------------


def split_lin(st, lin, cut):
    """(hi, lo) with lin == hi*cut + lo and 0 <= lo < cut, or None."""
    lin = as_lin(lin)
    ht, lt = {}, {}
    for v, tab in lin.t:
        if all(x is UNDEF or x % cut == 0 for x in tab):
            ht[v] = tuple(UNDEF if x is UNDEF else x // cut for x in tab)
        else:
            lt[v] = tab
    ha, la = {}, {}
    for at, k in lin.a:
        if k % cut == 0:
            ha[at] = k // cut
        else:
            la[at] = k
    q, r = divmod(lin.c, cut)
    low = mk_lin(r, lt, la)
    for shift in (0, -1, 1):
        cand = Lin(low.c + shift * cut, low.t, low.a)
        a, b = bounds(st, cand)
        if 0 <= a and b < cut:
            return mk_lin(q - shift, ht, ha), cand
    # split tables entry by entry
    ht2, lt2 = dict(ht), {}
    for v, tab in lt.items():
        hi_t = tuple(UNDEF if x is UNDEF else x // cut for x in tab)
        lo_t = tuple(UNDEF if x is UNDEF else x % cut for x in tab)
        ht2[v] = hi_t
        lt2[v] = lo_t
    if not la:
        low = mk_lin(r, lt2, {})
        a, b = bounds(st, low)
        if 0 <= a and b < cut:
            return mk_lin(q, ht2, ha), low
    # several variables below the cut, none of them crossing it alone
    return None


def content(lin, m):
    """Greatest common divisor of m and every coefficient."""
    g = math.gcd(m, lin.c)
    for _, tab in lin.t:
        for x in tab:
            if x is not UNDEF and x:
                g = math.gcd(g, x)
                if g == 1:
                    return 1
    for _, k in lin.a:
        g = math.gcd(g, k)
    return g


def shrink(lin, g):
    return Lin(
        lin.c // g,
        tuple((v, tuple(x if x is UNDEF else x // g for x in tab)) for v, tab in lin.t),
        tuple((at, k // g) for at, k in lin.a),
    )


def lin_mod(st, lin, m):
    if not isinstance(lin, Lin):
        return lin % m
    a, b = bounds(st, lin)
    if a // m == b // m:
        return norm_int(lin_add(lin, -(a // m) * m))
    if lin.const:
        return lin.c % m
    if len(lin.t) == 1 and not lin.a:
        v, tab = lin.t[0]
        return norm_int(lin_table(v, [y if y is UNDEF else (y + lin.c) % m for y in tab]))
    sp = split_lin(st, lin, m)
    if sp is not None:
        return norm_int(sp[1])
    # canonical residue form
    g = content(lin, m)
    if g > 1:
        return norm_int(lin_mul(as_lin(lin_mod(st, shrink(lin, g), m // g)), g))
    red = residue(lin, m)
    if red != lin:
        sp = split_lin(st, red, m)
        if sp is not None:
            return norm_int(sp[1])
    if red.const:
        return red.c % m
    a, b = bounds(st, red)
    if 0 <= a and b < m:
        return red
    return Lin(0, (), ((mod_atom(red, m), 1),))


def lin_div(st, lin, m):
    if not isinstance(lin, Lin):
        return lin // m
    a, b = bounds(st, lin)
    if a // m == b // m:
        return a // m
    if len(lin.t) == 1 and not lin.a:
        v, tab = lin.t[0]
        return norm_int(lin_table(v, [y if y is UNDEF else (y + lin.c) // m for y in tab]))
    sp = split_lin(st, lin, m)
    if sp is not None:
        return norm_int(sp[0])
    g = content(lin, m)
    if g > 1:
        return lin_div(st, shrink(lin, g), m // g)
    return Lin(0, (), ((div_atom(lin, m), 1),))


# -- sums of digits ------------------------------------------------------------


def floor_div(st, x, m):
    """x div m in a form in which neighbouring digits of one number cancel."""
    x = as_lin(x)
    if m == 1:
        return expand(st, x)
    if not x.c and len(x.t) + len(x.a) == 1:
        if x.a:
            at, k = x.a[0]
            if k == 1 and isinstance(at, DivAtom):
                return floor_div(st, at.lin, at.m * m)
            if k == 1 and isinstance(at, ModAtom) and at.m % m == 0:
                return lin_add(
                    floor_div(st, at.lin, m), floor_div(st, at.lin, at.m), -(at.m // m))
        else:
            v, tab = x.t[0]
            if isinstance(v, DVar) and all(
                tab[i] is UNDEF or tab[i] == v.values[i] for i in bits(st.mask(v))
            ):
                return floor_div(st, v.lin, m)
    x = expand(st, x)
    a, b = bounds(st, x)
    if a // m == b // m:
        return Lin(a // m)
    sp = split_lin(st, x, m)
    if sp is not None:
        return as_lin(sp[0])
    c, t, qt, a, qa = x.c, {}, {}, {}, {}
    for v, tab in x.t:
        first = next((y for y in tab if y is not UNDEF), 0)
        c += first
        t[v] = tuple(y if y is UNDEF else (y - first) % m for y in tab)
        qt[v] = tuple(y if y is UNDEF else (y - first) // m for y in tab)
    for at, k in x.a:
        a[at], qa[at] = k % m, k // m
    red = mk_lin(0, t, a)
    c += red.c
    whole = mk_lin(c // m, qt, qa)
    g = content(Lin(0, red.t, red.a), m)
    if red.const:
        return whole
    if g > 1:
        red, m = shrink(Lin(0, red.t, red.a), g), m // g
    red = Lin(c % (m * g) // g, red.t, red.a)
    if m == 1:
        return lin_add(whole, red)
    return lin_add(whole, Lin(0, (), ((div_atom(red, m), 1),)))


def digit_form(v, tab, mask):
    """(c, k, d, e) with tab = c + k * ((value div d) mod e), or None."""
    got = [(v.values[i], tab[i]) for i in bits(mask)]
    if any(y is UNDEF for _, y in got):
        return None
    top = max(x for x, _ in got) + 1
    d = 1
    while d < top:
        e = 1
        while d * e < top:
            e *= 2
        while e > 1:
            low = (got[0][0] // d % e, got[0][1])
            other = next(((x // d % e, y) for x, y in got if x // d % e != low[0]), None)
            if other is not None:
                k, r = divmod(other[1] - low[1], other[0] - low[0])
                c = low[1] - k * low[0]
                if not r and k and all(c + k * (x // d % e) == y for x, y in got):
                    return c, k, d, e
            e //= 2
        d *= 2
    return None


def expand(st, x):
    """The same integer without digit variables and remainders where possible."""
    out = Lin(x.c, tuple(p for p in x.t if not isinstance(p[0], DVar)),
              tuple(p for p in x.a if isinstance(p[0], IVar)))
    for v, tab in x.t:
        if not isinstance(v, DVar):
            continue
        f = digit_form(v, tab, st.mask(v)) if v.values[0] >= 0 else None
        if f is None:
            out = lin_add(out, Lin(0, ((v, tab),), ()))
            continue
        c, k, d, e = f
        out = lin_add(lin_add(out, floor_div(st, v.lin, d), k), c)
        if d * e <= max(v.values[i] for i in bits(st.mask(v))):
            out = lin_add(out, floor_div(st, v.lin, d * e), -k * e)
    for at, k in x.a:
        if isinstance(at, ModAtom):
            out = lin_add(lin_add(out, expand(st, at.lin), k), floor_div(st, at.lin, at.m), -k * at.m)
        elif isinstance(at, DivAtom):
            out = lin_add(out, floor_div(st, at.lin, at.m), k)
    return out


def joined_digits(st, x):
    """A sum of digits of one number as that number."""
    if not isinstance(x, Lin) or not any(isinstance(v, DVar) for v, _ in x.t):
        return x
    y = expand(st, x)

    def odd(z):
        return sum(isinstance(v, DVar) for v, _ in z.t) + sum(
            not isinstance(a, IVar) for a, _ in z.a)

    return y if odd(y) < odd(x) else x


# -- evaluation under an assignment (for witnesses) -----------------------


def eval_lin(lin, asg):
    if not isinstance(lin, Lin):
        return int(lin)
    s = lin.c
    for v, tab in lin.t:
        x = tab[eval_var(v, asg)]
        if x is UNDEF:
            raise KeyError(v.name)
        s += x
    for at, k in lin.a:
        if isinstance(at, IVar):
            s += k * asg[at]
        elif isinstance(at, ModAtom):
            s += k * (eval_lin(at.lin, asg) % at.m)
        else:
            s += k * (eval_lin(at.lin, asg) // at.m)
    return s


def eval_var(v, asg):
    if isinstance(v, DVar):
        return eval_lin(v.lin, asg) - v.values[0]
    return asg[v]


def to_base(n, base, width, digits):
    if n < 0:
        raise ValueError("negative")
    out = []
    while n:
        n, d = divmod(n, base)
        out.append(digits[d])
    s = "".join(reversed(out)) or digits[0]
    return s.rjust(width, digits[0])


def eval_str(x, asg):
    out = []
    for s in segs_of(x):
        if isinstance(s, str):
            out.append(s)
        elif isinstance(s, Tab):
            y = s.img[eval_var(s.var, asg)]
            if y is UNDEF:
                raise KeyError(s.var.name)
            out.append(y)
        elif isinstance(s, Num):
            out.append(to_base(eval_lin(s.lin, asg), s.base, s.width, s.digits()))
        elif isinstance(s, Rep):
            ch = min(s.chars)
            out.append(ch * asg[s.len])
        else:
            raise Undecided("opaque string")
    return "".join(out)


def lin_atoms(lin, out):
    for v, _ in lin.t:
        if isinstance(v, DVar):
            lin_atoms(v.lin, out)
        else:
            out.add(v)
    for at, _ in lin.a:
        if isinstance(at, IVar):
            out.add(at)
        else:
            lin_atoms(at.lin, out)


def str_atoms(x, out):
    for s in segs_of(x):
        if isinstance(s, Tab):
            if isinstance(s.var, DVar):
                lin_atoms(s.var.lin, out)
            else:
                out.add(s.var)
        elif isinstance(s, Num):
            lin_atoms(s.lin, out)
        elif isinstance(s, Rep):
            out.add(s.len)
