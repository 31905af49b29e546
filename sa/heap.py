"""Heap objects, program values and the join of abstract states."""
from __future__ import annotations

from .dom import (
    UNDEF, AStr, BytesV, Fin, Lin, Num, Opq, Rep, St, Tab, Undecided, Var, as_lin, assume_range,
    bits, bounds, lin_add, lin_diff_const, mk_lin, mk_str, mk_tab, norm_int, segs_of,
)
from .strs import fuse, seg_same, is_str, is_int


class Ref:
    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __hash__(self):
        return hash(("ref", self.id))

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __repr__(self):
        return f"Ref({self.id})"


class HObj:
    """kind: inst, list, dict, set, ns (module or class namespace)."""

    __slots__ = ("kind", "cls", "data")

    def __init__(self, kind, cls, data):
        self.kind = kind
        self.cls = cls
        self.data = data

    def __repr__(self):
        return f"HObj({self.kind},{self.cls},{self.data!r})"


class LSplit:
    """Payload of a list: text.split(sep)."""

    __slots__ = ("text", "sep")

    def __init__(self, text, sep):
        self.text = text
        self.sep = sep


class DagL:
    """Payload of a list whose length depends on the cells.

    edges: node -> list of (guard {var: mask}, values tuple, next node or None)
    """

    __slots__ = ("start", "edges", "order")

    def __init__(self, start, edges, order):
        self.start = start
        self.edges = edges
        self.order = order


JOIN_LISTS = [True]  # lists of different lengths may be joined


class CatL:
    """Payload of a list of which only the concatenation is known."""

    __slots__ = ("cat",)

    def __init__(self, cat):
        self.cat = cat


class ClassV:
    __slots__ = ("name", "bases", "mro", "module", "id", "node", "enum", "exc",
                 "named", "frozen")

    def __init__(self, name, bases, module, id_, node):
        self.name = name
        self.bases = bases
        self.module = module
        self.id = id_
        self.node = node
        self.mro = None
        self.enum = None
        self.exc = False
        self.named = False
        self.frozen = False

    def __repr__(self):
        return f"<class {self.name}>"


class NTup(tuple):
    """Value of a named tuple class."""

    def __new__(cls, kind, items):
        t = tuple.__new__(cls, items)
        t.kind = kind
        return t

    def __hash__(self):
        return hash((self.kind.id, tuple(self)))

    def __eq__(self, o):
        return isinstance(o, NTup) and self.kind is o.kind and tuple(self) == tuple(o)

    def __ne__(self, o):
        return not self == o


class UnknownV:
    """Definition the analysis could not evaluate; any use is undecided."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class FuncV:
    __slots__ = ("node", "module", "name", "defaults", "kwdefaults", "env", "fid",
                 "owner", "wrap")

    def __init__(self, node, module, name, defaults, kwdefaults, env, fid, owner=None):
        self.node = node
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.env = env
        self.fid = fid
        self.owner = owner
        self.wrap = None

    def __hash__(self):
        return hash(id(self.node))

    def __eq__(self, o):
        return self is o or (
            isinstance(o, FuncV)
            and self.node is o.node
            and self.fid == o.fid
            and self.env == o.env
            and self.defaults == o.defaults
        )

    def __repr__(self):
        return f"<function {self.name}>"


class Wrapped:
    """classmethod, staticmethod, property, cached function."""

    __slots__ = ("kind", "fn", "cache")

    def __init__(self, kind, fn, cache=None):
        self.kind = kind
        self.fn = fn
        self.cache = cache


class Bound:
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __hash__(self):
        return hash((self.fn, self.self_))

    def __eq__(self, o):
        return (
            isinstance(o, Bound) and self.fn == o.fn and same_value(self.self_, o.self_)
        )


class Builtin:
    """Library function or type, by dotted name."""

    __slots__ = ("name",)
    _all = {}

    def __new__(cls, name):
        b = cls._all.get(name)
        if b is None:
            b = object.__new__(cls)
            b.name = name
            cls._all[name] = b
        return b

    def __repr__(self):
        return f"<builtin {self.name}>"


GEN = Builtin("iterator of known items")


class Partly:
    """Payload of an iterator that may be used up in part."""


PARTLY = Partly()


class BMethod:
    """Method of a built-in value."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return (
            isinstance(o, BMethod)
            and self.name == o.name
            and same_value(self.obj, o.obj)
        )


class PatternV:
    __slots__ = ("pattern", "flags")

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags

    def __hash__(self):
        return hash((self.pattern, self.flags))

    def __eq__(self, o):
        return (
            isinstance(o, PatternV)
            and self.pattern == o.pattern
            and self.flags == o.flags
        )


class MatchV:
    __slots__ = ("groups", "names", "spans")

    def __init__(self, groups, names, spans=None):
        self.groups = groups
        self.names = names
        self.spans = spans

    def __hash__(self):
        return hash(self.groups)

    def __eq__(self, o):
        return isinstance(o, MatchV) and self.groups == o.groups


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class ExcV:
    """A raised exception: its class and where it was raised."""

    __slots__ = ("cls", "where")

    def __init__(self, cls, where):
        self.cls = cls
        self.where = where

    def __hash__(self):
        return hash(self.cls)

    def __eq__(self, o):
        return isinstance(o, ExcV) and self.cls is o.cls

    @property
    def name(self):
        return self.cls.name


class RangeV:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __hash__(self):
        return hash(self.r)

    def __eq__(self, o):
        return isinstance(o, RangeV) and self.r == o.r


class MaybeUnbound:
    def __repr__(self):
        return "<maybe unbound>"


MAYBE = MaybeUnbound()


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, int, str, bytes)) or a is None:
        return a == b
    if isinstance(a, tuple):
        if isinstance(a, NTup) and a.kind is not b.kind:
            return False
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (AStr, Lin, Ref, Fin, BytesV, FuncV, Bound, BMethod, PatternV,
                      MatchV, RangeV, ExcV)):
        return a == b
    return False


def depends(x):
    """Variables a value depends on, or None when unknown / heap based."""
    out = set()
    todo = [x]
    while todo:
        v = todo.pop()
        if isinstance(v, AStr):
            for s in v.segs:
                if isinstance(s, Tab):
                    out.add(s.var)
                elif isinstance(s, Num):
                    out |= s.lin.vars()
                elif not isinstance(s, str):
                    out.add(None)
        elif isinstance(v, Lin):
            out |= v.vars()
        elif isinstance(v, Fin):
            out.add(v.var)
        elif isinstance(v, tuple):
            todo.extend(v)
        elif isinstance(v, (BytesV,)):
            todo.append(v.hex)
    return out


class CannotJoin(Exception):
    pass


class Joiner:
    """Join of two states that differ in the domain of at most one variable."""

    def __init__(self, base, A, B, var):
        self.base = base
        self.A = A
        self.B = B
        self.var = var
        self.map = {}
        self.back = {}
        self.heap = {}
        self.pending = []
        if var is not None:
            self.ma = A.mask(var)
            self.mb = B.mask(var)

    def val(self, a, b):
        if a is b or same_value(a, b):
            return a
        ta, tb = type(a), type(b)
        if a is MAYBE or b is MAYBE:
            return MAYBE
        if ta is tuple and tb is tuple:
            if len(a) != len(b):
                raise CannotJoin
            return tuple(self.val(x, y) for x, y in zip(a, b))
        if ta is NTup and tb is NTup and a.kind is b.kind:
            return NTup(a.kind, [self.val(x, y) for x, y in zip(a, b)])
        if ta is Ref and tb is Ref:
            return self.ref(a, b)
        if is_str(a) and is_str(b):
            return self.string(a, b)
        if is_int(a) and is_int(b):
            return self.integer(a, b)
        if ta is BytesV and tb is BytesV:
            return BytesV(self.string(a.hex, b.hex))
        if ta is Bound and tb is Bound:
            if a.fn != b.fn:
                raise CannotJoin
            return Bound(a.fn, self.val(a.self_, b.self_))
        if ta is BMethod and tb is BMethod:
            if a.name != b.name:
                raise CannotJoin
            return BMethod(self.val(a.obj, b.obj), a.name)
        if ta is MatchV and tb is MatchV:
            return MatchV(self.val(a.groups, b.groups), a.names)
        if ta is FuncV and tb is FuncV and a.node is b.node and a.fid == b.fid:
            if a.env is None or b.env is None or a.env.keys() != b.env.keys():
                raise CannotJoin
            env = {k: self.val(a.env[k], b.env[k]) for k in a.env}
            f = FuncV(a.node, a.module, a.name, self.val(a.defaults, b.defaults),
                      a.kwdefaults, env, a.fid, a.owner)
            return f
        return self.fin(a, b)

    def fin(self, a, b):
        v = self.var
        if v is None:
            raise CannotJoin

        def tab(x):
            if isinstance(x, Fin):
                if x.var is v:
                    return x.img
                raise CannotJoin
            if isinstance(x, AStr):
                f = fuse(self.A, x)
                if f is None or isinstance(f, str) or f[0] is not v:
                    raise CannotJoin
                return f[1]
            if isinstance(x, Lin):
                if x.a or len(x.t) != 1 or x.t[0][0] is not v:
                    raise CannotJoin
                return tuple(UNDEF if y is UNDEF else y + x.c for y in x.t[0][1])
            if x is None or isinstance(
                x, (bool, int, str, float, ClassV, Builtin, PatternV)
            ):
                return (x,) * v.n
            if isinstance(x, Ref) and x.id in self.base:
                return (x,) * v.n
            if isinstance(x, tuple) and all(
                y is None or isinstance(y, (bool, int, str)) for y in x
            ):
                return (x,) * v.n
            raise CannotJoin

        ia, ib = tab(a), tab(b)
        return self.union(ia, ib, lambda img: Fin(v, img))

    def union(self, ia, ib, mk):
        out = []
        ma, mb = self.ma, self.mb
        for k in range(self.var.n):
            if ma >> k & 1:
                x = ia[k]
                if mb >> k & 1 and not same_value(x, ib[k]):
                    raise CannotJoin
                out.append(x)
            elif mb >> k & 1:
                out.append(ib[k])
            else:
                out.append(UNDEF)
        return mk(tuple(out))

    def integer(self, a, b):
        v = self.var
        a, b = as_lin(a), as_lin(b)
        if v is None:
            if lin_diff_const(self.A, a, b) == 0 and lin_diff_const(self.B, a, b) == 0:
                return a
            raise CannotJoin
        ta, tb = dict(a.t), dict(b.t)
        ia = ta.pop(v, (0,) * v.n)
        ib = tb.pop(v, (0,) * v.n)
        ra, rb = mk_lin(0, ta, dict(a.a)), mk_lin(0, tb, dict(b.a))
        d = 0
        if ra != rb:
            d = lin_diff_const(self.A, ra, rb)
            if d is None:
                raise CannotJoin
        ia = tuple(UNDEF if x is UNDEF else x + a.c for x in ia)
        ib = tuple(UNDEF if x is UNDEF else x + b.c - d for x in ib)
        return norm_int(
            lin_add(ra, self.union(ia, ib, lambda img: mk_lin(0, {v: img}, {})))
        )

    def string(self, a, b):
        sa, sb = list(segs_of(a)), list(segs_of(b))
        v = self.var
        if v is not None and len(sa) == len(sb):
            try:
                return mk_str([self.seg(p, q) for p, q in zip(sa, sb)])
            except CannotJoin:
                pass
        i = 0
        pre = []
        while i < len(sa) and i < len(sb):
            p, q = sa[i], sb[i]
            if p is q or p == q:
                pre.append(p)
            elif (
                isinstance(p, Tab)
                and isinstance(q, Tab)
                and p.var is q.var
                and p.var is not v
                and seg_same(self.A, p, q)
            ):
                pre.append(p)
            elif (
                isinstance(p, Tab)
                and isinstance(q, Tab)
                and p.var is v
                and q.var is v
            ):
                # functions of the differing variable: unite in place when
                # the remaining shapes agree
                if len(sa) != len(sb):
                    break
                try:
                    pre.append(self.union(p.img, q.img, lambda im: mk_tab(v, im)))
                except CannotJoin:
                    break
            elif isinstance(p, Num) and isinstance(q, Num) and (
                p.base == q.base and p.width == q.width and p.upper == q.upper
            ):
                try:
                    l = self.integer(p.lin, q.lin)
                except CannotJoin:
                    break
                pre.append(Num(as_lin(l), p.base, p.width, p.upper))
            else:
                break
            i += 1
        sa, sb = sa[i:], sb[i:]
        if not sa and not sb:
            return mk_str(pre)
        post = []
        while sa and sb:
            p, q = sa[-1], sb[-1]
            if p is q or p == q:
                post.append(p)
            elif (
                isinstance(p, Tab)
                and isinstance(q, Tab)
                and p.var is q.var
                and p.var is not v
                and seg_same(self.A, p, q)
            ):
                post.append(p)
            else:
                break
            sa.pop()
            sb.pop()
        post.reverse()
        if v is None:
            from .strs import same_text

            x, y = mk_str(sa), mk_str(sb)
            if same_text(self.A, x, y) and same_text(self.B, x, y):
                return mk_str(pre + sa + post)
            raise CannotJoin
        # widen the difference until it is a function of v alone
        fa = self._fuse_v(self.A, sa)
        fb = self._fuse_v(self.B, sb)
        if fa is None or fb is None:
            # equal in both states although written differently?
            from .strs import same_text

            x, y = mk_str(sa), mk_str(sb)
            if same_text(self.A, x, y) is True:
                return mk_str(pre + sb + post)
            if same_text(self.B, x, y) is True:
                return mk_str(pre + sa + post)
            raise CannotJoin
        mid = self.union(fa, fb, lambda im: mk_tab(v, im))
        return mk_str(pre + [mid] + post)

    def seg(self, p, q):
        v = self.var
        if p is q or p == q:
            return p
        if isinstance(p, Num) and isinstance(q, Num):
            if p.base == q.base and p.width == q.width and p.upper == q.upper:
                l = as_lin(self.integer(p.lin, q.lin))
                return Num(l, p.base, p.width, p.upper)
            raise CannotJoin
        if isinstance(p, Tab) and isinstance(q, Tab) and p.var is q.var:
            if p.var is not v:
                if seg_same(self.A, p, q):
                    return p
                raise CannotJoin
        ip, iq = self._fuse_v(self.A, [p]), self._fuse_v(self.B, [q])
        if ip is None or iq is None:
            raise CannotJoin
        return self.union(ip, iq, lambda im: mk_tab(v, im))

    def _fuse_v(self, st, segs):
        v = self.var
        x = mk_str(segs)
        f = fuse(st, x)
        if f is None:
            from .strs import simplify

            f = fuse(st, simplify(st, x))
            if f is None:
                return None
        if isinstance(f, str):
            return (f,) * v.n
        if f[0] is not v:
            vals = {f[1][k] for k in bits(st.mask(f[0]))}
            if len(vals) == 1:
                return (vals.pop(),) * v.n
            return None
        return f[1]

    def ref(self, a, b):
        if a.id == b.id:
            return a
        if a.id in self.map:
            if self.map[a.id] != b.id:
                raise CannotJoin
            return a
        if b.id in self.back:
            raise CannotJoin
        if a.id in self.base or b.id in self.base:
            return self.fin(a, b)
        if a.id in self.B.heap or b.id in self.A.heap:
            raise CannotJoin
        self.map[a.id] = b.id
        self.back[b.id] = a.id
        self.pending.append((a.id, a.id, b.id))
        return a

    def obj(self, x, y):
        if x is y:
            return x
        if x.kind != y.kind or x.cls is not y.cls:
            raise CannotJoin
        if x.kind == "inst":
            d = {}
            for k in x.data.keys() | y.data.keys():
                if k not in x.data or k not in y.data:
                    raise CannotJoin
                d[k] = self.val(x.data[k], y.data[k])
            # attribute order follows the first state
            return HObj("inst", x.cls, {k: d[k] for k in x.data})
        if x.kind == "ns":
            if x.data.keys() != y.data.keys():
                raise CannotJoin
            return HObj("ns", x.cls, {k: self.val(v, y.data[k]) for k, v in x.data.items()})
        if x.kind == "list":
            if x.cls is not y.cls:
                raise CannotJoin
            if isinstance(x.data, tuple) and isinstance(y.data, tuple):
                if len(x.data) == len(y.data):
                    try:
                        return HObj(
                            "list", x.cls,
                            tuple(self.val(p, q) for p, q in zip(x.data, y.data)),
                        )
                    except CannotJoin:
                        pass
            if not JOIN_LISTS[0]:
                raise CannotJoin
            return HObj("list", x.cls, CatL(self.string(_cat(x.data), _cat(y.data))))
        if x.kind == "bag":
            return HObj("bag", None, self.val(x.data, y.data))
        if x.kind in ("dict", "set"):
            if x.data.keys() != y.data.keys():
                raise CannotJoin
            if list(x.data.keys()) != list(y.data.keys()):
                raise CannotJoin
            return HObj(
                x.kind, x.cls,
                {k: (v[0], self.val(v[1], y.data[k][1])) for k, v in x.data.items()},
            )
        raise CannotJoin


def _cat(data):
    if isinstance(data, CatL):
        return data.cat
    if isinstance(data, tuple):
        segs = ()
        for v in data:
            if not is_str(v):
                raise CannotJoin
            segs += segs_of(v)
        return mk_str(segs)
    raise CannotJoin


def dom_diff(A, B):
    """(count, var): how many variables have different domains."""
    da, db = A.dom, B.dom
    if da == db:
        return 0, None
    n = 0
    var = None
    for v, m in da.items():
        if db.get(v, v.full) != m:
            n += 1
            var = v
            if n > 1:
                return n, None
    for v, m in db.items():
        if v not in da and m != v.full:
            n += 1
            var = v
            if n > 1:
                return n, None
    return n, var


def join_cons(A, B):
    """Constraints of the join, or CannotJoin."""
    if A.cons == B.cons:
        return A.cons
    if len(A.cons) == len(B.cons):
        diff = [k for k, (x, y) in enumerate(zip(A.cons, B.cons)) if x != y]
        if len(diff) == 1:
            k = diff[0]
            (l1, a1, b1), (l2, a2, b2) = A.cons[k], B.cons[k]
            if l1 == l2:
                # overlapping or adjacent intervals
                if (
                    (a2 is None or b1 is None or a2 <= b1 + 1)
                    and (a1 is None or b2 is None or a1 <= b2 + 1)
                ):
                    a = None if a1 is None or a2 is None else min(a1, a2)
                    b = None if b1 is None or b2 is None else max(b1, b2)
                    rest = list(A.cons)
                    if a is None and b is None:
                        del rest[k]
                    else:
                        rest[k] = (l1, a, b)
                    return tuple(rest)
    raise CannotJoin


def join_ranges(A, va, B, vb):
    """Domains and constraints of two states that are neighbouring ranges of one number, or None."""
    common = tuple(c for c in A.cons if c in B.cons)
    own_a = [c for c in A.cons if c not in common]
    own_b = [c for c in B.cons if c not in common]
    if len(own_a) > 1 or len(own_b) > 1:
        return None
    lin = (own_a or own_b or [(None,)])[0][0]
    if lin is None:
        for x in va:
            if isinstance(x, AStr):
                nums = [s.lin for s in x.segs if isinstance(s, Num)]
                if nums:
                    lin = nums[0]
                    break
        else:
            return None
    if (own_a and own_a[0][0] != lin) or (own_b and own_b[0][0] != lin):
        return None
    have = {v for v, _ in lin.t}
    dom = {}
    for v in A.dom.keys() | B.dom.keys():
        a, b = A.mask(v), B.mask(v)
        if a != b and v not in have:
            return None
        if a | b != v.full:
            dom[v] = a | b
    (a1, b1), (a2, b2) = bounds(A, lin), bounds(B, lin)
    if b1 + 1 != a2 and b2 + 1 != a1:
        return None
    for own, a, b in ((own_a, a1, b1), (own_b, a2, b2)):
        for _, lo, hi in own:
            if (lo is not None and lo > a) or (hi is not None and hi < b):
                return None
    both = St(dom, common)
    for st, a, b in ((A, a1, b1), (B, a2, b2)):
        back = assume_range(both, lin, a, b)
        if back is None:
            return None
        for v, _ in lin.t:
            if back.mask(v) != st.mask(v):
                return None
    return assume_range(both, lin, min(a1, a2), max(b1, b2))


def try_join(base, A, va, B, vb):
    """Joined (state, values) or None."""
    if len(A.frames) != len(B.frames):
        return None
    n, var = dom_diff(A, B)
    whole = None
    if n > 1 or (n and A.cons != B.cons):
        whole = join_ranges(A, va, B, vb)
        if whole is None:
            return None
        var = None
    try:
        cons = A.cons
        if A.cons != B.cons and whole is None:
            cons = join_cons(A, B)
        j = Joiner(base, A, B, var)
        vals = tuple(j.val(x, y) for x, y in zip(va, vb))
        frames = []
        for fa, fb in zip(A.frames, B.frames):
            if fa is fb:
                frames.append(dict(fa))
                continue
            d = {}
            for k, x in fa.items():
                if k in fb:
                    d[k] = j.val(x, fb[k])
                else:
                    d[k] = MAYBE
            for k in fb:
                if k not in fa:
                    d[k] = MAYBE
            frames.append(d)
        heap = dict(A.heap)
        for i, o in B.heap.items():
            p = heap.get(i)
            if p is None:
                heap[i] = o
            elif p is not o:
                heap[i] = j.obj(p, o)
        # a base object written in only one of the two
        for i, o in list(A.heap.items()):
            if i in base and i not in B.heap:
                heap[i] = j.obj(o, base[i])
        for i, o in B.heap.items():
            if i in base and i not in A.heap:
                heap[i] = j.obj(base[i], o)
        while j.pending:
            i, ia, ib = j.pending.pop()
            heap[i] = j.obj(A.heap[ia], B.heap[ib])
        dom = dict(A.dom)
        if var is not None:
            m = A.mask(var) | B.mask(var)
            if m == var.full:
                dom.pop(var, None)
            else:
                dom[var] = m
        writes = A.writes
        if B.writes != writes:
            writes = tuple(dict.fromkeys(A.writes + B.writes))
        if whole is not None:
            dom, cons = dict(whole.dom), whole.cons
        return St(dom, cons, heap, tuple(frames), writes), vals
    except CannotJoin:
        return None


def merge(base, items):
    """Join what can be joined in a list of (state, values tuple)."""
    if len(items) < 2:
        return items
    acc = []
    for it in reversed(items):
        cur = it
        again = True
        while again:
            again = False
            for k in range(len(acc) - 1, -1, -1):
                m = try_join(base, cur[0], cur[1], acc[k][0], acc[k][1])
                if m is not None:
                    cur = m
                    del acc[k]
                    again = True
                    break
        acc.append(cur)
    acc.reverse()
    return acc
