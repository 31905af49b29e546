"""Analysis sessions: calls into the program, comparisons, witnesses, verdicts."""

import itertools
import random

from . import spec
from .dom import (
    DVar,
    DivAtom,
    Fin,
    IVar,
    Lin,
    Num,
    St,
    Undecided,
    Var,
    as_lin,
    bits,
    eval_lin,
    eval_str,
    eval_var,
    lin_atoms,
    lin_eq,
    lin_table,
    mk_str,
    mk_tab,
    raw_bounds,
    str_atoms,
    AStr,
    Opq,
    segs_of,
)
from .heap import ClassV, ExcV, Ref
from .interp import Interp
from .strs import is_str, same_text


class Broken(Exception):
    """The analysis cannot find what it has to analyse."""


class Out:
    """One outcome of an analysed call."""

    __slots__ = ("st", "exc", "val", "where")

    def __init__(self, st, val=None, exc=None, where=None):
        self.st = st
        self.val = val
        self.exc = exc
        self.where = where


class Session:
    MODULES = ["epcpy", "epcpy.epc_schemes", "epcpy.utils.parsers"]

    def __init__(self, root="/repo"):
        self.I = Interp(root)
        try:
            self.I.boot(self.MODULES)
        except Undecided as e:
            raise Broken(f"program does not initialise under the analysis: {e} at {self.I.where}")
        self.root = root
        self.entry = ("", 0)

    # -- program entities ----------------------------------------------------
    def cls(self, name):
        for mod in ("epcpy.epc_schemes", f"epcpy.epc_schemes.{name.lower()}"):
            c = self.I.get_global(f"{mod}.{name}")
            if c is not None:
                return c
        raise Broken(f"class {name} not found")

    def fn(self, name):
        for mod in ("epcpy", "epcpy.utils.parsers"):
            f = self.I.get_global(f"{mod}.{name}")
            if f is not None:
                return f
        raise Broken(f"function {name} not found")

    def glob(self, dotted):
        f = self.I.get_global(dotted)
        if f is None:
            raise Broken(f"{dotted} not found")
        return f

    def attr(self, st, o, name):
        r = self.I.getattr(st, o, name)
        if len(r) != 1:
            raise Broken(f"attribute {name} not found")
        return r[0][1]

    def member(self, enum, name):
        m = self.I.class_attr(St(), enum, name)
        if m is None:
            raise Broken(f"{enum.name} has no member {name}")
        return m

    def coding(self, scheme, name):
        e = self.I.class_attr(St(), self.cls(scheme), "BinaryCodingScheme")
        return self.member(e, name)

    def filter_enum(self, scheme):
        for mod in (f"epcpy.epc_schemes.{scheme.lower()}", "epcpy.epc_schemes"):
            e = self.I.get_global(f"{mod}.{scheme}FilterValue")
            if e is not None:
                return e
        raise Broken(f"filter values of {scheme} not found")

    def filter(self, scheme, pin=None):
        """(argument, value bits, decimal text) of an arbitrary filter value."""
        sp = spec.SCHEMES[scheme]
        if not sp.filter_bits:
            return None, [], []
        e = self.filter_enum(scheme)
        names = list(sp.filters)
        pin = pin or spec.PIN.get("filter")
        if pin is not None:
            k = sp.filters[pin]
            return self.member(e, pin), [format(k, "b").rjust(sp.filter_bits, "0")], [str(k)]
        mem = tuple(self.member(e, n) for n in names)
        v = Var("filter", names)
        vals = tuple(sp.filters[n] for n in names)
        return (
            Fin(v, mem),
            [Num(as_lin(lin_table(v, vals)), 2, sp.filter_bits)],
            [mk_tab(v, tuple(str(x) for x in vals))],
        )

    # -- calls -----------------------------------------------------------------
    def call(self, st, f, args=(), kw=None):
        I = self.I
        self.entry = located(f) or self.entry
        keep = I.collect
        I.collect = [[]]
        I.depth = 0
        try:
            r = I.call(st.clone(), f, list(args), dict(kw or {}))
            raised = I.collect[0]
        finally:
            I.collect = keep
            I.depth = 0
        out = [Out(s, val=v) for s, v in r]
        out += [Out(s, exc=e.cls, where=e.where) for s, e in raised]
        return out

    def method(self, st, obj, name, args=(), kw=None):
        return self.call(st, self.attr(st.clone(), obj, name), args, kw)

    def uri(self, st, ref):
        if not isinstance(ref, Ref):
            return None
        o = self.I.obj(st, ref)
        if o.kind != "inst":
            return None
        r = self.I.getattr(st, ref, "epc_uri")
        if len(r) != 1 or not is_str(r[0][1]):
            raise Undecided("identity text is not a string")
        return r[0][1]

    def classof(self, st, ref):
        if not isinstance(ref, Ref):
            return None
        return self.I.obj(st, ref).cls

    def is_convert(self, exc):
        return any(c.name == "ConvertException" for c in exc.mro)

    # -- comparison --------------------------------------------------------------
    def differ(self, st, x, y, rng, names):
        """None when the two texts are equal in every case of the state,
        otherwise a witness assignment; Undecided when neither is shown."""
        if x is None or not is_str(x):
            return assignment(st, names, rng) or {}
        r = same_text(st, x, y)
        if r is True:
            return None
        atoms = set(names)
        str_atoms(x, atoms)
        str_atoms(y, atoms)

        def bad(a):
            return eval_str(x, a) != eval_str(y, a)

        w = search(st, atoms, bad, rng)
        if w is not None:
            return w
        if r is None:
            got = cases(self, st, x, y)
            if got:
                return None
        raise Undecided("texts neither shown equal nor different")


def located(f):
    """(file, line) where a called class or function is defined"""
    while not hasattr(f, "node") and hasattr(f, "fn"):
        f = f.fn
    node, mod = getattr(f, "node", None), getattr(f, "module", None)
    if node is None or mod is None:
        return None
    if isinstance(f, ClassV):
        for s in node.body:
            if getattr(s, "name", "") == "__init__":
                node = s
    return (getattr(mod, "path", str(mod)), node.lineno)


def cases(S, st, x, y):
    """Decide equality by splitting on one variable at a time (bounded)."""
    from .strs import eq_str

    try:
        rs = eq_str(st.clone(), x, y)
    except Undecided:
        return False
    return all(r for _, r in rs)


# -- witnesses ------------------------------------------------------------------


def state_atoms(st):
    out = set()
    for v in st.dom:
        if isinstance(v, DVar):
            lin_atoms(v.lin, out)
        else:
            out.add(v)
    for l, _, _ in st.cons:
        lin_atoms(l, out)
    return out


def holds(st, asg):
    for l, lo, hi in st.cons:
        x = eval_lin(l, asg)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            return False
    for v, m in st.dom.items():
        try:
            i = eval_var(v, asg)
        except KeyError:
            return False
        if i < 0 or not m >> i & 1:
            return False
    return True


def iv_range(st, iv):
    """Bounds of an unbounded cell that follow from constraints on it alone."""
    lo, hi = iv.lo, iv.hi if iv.hi is not None else iv.lo + 100

    def meet(l, a, b):
        nonlocal lo, hi
        while l.__class__ is Lin and not l.t and len(l.a) == 1:
            at, k = l.a[0]
            if k < 0:
                a, b = (None if b is None else -b), (None if a is None else -a)
                c, k = -l.c, -k
            else:
                c = l.c
            a = None if a is None else -((c - a) // k)
            b = None if b is None else (b - c) // k
            if at is iv:
                lo = lo if a is None else max(lo, a)
                hi = hi if b is None else min(hi, b)
                return
            if not isinstance(at, DivAtom):
                return
            l, a, b = at.lin, (None if a is None else a * at.m), (
                None if b is None else b * at.m + at.m - 1)

    for l, a, b in st.cons:
        meet(l, a, b)
    for v, m in st.dom.items():
        if isinstance(v, DVar) and m:
            meet(v.lin, v.values[0] + (m & -m).bit_length() - 1, v.values[0] + m.bit_length() - 1)
    return lo, hi


def assignment(st, atoms, rng, mode="random"):
    """One assignment of the atoms inside the state, or None."""
    atoms = set(atoms) | state_atoms(st)
    vs = [a for a in atoms if isinstance(a, Var) and not isinstance(a, DVar)]
    vs.sort(key=lambda v: v.id)
    ivs = [a for a in atoms if isinstance(a, IVar)]
    dom = dict(st.dom)
    s = St(dom, st.cons)
    order = list(vs)
    if mode in ("random", "rare"):
        rng.shuffle(order)
    asg = {}
    for iv in ivs:
        lo, hi = iv_range(st, iv)
        if lo > hi:
            return None
        asg[iv] = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, min(hi, lo + 100))])
    for v in order:
        idx = list(bits(dom.get(v, v.full)))
        if mode == "random":
            rng.shuffle(idx)
        elif mode == "high":
            idx.reverse()
        elif mode == "rare":
            # favour a value unlike the bulk
            rng.shuffle(idx)
            if rng.random() < 0.5:
                idx.sort(key=lambda i: v.values[i] in "0123456789" if isinstance(
                    v.values[i], str) else 0)
        ok = None
        old = dom.get(v)
        for i in idx[:40]:
            dom[v] = 1 << i
            if not s.cons or s.feasible():
                ok = i
                break
        if ok is None:
            if old is None:
                dom.pop(v, None)
            else:
                dom[v] = old
            return None
        asg[v] = ok
    try:
        return asg if holds(st, asg) else None
    except KeyError:
        return None


EVERY = 1500  # assignments tried one by one in a small case


def every(st, atoms):
    """All assignments of a state with few of them, or None."""
    atoms = set(atoms) | state_atoms(st)
    vs, n = [], 1
    for v in atoms:
        if not isinstance(v, Var) or isinstance(v, DVar):
            if isinstance(v, DVar):
                continue
            return None
        idx = list(bits(st.dom.get(v, v.full)))
        vs.append((v, idx))
        n *= len(idx)
        if n > EVERY:
            return None
    vs.sort(key=lambda x: x[0].id)
    return (dict(zip([v for v, _ in vs], c))
            for c in itertools.product(*[i for _, i in vs]))


def search(st, atoms, bad, rng, tries=240):
    small = every(st, atoms)
    if small is not None:
        for a in small:
            try:
                if holds(st, a) and bad(a):
                    return a
            except (KeyError, Undecided):
                continue
        return None
    for k in range(tries):
        mode = ("low", "high")[k] if k < 2 else ("random", "rare")[k % 2]
        a = assignment(st, atoms, rng, mode)
        if a is None:
            if k > 60:
                return None
            continue
        try:
            if bad(a):
                return a
        except (KeyError, Undecided):
            continue
    return None


def show(asg):
    """cell name -> value"""
    out = {}
    for v, i in asg.items():
        if isinstance(v, IVar):
            out[v.name] = i
        else:
            out[v.name] = v.values[i]
    return out


def render(x, asg):
    """Readable form of a text under an assignment."""
    if isinstance(x, str):
        return x
    if isinstance(x, AStr):
        try:
            return eval_str(x, asg)
        except (KeyError, Undecided):
            return repr(x)[:200]
    if isinstance(x, Lin):
        try:
            return str(eval_lin(x, asg))
        except KeyError:
            return "?"
    return repr(x)[:200]
