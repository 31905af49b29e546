"""Abstract interpreter for the Python subset the library is written in.

The analysed program is only parsed.  Statements are interpreted over abstract
states; states are split on conditions and joined again where control flow
meets.  Anything outside the supported subset raises Undecided.
"""
from __future__ import annotations

import ast
import copy
import builtins
import os
import sys

from .dom import (
    UNDEF, AStr, BytesV, DVar, Fin, IVar, Lin, Num, Opq, Rep, St, Tab, Undecided, Var,
    as_lin, assume_range, bits, bounds, concat, dvar, fresh_id, lin_add, lin_div,
    lin_eq, lin_mod, lin_mul, lin_table, mk_lin, mk_str, mk_tab, norm_int, segs_of,
)
from .heap import (
    GEN, PARTLY,
    MAYBE, BMethod, Bound, Builtin, CatL, ClassV, DagL, ExcV, FuncV, HObj, LSplit,
    MatchV, NTup, PatternV, RangeV, Ref, SuperV, UnknownV, Wrapped, merge, same_value,
)
from .strs import eq_str, fuse, is_int, is_str, restrict_var, slice_str, str_len

sys.setrecursionlimit(20000)

STATE_CAP = 600
LOOP_CAP = 4000


class Flow:
    __slots__ = ("norm", "ret", "brk", "cont")

    def __init__(self):
        self.norm = []
        self.ret = []
        self.brk = []
        self.cont = []


class NotConcrete(Exception):
    pass


def concrete(v):
    """Is this a plain python value (deeply)?"""
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return True
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    return False


BUILTIN_EXC = {
    k: v
    for k, v in vars(__import__("builtins")).items()
    if isinstance(v, type) and issubclass(v, BaseException)
}


class Interp:
    def __init__(self, root):
        self.root = root
        self.base = {}
        self.modules = {}
        self.exc_classes = {}
        self.collect = [[]]
        self.live_cache = {}
        self.names_cache = {}
        self.steps = 0
        self.step_cap = 10**9
        self.functions = set()  # qualified names of analysed functions
        self.lines = set()
        self.files = {}
        self.depth = 0
        self.pw_cache = {}
        self.memo = {}
        self.memo_on = False
        self.where = ("?", 0)
        self.trace_ret = None
        from . import lib

        self.lib = lib.Lib(self)
        self.object_cls = ClassV("object", (), "builtins", fresh_id(), None)
        self.object_cls.mro = (self.object_cls,)
        self.base[self.object_cls.id] = HObj("ns", None, {})
        self._frozen = False
        self.interfere = None

    # -- heap --------------------------------------------------------------
    def obj(self, st, ref):
        i = ref.id
        o = st.heap.get(i)
        if o is None:
            o = self.base.get(i)
            if o is None:
                raise Undecided("dangling reference")
        return o

    def put(self, st, id_, obj, what=None):
        if self.interfere and id_ in self.interfere:
            obj = self.overwritten(st, id_, obj)
        if id_ in self.base and self._frozen:
            st.writes = st.writes + ((id_, what, self.where),) \
                if (id_, what, self.where) not in st.writes else st.writes
        st.heap[id_] = obj

    def overwritten(self, st, id_, obj):
        """The object after another caller stored its values right afterwards."""
        old = st.heap.get(id_) or self.base.get(id_)
        data = obj.data
        if old is None or not isinstance(data, dict) or not isinstance(old.data, dict):
            return obj
        new = dict(data)
        for k, v in self.interfere[id_].items():
            if k in new and new[k] is not old.data.get(k):
                new[k] = v
        return HObj(obj.kind, obj.cls, new)

    def alloc(self, st, obj):
        i = fresh_id()
        st.heap[i] = obj
        return Ref(i)

    def new_list(self, st, items):
        return self.alloc(st, HObj("list", None, tuple(items) if not isinstance(
            items, (DagL, LSplit, CatL)) else items))

    def new_gen(self, st, items):
        """An iterator: a list that is used up by iterating over it."""
        r = self.new_list(st, items)
        st.heap[r.id] = HObj("list", GEN, st.heap[r.id].data)
        return r

    def new_dict(self, st, pairs):
        d = {}
        for k, v in pairs:
            d[self.hkey(k)] = (k, v)
        keys = [k for k, _ in d.values()]
        for i, k in enumerate(keys):
            for q in keys[:i]:
                if (isinstance(k, (AStr, Lin)) or isinstance(q, (AStr, Lin))) and any(
                        same for _, same in self.equal(st.clone(), k, q)):
                    raise Undecided("keys that may be equal")
        return self.alloc(st, HObj("dict", None, d))

    def hkey(self, k):
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, Ref):
            return k
        if isinstance(k, Fin):
            raise Undecided("table as a key")
        try:
            hash(k)
        except TypeError:
            raise Undecided("unhashable key")
        return k

    # -- exceptions ----------------------------------------------------------
    def exc_class(self, name):
        c = self.exc_classes.get(name)
        if c is None:
            real = BUILTIN_EXC[name]
            bases = tuple(
                self.exc_class(b.__name__) for b in real.__bases__ if b is not object
            )
            c = ClassV(name, bases, "builtins", fresh_id(), None)
            c.exc = True
            c.mro = tuple(
                self.exc_class(b.__name__) if b.__name__ != name else c
                for b in real.__mro__
                if b is not object
            ) + (self.object_cls,)
            self.base[c.id] = HObj("ns", None, {})
            self.exc_classes[name] = c
        return c

    def raise_(self, st, cls, where=None):
        """Record an exceptional outcome; returns no normal result."""
        if isinstance(cls, str):
            if cls == "binascii.Error":
                c = self.exc_classes.get(cls)
                if c is None:
                    b = self.exc_class("ValueError")
                    c = ClassV(cls, (b,), "binascii", fresh_id(), None)
                    c.exc = True
                    c.mro = (c,) + b.mro
                    self.base[c.id] = HObj("ns", None, {})
                    self.exc_classes[cls] = c
                cls = c
            else:
                cls = self.exc_class(cls)
        self.collect[-1].append((st, ExcV(cls, where or self.where)))
        return []

    # -- modules -----------------------------------------------------------
    def load_module(self, name, st):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.replace(".", "/")
        path = os.path.join(self.root, rel + ".py")
        pkg = False
        if not os.path.isfile(path):
            path = os.path.join(self.root, rel, "__init__.py")
            pkg = True
            if not os.path.isfile(path):
                return None
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        i = fresh_id()
        self.files[name] = os.path.relpath(path, self.root)
        mod = ModuleV(name, i, os.path.relpath(path, self.root), pkg)
        self.modules[name] = mod
        st.heap[i] = HObj("ns", None, {"__name__": name})
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0], st)
        mod.tree = tree
        fr = st.frames
        st.frames = fr + ({"__mod__": mod, "__fid__": -1, "__cls__": None},)
        fl = self.block([st], tree.body, module_level=True)
        if fl.ret or fl.brk or fl.cont or len(fl.norm) != 1 or fl.norm[0] is not st:
            if len(fl.norm) != 1:
                raise Undecided(f"module {name} does not initialise to one state")
            s2 = fl.norm[0]
            st.heap = s2.heap
            st.dom = s2.dom
            st.frames = s2.frames
        st.frames = fr
        if "." in name:
            parent, child = name.rsplit(".", 1)
            p = self.modules.get(parent)
            if p is not None:
                ns = st.heap[p.id]
                st.heap[p.id] = HObj("ns", None, {**ns.data, child: mod})
        return mod

    def boot(self, names):
        st = St()
        for n in names:
            if self.load_module(n, st) is None:
                raise Undecided(f"module {n} not found")
        if self.collect[-1]:
            raise Undecided("exception during module initialisation")
        self.base.update(st.heap)
        self._frozen = True
        return self

    def module_attr(self, st, mod, name):
        if isinstance(mod, ModuleV):
            ns = st.heap.get(mod.id) or self.base.get(mod.id)
            if name in ns.data:
                v = ns.data[name]
                if v.__class__ is UnknownV:
                    raise Undecided(v.why)
                return v
            sub = self.load_module(mod.name + "." + name, st) if not self._frozen else None
            if sub is not None:
                return sub
            return None
        return Builtin(mod.name + "." + name)

    def get_global(self, dotted):
        """Value of module attribute after initialisation."""
        mod, name = dotted.rsplit(".", 1)
        m = self.modules.get(mod)
        if m is None:
            return None
        return self.base[m.id].data.get(name)

    # -- frames -------------------------------------------------------------
    def frame(self, st):
        return st.frames[-1]

    def lookup(self, st, name, node=None):
        fr = st.frames[-1]
        if name in fr:
            v = fr[name]
            if v is MAYBE:
                raise Undecided(f"{name} may be unbound")
            if v.__class__ is UnknownV:
                raise Undecided(v.why)
            return v
        env = fr.get("__env__")
        while env is not None:
            fid, snap, up = env
            for f in st.frames:
                if f.get("__fid__") == fid and name in f:
                    return f[name]
            if snap is not None and name in snap:
                return snap[name]
            env = up
        mod = fr["__mod__"]
        ns = st.heap.get(mod.id) or self.base.get(mod.id)
        if name in ns.data:
            v = ns.data[name]
            if v.__class__ is UnknownV:
                raise Undecided(v.why)
            return v
        b = self.lib.builtin_name(name)
        if b is not None:
            return b
        return None

    def bind(self, st, name, val):
        fr = st.frames[-1]
        g = fr.get("__globals__")
        if (fr["__fid__"] == -1 and fr["__cls__"] is None) or (g and name in g):
            mod = fr["__mod__"]
            ns = st.heap.get(mod.id) or self.base.get(mod.id)
            self.put(st, mod.id, HObj("ns", None, {**ns.data, name: val}), name)
            return
        fr[name] = val

    def merge_states(self, states, live=None):
        if len(states) < 2:
            return states
        if live is not None:
            for s in states:
                fr = s.frames[-1]
                if fr["__fid__"] != -1:
                    for k in [k for k in fr if k not in live and not k.startswith("__")]:
                        del fr[k]
        items = merge(self.base, [(s, ()) for s in states])
        return [s for s, _ in items]

    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        items = merge(self.base, [(s, (v,)) for s, v in pairs])
        if len(items) > STATE_CAP:
            raise Undecided("too many states")
        return [(s, v[0]) for s, v in items]

    # -- statements -----------------------------------------------------------
    def block(self, states, stmts, module_level=False):
        fl = Flow()
        cur = states
        for n, stmt in enumerate(stmts):
            if not cur:
                break
            if len(cur) > 1:
                cur = self.merge_states(cur, self.live_at(cur[0], stmt))
                if len(cur) > STATE_CAP:
                    raise Undecided("too many states")
            nxt = []
            for st in cur:
                self.step(st, stmt)
                if module_level:
                    r = self.define(st, stmt)
                else:
                    r = self.exec(st, stmt)
                if r.__class__ is list:
                    nxt.extend(r)
                else:
                    nxt.extend(r.norm)
                    fl.ret.extend(r.ret)
                    fl.brk.extend(r.brk)
                    fl.cont.extend(r.cont)
            cur = nxt
        fl.norm = cur
        return fl

    def define(self, st, stmt):
        """Statement of a module or class body.

        A definition outside the supported subset leaves an unknown value
        behind, so that only what uses it stays undecided.
        """
        names = None
        if isinstance(stmt, (ast.FunctionDef, ast.ClassDef)):
            names = [stmt.name]
        elif isinstance(stmt, ast.Assign) and all(isinstance(t, ast.Name) for t in stmt.targets):
            names = [t.id for t in stmt.targets]
        elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
            names = [stmt.target.id]
        if names is None:
            return self.exec(st, stmt)
        keep, frames, ncol = st.clone(), len(st.frames), len(self.collect)
        try:
            return self.exec(st, stmt)
        except Undecided as e:
            why = f"{e} at {self.where[0]}:{self.where[1]}"
            del self.collect[ncol:]
            self.depth = 0
            for n in names:
                self.bind(keep, n, UnknownV(why))
            return [keep]

    def step(self, st, stmt):
        self.steps += 1
        if self.steps > self.step_cap:
            raise Undecided("step limit")
        mod = st.frames[-1]["__mod__"]
        self.where = (mod.path, stmt.lineno)

    def live_at(self, st, stmt):
        fn = st.frames[-1].get("__fn__")
        if fn is None:
            return None
        m = self.live_cache.get(fn)
        if m is None:
            m = self.live_cache[fn] = liveness(fn)
        return m.get(stmt)

    def exec(self, st, stmt):
        return getattr(self, "x_" + stmt.__class__.__name__, self.x_unknown)(st, stmt)

    def x_unknown(self, st, stmt):
        raise Undecided(f"statement {stmt.__class__.__name__}")

    def x_Pass(self, st, stmt):
        return [st]

    def x_Global(self, st, stmt):
        fr = st.frames[-1]
        fr["__globals__"] = fr.get("__globals__", frozenset()) | set(stmt.names)
        return [st]

    def x_Nonlocal(self, st, stmt):
        fr = st.frames[-1]
        fr["__nonlocal__"] = fr.get("__nonlocal__", frozenset()) | set(stmt.names)
        return [st]

    def x_Expr(self, st, stmt):
        if isinstance(stmt.value, ast.Constant):
            return [st]
        if isinstance(stmt.value, (ast.Yield, ast.YieldFrom)):
            if "__with__" in st.frames[-1]:
                return self._yield_to_body(st, stmt.value)
            return self.do_yield(st, stmt.value)
        return [s for s, _ in self.ev(st, stmt.value)]

    def do_yield(self, st, node):
        out = []
        if isinstance(node, ast.YieldFrom):
            for s, v in self.ev(st, node.value):
                for s2, items in self.iterate(s, v):
                    f = s2.frames[-1]
                    f["__yield__"] = f["__yield__"] + tuple(items)
                    out.append(s2)
            return out
        src = [(st, None)] if node.value is None else self.ev(st, node.value)
        for s, v in src:
            f = s.frames[-1]
            f["__yield__"] = f["__yield__"] + (v,)
            out.append(s)
        return out

    def x_Assert(self, st, stmt):
        out = []
        for s, v in self.ev(st, stmt.test):
            for s2, b in self.truth(s, v):
                if b:
                    out.append(s2)
                else:
                    self.raise_(s2, "AssertionError")
        return out

    def x_Assign(self, st, stmt):
        out = []
        if isinstance(stmt.value, ast.GeneratorExp) or (
            isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name)
            and stmt.value.func.id in ("map", "filter")
        ):
            self.collect.append([])
            try:
                pairs = self.ev(st, stmt.value)
            finally:
                late = self.collect.pop()
            if late:
                raise Undecided("exception of an iterator that is used later")
            for s, v in pairs:
                sts = [s]
                for t in stmt.targets:
                    sts = [s3 for s2 in sts for s3 in self.assign(s2, t, v)]
                out.extend(sts)
            return out
        for s, v in self.ev(st, stmt.value):
            sts = [s]
            for t in stmt.targets:
                sts = [s3 for s2 in sts for s3 in self.assign(s2, t, v)]
            out.extend(sts)
        return out

    def x_AnnAssign(self, st, stmt):
        if stmt.value is None:
            return [st]
        out = []
        for s, v in self.ev(st, stmt.value):
            out.extend(self.assign(s, stmt.target, v))
        return out

    def x_AugAssign(self, st, stmt):
        out = []
        t = stmt.target
        if isinstance(t, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        else:
            load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        ast.copy_location(load, t)
        for s, vals in self.ev_list(st, [load, stmt.value]):
            a, b = vals
            # in-place list extension keeps identity
            if isinstance(a, Ref) and isinstance(stmt.op, ast.Add) and \
                    self.obj(s, a).kind == "list":
                for s2, _ in self.lib.method(s, a, "extend", [b], {}):
                    out.extend(self.assign(s2, t, a))
                continue
            for s2, v in self.binop(s, stmt.op, a, b):
                out.extend(self.assign(s2, t, v))
        return out

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            nl = st.frames[-1].get("__nonlocal__")
            if nl and t.id in nl:
                env = st.frames[-1].get("__env__")
                while env is not None:
                    for f in st.frames:
                        if f.get("__fid__") == env[0] and t.id in f:
                            f[t.id] = v
                            return [st]
                    env = env[2]
                raise Undecided("nonlocal write outside its frame")
            self.bind(st, t.id, v)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(st, t.value):
                self.setattr(s, o, t.attr, v)
                out.append(s)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t.elts, v)
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                raise Undecided("slice assignment")
            for s, (o, k) in self.ev_list(st, [t.value, t.slice]):
                out.extend(self.lib.setitem(s, o, k, v))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v)
        raise Undecided("assignment target")

    def unpack(self, st, elts, v):
        out = []
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            k = star[0]
            after = len(elts) - k - 1
            # lazily split text: head elements then the remaining list
            for s, head, rest in self.lib.unpack_star(st, v, k, after):
                if head is None:
                    self.raise_(s, "ValueError")
                    continue
                vals = list(head[:k]) + [rest] + list(head[k:])
                sts = [s]
                for e, x in zip(elts, vals):
                    sts = [s3 for s2 in sts for s3 in self.assign(s2, e, x)]
                out.extend(sts)
            return out
        for s, items in self.lib.unpack_n(st, v, len(elts)):
            if items is None:
                self.raise_(s, "ValueError")
                continue
            sts = [s]
            for e, x in zip(elts, items):
                sts = [s3 for s2 in sts for s3 in self.assign(s2, e, x)]
            out.extend(sts)
        return out

    def x_Delete(self, st, stmt):
        for t in stmt.targets:
            if isinstance(t, ast.Name):
                st.frames[-1].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                res = []
                for s, (o, k) in self.ev_list(st, [t.value, t.slice]):
                    res.extend(self.lib.delitem(s, o, k))
                if len(stmt.targets) == 1:
                    return res
                raise Undecided("multiple deletes")
            else:
                raise Undecided("delete target")
        return [st]

    def x_Return(self, st, stmt):
        fl = Flow()
        if stmt.value is None:
            fl.ret.append((st, None))
        else:
            fl.ret.extend(self.ev(st, stmt.value))
            if self.trace_ret is not None:
                self.trace_ret.append(self.where)
        return fl

    def x_Break(self, st, stmt):
        fl = Flow()
        fl.brk.append(st)
        return fl

    def x_Continue(self, st, stmt):
        fl = Flow()
        fl.cont.append(st)
        return fl

    def rejoin(self, dom, cons, raised, states):
        """The one state covering a finished case split that left no trace."""
        if len(states) < 2 or len(self.collect[-1]) != raised:
            return states
        a = states[0]
        for b in states[1:]:
            if len(a.frames) != len(b.frames) or a.writes != b.writes:
                return states
            if len(a.heap) != len(b.heap):
                return states
            for i, o in a.heap.items():
                if b.heap.get(i) is not o:
                    return states
            for f, g in zip(a.frames, b.frames):
                if f is g:
                    continue
                if len(f) != len(g):
                    return states
                for k, x in f.items():
                    if k not in g:
                        return states
                    y = g[k]
                    if x is not y and not same_value(x, y):
                        return states
        r = a.clone()
        r.dom = dict(dom)
        r.cons = cons
        return [r]

    def x_If(self, st, stmt):
        fl = Flow()
        dom0, cons0, raised0 = dict(st.dom), st.cons, len(self.collect[-1])
        yes, no = self.cond(st, stmt.test)
        for sts, body in ((yes, stmt.body), (no, stmt.orelse)):
            if not sts:
                continue
            if not body:
                fl.norm.extend(sts)
                continue
            if len(sts) > 1:
                sts = self.merge_states(sts)
            r = self.block(sts, body)
            fl.norm.extend(r.norm)
            fl.ret.extend(r.ret)
            fl.brk.extend(r.brk)
            fl.cont.extend(r.cont)
        if yes and no and not (fl.ret or fl.brk or fl.cont):
            fl.norm = self.rejoin(dom0, cons0, raised0, fl.norm)
        return fl

    def x_Match(self, st, stmt):
        fl = Flow()
        for s0, v in self.ev(st, stmt.subject):
            cur = [s0]
            for case in stmt.cases:
                hit, nxt = [], []
                for s in cur:
                    for s2, b in self.matches(s, case.pattern, v):
                        if b and case.guard is not None:
                            y, n = self.cond(s2, case.guard)
                            hit.extend(y)
                            nxt.extend(n)
                        else:
                            (hit if b else nxt).append(s2)
                if hit:
                    r = self.block(self.merge_states(hit), case.body)
                    fl.norm.extend(r.norm)
                    fl.ret.extend(r.ret)
                    fl.brk.extend(r.brk)
                    fl.cont.extend(r.cont)
                cur = self.merge_states(nxt)
            fl.norm.extend(cur)
        return fl

    def matches(self, st, p, v):
        """[(state, bool)] of a case pattern; binds the names it captures."""
        if isinstance(v, Fin):
            return [r for s, x in self.concretise(st, v) for r in self.matches(s, p, x)]
        if isinstance(p, ast.MatchValue):
            return [
                (s2, b)
                for s, w in self.ev(st, p.value)
                for s2, b in self.equal(s, v, w)
            ]
        if isinstance(p, ast.MatchSingleton):
            return self.compare_is(st, v, p.value, False)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind(st, p.name, v)
                return [(st, True)]
            out = []
            for s, b in self.matches(st, p.pattern, v):
                if b and p.name:
                    self.bind(s, p.name, v)
                out.append((s, b))
            return out
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, b in self.matches(s, q, v):
                        (out.append((s2, True)) if b else nxt.append(s2))
                cur = nxt
            return out + [(s, False) for s in cur]
        if isinstance(p, ast.MatchSequence):
            if is_str(v) or v is None or is_int(v) or isinstance(v, BytesV):
                return [(st, False)]
            if not (isinstance(v, tuple) or (
                isinstance(v, Ref) and self.obj(st, v).kind == "list"
            )):
                raise Undecided("sequence pattern")
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            out = []
            for s, items in self.iterate(st, v):
                n = len(p.patterns)
                if (len(items) != n) if not star else (len(items) < n - 1):
                    out.append((s, False))
                    continue
                pairs = []
                if star:
                    k = star[0]
                    after = n - 1 - k
                    stop = len(items) - after
                    pairs = list(zip(p.patterns[:k], items[:k]))
                    pairs += list(zip(p.patterns[k + 1:], items[stop:]))
                    if p.patterns[k].name:
                        self.bind(s, p.patterns[k].name, self.new_list(s, items[k:stop]))
                else:
                    pairs = list(zip(p.patterns, items))
                out.extend(self.match_all(s, pairs))
            return out
        if isinstance(p, ast.MatchClass):
            out = []
            for s, c in self.ev(st, p.cls):
                if not self.lib.isinst(s, v, c):
                    out.append((s, False))
                    continue
                if p.patterns:
                    if len(p.patterns) == 1 and isinstance(c, Builtin):
                        out.extend(self.matches(s, p.patterns[0], v))
                        continue
                    raise Undecided("positional class pattern")
                pairs = []
                for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                    r = self.getattr(s, v, n)
                    if len(r) != 1 or r[0][0] is not s:
                        raise Undecided("class pattern")
                    pairs.append((q, r[0][1]))
                out.extend(self.match_all(s, pairs))
            return out
        raise Undecided(f"pattern {p.__class__.__name__}")

    def match_all(self, st, pairs):
        out, cur = [], [st]
        for q, x in pairs:
            nxt = []
            for s in cur:
                for s2, b in self.matches(s, q, x):
                    (nxt.append(s2) if b else out.append((s2, False)))
            cur = nxt
        return out + [(s, True) for s in cur]

    def cond(self, st, test):
        yes, no = [], []
        for s, v in self.ev(st, test):
            for s2, b in self.truth(s, v):
                (yes if b else no).append(s2)
        if len(yes) > 1:
            yes = self.merge_states(yes)
        if len(no) > 1:
            no = self.merge_states(no)
        return yes, no

    def x_While(self, st, stmt):
        fl = Flow()
        cur = [st]
        done = []
        n = 0
        live = self.live_at(st, stmt)
        while cur:
            n += 1
            if n > LOOP_CAP:
                raise Undecided("loop bound")
            if len(cur) > 1:
                cur = self.merge_states(cur, live)
            nxt = []
            body_in = []
            for s in cur:
                y, no = self.cond(s, stmt.test)
                body_in.extend(y)
                done.extend(no)
            if body_in:
                r = self.block(self.merge_states(body_in), stmt.body)
                nxt = r.norm + r.cont
                fl.ret.extend(r.ret)
                fl.norm.extend(r.brk)
            cur = nxt
            if len(cur) > STATE_CAP:
                raise Undecided("too many states")
        if stmt.orelse and done:
            r = self.block(self.merge_states(done), stmt.orelse)
            fl.norm.extend(r.norm)
            fl.ret.extend(r.ret)
            fl.brk.extend(r.brk)
            fl.cont.extend(r.cont)
        else:
            fl.norm.extend(done)
        return fl

    def x_For(self, st, stmt):
        fl = Flow()
        live = self.live_at(st, stmt)
        for s0, it in self.ev(st, stmt.iter):
            gen = isinstance(it, Ref) and self.obj(s0, it).cls is GEN
            if gen and isinstance(self.obj(s0, it).data, tuple):
                self._for_each(s0, stmt, it, fl, live)
                continue
            for s1, seq in self.lib.iter_graph(s0, it):
                if gen:
                    self.put(s1, it.id, HObj("list", GEN, PARTLY), "iter")
                self._for(s1, stmt, seq, fl, live)
        return fl

    def _for_each(self, st, stmt, it, fl, live):
        """Loop over an iterator, which the body may advance as well."""
        cur, done = [st], []
        while cur:
            nxt = []
            for s in cur:
                rest = self.obj(s, it).data
                if not isinstance(rest, tuple):
                    raise Undecided("iterator used in part")
                if not rest:
                    done.append(s)
                    continue
                self.put(s, it.id, HObj("list", GEN, rest[1:]), "iter")
                r = self.block(self.assign(s, stmt.target, rest[0]), stmt.body)
                nxt += r.norm + r.cont
                fl.ret.extend(r.ret)
                fl.norm.extend(r.brk)
            left = {}
            for s in nxt:
                rest = self.obj(s, it).data
                left.setdefault(len(rest) if isinstance(rest, tuple) else -1, []).append(s)
            cur = [s for same in left.values()
                   for s in (self.merge_states(same, live) if len(same) > 1 else same)]
            if len(cur) + len(done) > STATE_CAP:
                raise Undecided("too many states")
        if len(done) > 1:
            done = self.merge_states(done, None)
        if stmt.orelse and done:
            r = self.block(done, stmt.orelse)
            fl.norm.extend(r.norm)
            fl.ret.extend(r.ret)
            fl.brk.extend(r.brk)
            fl.cont.extend(r.cont)
        else:
            fl.norm.extend(done)

    def _for(self, st, stmt, dag, fl, live):
        """Iterate a DagL; states are joined at its nodes."""
        at = {dag.start: [st]}
        done = []
        for node in dag.order:
            sts = at.pop(node, None)
            if not sts:
                continue
            if len(sts) > 1:
                sts = self.merge_states(sts, live)
                if len(sts) > STATE_CAP:
                    raise Undecided("too many states")
            edges = dag.edges[node]
            for guard, values, nxt in edges:
                cur = []
                for s in sts:
                    s2 = s.clone() if (guard or len(edges) > 1) else s
                    for v, m in guard.items():
                        s2 = restrict_var(s2, v, m)
                        if s2 is None:
                            break
                    if s2 is not None:
                        cur.append(s2)
                for v in values:
                    if not cur:
                        break
                    inn = []
                    for s in cur:
                        inn.extend(self.assign(s, stmt.target, v))
                    if len(inn) > 1:
                        inn = self.merge_states(inn)
                    r = self.block(inn, stmt.body)
                    cur = r.norm + r.cont
                    fl.ret.extend(r.ret)
                    fl.norm.extend(r.brk)
                    if len(cur) > 1:
                        cur = self.merge_states(cur, live)
                        if len(cur) > STATE_CAP:
                            raise Undecided("too many states")
                if nxt is None:
                    done.extend(cur)
                else:
                    at.setdefault(nxt, []).extend(cur)
        if len(done) > 1:
            done = self.merge_states(done, None)
        if stmt.orelse and done:
            r = self.block(done, stmt.orelse)
            fl.norm.extend(r.norm)
            fl.ret.extend(r.ret)
            fl.brk.extend(r.brk)
            fl.cont.extend(r.cont)
        else:
            fl.norm.extend(done)

    def x_With(self, st, stmt):
        return self._with(st, stmt.items, stmt.body)

    def _with(self, st, items, body):
        if not items:
            return self.block([st], body)
        fl = Flow()
        for s, v in self.ev(st, items[0].context_expr):
            r = self._within(s, v, items, body)
            fl.norm += r.norm
            fl.ret += r.ret
            fl.brk += r.brk
            fl.cont += r.cont
        return fl

    def _within(self, st, v, items, body):
        """Body under one context manager."""
        target = items[0].optional_vars
        if isinstance(v, Wrapped) and v.kind == "suppress":
            def enter(s):
                return [(s, None)]

            def leave(s, e):
                if e is None:
                    return [(s, False)]
                return [(s, any(self.catches(c, e) for c in v.fn))]
        elif isinstance(v, Wrapped) and v.kind == "context":
            return self._generator_context(st, v, items, body)
        elif isinstance(v, Ref) and self.obj(st, v).kind == "inst":
            cls = self.obj(st, v).cls
            if isinstance(cls, Builtin):
                def enter(s):
                    return [(s, v)]

                def leave(s, e):
                    return [(s, False)]
            else:
                go, end = (self.class_attr(st, cls, n) for n in ("__enter__", "__exit__"))
                if go is None or end is None:
                    raise Undecided("context manager")

                def enter(s):
                    return self.call(s, Bound(go, v), [], {})

                def leave(s, e):
                    args = [None] * 3 if e is None else [e.cls, e, Builtin("traceback")]
                    return [(s3, t) for s2, r in self.call(s, Bound(end, v), args, {})
                            for s3, t in self.truth(s2, r)]
        else:
            raise Undecided("context manager")
        fl = Flow()
        depth = len(st.frames)
        for s, x in enter(st):
            for s2 in ([s] if target is None else self.assign(s, target, x)):
                self.collect.append([])
                try:
                    r = self._with(s2, items[1:], body)
                finally:
                    raised = self.collect.pop()
                fl.norm += [q for p in r.norm for q, _ in leave(p, None)]
                fl.brk += [q for p in r.brk for q, _ in leave(p, None)]
                fl.cont += [q for p in r.cont for q, _ in leave(p, None)]
                fl.ret += [(q, y) for p, y in r.ret for q, _ in leave(p, None)]
                for p, e in raised:
                    p.frames = p.frames[:depth]
                    for q, swallowed in leave(p, e):
                        if swallowed:
                            fl.norm.append(q)
                        else:
                            self.collect[-1].append((q, e))
        return fl

    def _generator_context(self, st, v, items, body):
        """contextlib.contextmanager: the body runs in place of the yield."""
        fn, args, kw = v.fn
        fr = self.bind_args(st, fn, list(args), kw)
        if fr is None:
            self.raise_(st, "TypeError")
            return Flow()
        self.functions.add((fn.module.path, fn.name, fn.node.lineno))
        fr.update({"__mod__": fn.module, "__fid__": fresh_id(), "__cls__": None,
                   "__fn__": fn.node, "__func__": fn, "__with__": (items, body)})
        if fn.env is not None:
            fr["__env__"] = fn.env["__env__"]
        depth = len(st.frames)
        st.frames = st.frames + (fr,)
        r = self.block([st], fn.node.body)
        if r.brk or r.cont:
            raise Undecided("control flow")
        fl = Flow()
        for s in r.norm + [s for s, _ in r.ret]:
            kind, x = s.frames[-1].get("__after__", ("norm", None))
            s.frames = s.frames[:depth]
            if kind == "ret":
                fl.ret.append((s, x))
            else:
                getattr(fl, kind).append(s)
        return fl

    def _yield_to_body(self, st, node):
        fr = st.frames[-1]
        items, body = fr["__with__"]
        if "__after__" in fr or isinstance(node, ast.YieldFrom):
            raise Undecided("generator that yields twice")
        out = []
        for s, x in [(st, None)] if node.value is None else self.ev(st, node.value):
            g = s.frames[-1]
            depth = len(s.frames) - 1
            s.frames = s.frames[:-1]
            here = [s]
            if items[0].optional_vars is not None:
                here = self.assign(s, items[0].optional_vars, x)
            for s2 in here:
                self.collect.append([])
                try:
                    r = self._with(s2, items[1:], body)
                finally:
                    raised = self.collect.pop()
                for kind in ("norm", "brk", "cont"):
                    for q in getattr(r, kind):
                        q.frames = q.frames + ({**g, "__after__": (kind, None)},)
                        out.append(q)
                for q, y in r.ret:
                    q.frames = q.frames + ({**g, "__after__": ("ret", y)},)
                    out.append(q)
                for q, e in raised:
                    q.frames = q.frames[:depth] + ({**g, "__after__": ("norm", None)},)
                    self.collect[-1].append((q, e))
        return out

    def x_Raise(self, st, stmt):
        if stmt.exc is None:
            cur = st.frames[-1].get("__exc__")
            if cur is None:
                raise Undecided("bare raise")
            return self.raise_(st, cur.cls, cur.where)
        node = stmt.exc
        where = self.where
        args = []
        if isinstance(node, ast.Call):
            args = list(node.args) + [k.value for k in node.keywords]
            node = node.func
        for s, c in self.ev(st, node):
            if isinstance(c, ExcV):
                self.raise_(s, c.cls, where)
                continue
            if isinstance(c, Builtin) and c.name.split(".")[-1] in BUILTIN_EXC:
                c = self.exc_class(c.name.split(".")[-1])
            if not isinstance(c, ClassV):
                raise Undecided("raised value")
            # arguments are evaluated only for the exceptions they may raise
            sts = [s]
            try:
                for a in args:
                    sts = [s3 for s2 in sts for s3, _ in self.ev(s2, a)]
            except Undecided:
                sts = [s]
            for s2 in sts:
                self.raise_(s2, c, where)
        return []

    def x_Try(self, st, stmt):
        fl = Flow()
        depth = len(st.frames)
        self.collect.append([])
        try:
            r = self.block([st], stmt.body)
        finally:
            raised = self.collect.pop()
        norm = r.norm
        ret, brk, cont = list(r.ret), list(r.brk), list(r.cont)
        self.collect.append([])
        try:
            if stmt.orelse and norm:
                r2 = self.block(norm, stmt.orelse)
                norm = r2.norm
                ret += r2.ret
                brk += r2.brk
                cont += r2.cont
            pend = {}
            for s, e in raised:
                s.frames = s.frames[:depth]
                for h in stmt.handlers:
                    m = self.handler_matches(s, h, e)
                    if m:
                        pend.setdefault((h, e.cls), []).append((s, e))
                        break
                else:
                    self.collect[-1].append((s, e))
            for (h, cls), group in pend.items():
                groups = merge(self.base, [(s, ()) for s, _ in group])
                e = group[0][1]
                for s, _ in groups:
                    if h.name:
                        s.frames[-1][h.name] = e
                    old = s.frames[-1].get("__exc__")
                    s.frames[-1]["__exc__"] = e
                    r3 = self.block([s], h.body)
                    for q in r3.norm:
                        if old is None:
                            q.frames[-1].pop("__exc__", None)
                        else:
                            q.frames[-1]["__exc__"] = old
                        q.frames[-1].pop(h.name, None)
                    norm = norm + r3.norm
                    ret += r3.ret
                    brk += r3.brk
                    cont += r3.cont
        finally:
            esc = self.collect.pop()
        if stmt.finalbody:
            def fin(s):
                return self.block([s], stmt.finalbody)

            n2 = []
            for s in norm:
                f = fin(s)
                n2 += f.norm
                fl.ret += f.ret
            for s, v in ret:
                f = fin(s)
                fl.ret += [(q, v) for q in f.norm]
                fl.ret += f.ret
            for s in brk:
                f = fin(s)
                fl.brk += f.norm
            for s in cont:
                f = fin(s)
                fl.cont += f.norm
            for s, e in esc:
                s.frames = s.frames[:depth]
                f = fin(s)
                for q in f.norm:
                    self.collect[-1].append((q, e))
                fl.ret += f.ret
            fl.norm = n2
            return fl
        self.collect[-1].extend(esc)
        fl.norm, fl.ret, fl.brk, fl.cont = norm, fl.ret + ret, brk, cont
        return fl

    def handler_matches(self, st, h, e):
        if h.type is None:
            return True
        res = self.ev(st, h.type)
        if len(res) != 1:
            raise Undecided("handler type")
        t = res[0][1]
        types = t if isinstance(t, tuple) else (t,)
        return any(self.catches(c, e) for c in types)

    def catches(self, c, e):
        if isinstance(c, tuple):
            return any(self.catches(x, e) for x in c)
        if isinstance(c, Builtin):
            nm = c.name.split(".")[-1]
            if c.name in ("binascii.Error",):
                return e.cls.name == "binascii.Error"
            if nm in BUILTIN_EXC:
                c = self.exc_class(nm)
            else:
                raise Undecided("handler type")
        if not isinstance(c, ClassV):
            raise Undecided("handler type")
        return c in e.cls.mro

    def x_Import(self, st, stmt):
        for a in stmt.names:
            top = a.name.split(".")[0]
            m = self.load_module(a.name, st) if not self._frozen else self.modules.get(a.name)
            if m is None:
                m = StdMod(a.name if a.asname else top)
            elif not a.asname:
                m = self.modules[top]
            self.bind(st, a.asname or top, m)
        return [st]

    def x_ImportFrom(self, st, stmt):
        mod = st.frames[-1]["__mod__"]
        if stmt.level:
            parts = mod.name.split(".")
            if not mod.pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (stmt.level - 1)]
            name = ".".join(parts + ([stmt.module] if stmt.module else []))
        else:
            name = stmt.module
        if name == "__future__":
            return [st]
        m = self.load_module(name, st) if not self._frozen else self.modules.get(name)
        for a in stmt.names:
            if m is None:
                v = Builtin(f"{name}.{a.name}")
                v = self.lib.std_value(v)
            else:
                if a.name == "*":
                    for k, x in (st.heap.get(m.id) or self.base[m.id]).data.items():
                        if not k.startswith("_"):
                            self.bind(st, k, x)
                    continue
                v = self.module_attr(st, m, a.name)
                if v is None:
                    self.raise_(st, "ImportError")
                    return []
            self.bind(st, a.asname or a.name, v)
        return [st]

    def x_FunctionDef(self, st, stmt):
        out = []
        for s, f in self.make_func(st, stmt, stmt.args, stmt.name):
            vals = [(s, f)]
            for d in reversed(stmt.decorator_list):
                vals = [
                    (s3, r)
                    for s2, v in vals
                    for s3, dv in self.ev(s2, d)
                    for s3, r in self.call(s3, dv, [v], {})
                ]
            for s2, v in vals:
                self.bind(s2, stmt.name, v)
                out.append(s2)
        return out

    def make_func(self, st, node, args, name):
        out = []
        kwd = [d for d in args.kw_defaults if d is not None]
        for s, vals in self.ev_list(st, list(args.defaults) + kwd):
            nd = len(args.defaults)
            fr = s.frames[-1]
            env = None
            fid = None
            if fr["__fid__"] != -1:
                snap = {
                    k: v for k, v in fr.items()
                    if not k.startswith("__") and k in self.free_names(node)
                }
                env = (fr["__fid__"], snap, fr.get("__env__"))
                fid = fr["__fid__"]
            elif fr.get("__env__") is not None:
                env = fr["__env__"]
                fid = env[0]
            kw = {}
            it = iter(vals[nd:])
            for a, d in zip(args.kwonlyargs, args.kw_defaults):
                if d is not None:
                    kw[a.arg] = next(it)
            f = FuncV(node, fr["__mod__"], name, tuple(vals[:nd]), kw,
                      None if env is None else {"__env__": env}, fid,
                      fr.get("__cls__"))
            out.append((s, f))
        return out

    def free_names(self, node):
        r = self.names_cache.get(node)
        if r is None:
            r = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
            self.names_cache[node] = r
        return r

    def x_ClassDef(self, st, stmt):
        bases = []
        for b in stmt.bases:
            res = self.ev(st, b)
            if len(res) != 1:
                raise Undecided("class base")
            bases.append(res[0][1])
        cls = ClassV(stmt.name, tuple(bases), st.frames[-1]["__mod__"].name, fresh_id(), stmt)
        enum = None
        mixin = None
        named = False
        real = []
        kws = {}
        for k in stmt.keywords:
            res = self.ev(st, k.value)
            if len(res) != 1 or k.arg is None:
                raise Undecided("class argument")
            kws[k.arg] = res[0][1]
        meta = kws.pop("metaclass", None)
        if meta is not None and not (isinstance(meta, Builtin) and meta.name.split(".")[-1] in (
                "ABCMeta", "EnumMeta", "EnumType", "type")):
            raise Undecided("metaclass")
        for b in bases:
            if isinstance(b, Builtin):
                nm = b.name.split(".")[-1]
                if nm in ("Enum", "IntEnum", "StrEnum", "Flag"):
                    enum = nm
                    continue
                if nm in BUILTIN_EXC:
                    real.append(self.exc_class(nm))
                    continue
                if nm in ("object", "ABC", "Generic", "Protocol"):
                    continue
                if nm == "NamedTuple":
                    named = True
                    continue
                if nm in ("str", "int"):
                    mixin = nm
                    continue
                raise Undecided(f"base class {b.name}")
            if isinstance(b, ClassV):
                real.append(b)
                if b.enum:
                    enum = b.enum
                continue
            if isinstance(b, tuple) or b is None:
                continue
            raise Undecided("class base")
        if mixin is not None:
            if enum not in ("Enum", "StrEnum", "IntEnum"):
                raise Undecided(f"base class {mixin}")
            enum = "StrEnum" if mixin == "str" else "IntEnum"
        cls.enum = enum
        cls.exc = any(b.exc for b in real)
        cls.named = named or any(b.named for b in real)
        cls.bases = tuple(real) or (self.object_cls,)
        cls.mro = c3(cls)
        st.heap[cls.id] = HObj("ns", None, {})
        fr = {"__mod__": st.frames[-1]["__mod__"], "__fid__": -1, "__cls__": cls}
        # class bodies see the enclosing function scope, if any
        up = st.frames[-1]
        if up["__fid__"] != -1:
            fr["__env__"] = (up["__fid__"], {k: v for k, v in up.items() if not k.startswith("__")},
                             up.get("__env__"))
        st.frames = st.frames + (fr,)
        f = self.block([st], stmt.body, module_level=True)
        if len(f.norm) != 1:
            raise Undecided("class body")
        st2 = f.norm[0]
        body = {k: v for k, v in st2.frames[-1].items()
                if k not in ("__mod__", "__fid__", "__cls__", "__globals__", "__env__")}
        st2.frames = st2.frames[:-1]
        if enum:
            members = []
            for k, v in list(body.items()):
                if k.startswith("_") or isinstance(v, (FuncV, Wrapped, ClassV)):
                    continue
                val = v
                if v.__class__ is UnknownV:
                    raise Undecided(v.why)
                if isinstance(v, Builtin) and v.name == "enum.auto":
                    if "_generate_next_value_" in body:
                        raise Undecided("enum value")
                    past = [self.obj(st2, m).data["_value_"] for m in members]
                    if enum == "StrEnum" and not mixin:
                        val = k.lower()
                    elif all(isinstance(p, int) for p in past):
                        val = max(past, default=0) + 1
                    else:
                        raise Undecided("enum value")
                if enum == "IntEnum":
                    if isinstance(v, tuple):
                        if len(v) != 1:
                            raise Undecided("enum value")
                        val = v[0]
                dup = None
                for m in members:
                    if same_value(self.obj(st2, m).data["_value_"], val):
                        dup = m
                if dup is not None:
                    body[k] = dup
                    continue
                i = fresh_id()
                st2.heap[i] = HObj("inst", cls, {"_name_": k, "_value_": val})
                body[k] = Ref(i)
                members.append(Ref(i))
            body["__members__"] = tuple(members)
            st2.heap[cls.id] = HObj("ns", None, body)
            if self.class_attr(st2, cls, "__new__") is not None:
                raise Undecided("custom enum allocation")
            init = self.class_attr(st2, cls, "__init__")
            if init is not None:
                for m in members:
                    val = self.obj(st2, m).data["_value_"]
                    r = self.call(st2, Bound(init, m), list(val) if isinstance(val, tuple)
                                  else [val], {})
                    if len(r) != 1:
                        raise Undecided("enum member")
                    st2 = r[0][0]
        if named:
            fields = [s.target.id for s in stmt.body
                      if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            body["_fields"] = tuple(fields)
            body["__ntdefaults__"] = tuple((k, body.pop(k)) for k in fields if k in body)
        st2.heap[cls.id] = HObj("ns", None, body)
        hook = next((c for c in cls.mro[1:] if "__init_subclass__" in self.namespace(st2, c)), None)
        if hook is not None:
            h = self.namespace(st2, hook)["__init_subclass__"]
            r = self.call(st2, Bound(h.fn if isinstance(h, Wrapped) else h, cls), [], kws)
            if len(r) != 1:
                raise Undecided("class registration")
            st2 = r[0][0]
        elif kws:
            raise Undecided("class argument")
        val = cls
        for d in reversed(stmt.decorator_list):
            r = self.ev(st2, d)
            if len(r) != 1:
                raise Undecided("class decorator")
            dv = r[0][1]
            if isinstance(dv, Builtin) and dv.name.split(".")[-1] in ("unique",
                                                                     "total_ordering",
                                                                     "final",
                                                                     "runtime_checkable"):
                continue
            if isinstance(dv, Builtin) and dv.name == "dataclasses.dataclass":
                self.dataclass(st2, cls, stmt, {})
                continue
            if isinstance(dv, Wrapped) and dv.kind == "dataclass":
                self.dataclass(st2, cls, stmt, dv.fn)
                continue
            raise Undecided("class decorator")
        self.bind(st2, stmt.name, val)
        return [st2]

    def namespace(self, st, cls):
        o = st.heap.get(cls.id) or self.base.get(cls.id)
        return {} if o is None else o.data

    def dataclass(self, st, cls, stmt, opts):
        """Add the methods the dataclass decorator generates."""
        ns = st.heap[cls.id].data
        fields = {}
        for c in reversed(cls.mro[1:]):
            o = st.heap.get(c.id) or self.base.get(c.id)
            if o is not None and "__dcfields__" in o.data:
                fields.update(dict(o.data["__dcfields__"]))
        for s in stmt.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if "ClassVar" in ast.unparse(s.annotation) or "InitVar" in ast.unparse(s.annotation):
                    if "InitVar" in ast.unparse(s.annotation):
                        raise Undecided("InitVar")
                    continue
                n = s.target.id
                d = ()
                if n in ns:
                    d = (ns[n],)
                fields[n] = d
        body = dict(ns)
        sig, defs, lines, facts = [], [], [], {}
        for n, d in fields.items():
            init = True
            if d and isinstance(d[0], Wrapped) and d[0].kind == "field":
                o = d[0].fn
                init = o.get("init", True)
                body.pop(n, None)
                if "default" in o:
                    d = (o["default"],)
                    body[n] = o["default"]
                elif "default_factory" in o:
                    facts["__factory_" + n] = o["default_factory"]
                    body["__factory_" + n] = Wrapped("staticmethod", o["default_factory"])
                    lines.append(f"self.{n} = self.__factory_{n}()" if not init else
                                 f"self.{n} = self.__factory_{n}() if {n} is ... else {n}")
                    if init:
                        sig.append(n)
                        defs.append(...)
                    continue
                else:
                    d = ()
            if init:
                sig.append(n)
                if d:
                    defs.append(d[0])
                elif defs:
                    raise Undecided("field order")
                lines.append(f"self.{n} = {n}")
        if opts.get("kw_only"):
            raise Undecided("kw_only")
        mod = st.frames[-1]["__mod__"]

        def method(src, defaults=()):
            node = ast.parse(src).body[0]
            for x in ast.walk(node):
                if hasattr(x, "lineno"):
                    x.lineno = x.end_lineno = stmt.lineno
            return FuncV(node, mod, node.name, tuple(defaults), {}, None, None, cls)

        names = list(fields)
        if "__post_init__" in body or any(self.class_has(st, b, "__post_init__") for b in cls.bases):
            lines.append("self.__post_init__()")
        if opts.get("init", True) is not False and "__init__" not in body:
            src = "def __init__(self" + "".join(", " + n for n in sig) + "):\n"
            src += "".join("    " + x + "\n" for x in lines or ["pass"])
            body["__init__"] = method(src, defs)
        if opts.get("eq", True) is not False and "__eq__" not in body:
            tup = lambda o: "(" + "".join(f"{o}.{n}, " for n in names) + ")"
            body["__eq__"] = method(
                "def __eq__(self, other):\n"
                "    if other.__class__ is self.__class__:\n"
                f"        return {tup('self')} == {tup('other')}\n"
                "    return NotImplemented\n")
        body["__dcfields__"] = tuple(fields.items())
        st.heap[cls.id] = HObj("ns", None, body)
        if opts.get("frozen") and "__setattr__" not in body:
            cls.frozen = True

    # -- expressions -----------------------------------------------------------
    def ev(self, st, node):
        return getattr(self, "e_" + node.__class__.__name__, self.e_unknown)(st, node)

    def ev_list(self, st, nodes):
        """Evaluate several expressions left to right."""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in cur:
                for s2, v in self.ev(s, n):
                    nxt.append((s2, vals + [v]))
            cur = nxt
        return cur

    def e_unknown(self, st, node):
        raise Undecided(f"expression {node.__class__.__name__}")

    def e_Constant(self, st, node):
        return [(st, node.value)]

    def e_Name(self, st, node):
        v = self.lookup(st, node.id, node)
        if v is None and not self.bound(st, node.id):
            if hasattr(builtins, node.id):
                raise Undecided(f"built-in {node.id}")
            return self.raise_(st, "NameError")
        return [(st, v)]

    def bound(self, st, name):
        """Distinguish a variable holding None from an unbound one."""
        fr = st.frames[-1]
        if name in fr:
            return True
        env = fr.get("__env__")
        while env is not None:
            fid, snap, up = env
            if any(f.get("__fid__") == fid and name in f for f in st.frames):
                return True
            if snap is not None and name in snap:
                return True
            env = up
        mod = fr["__mod__"]
        ns = st.heap.get(mod.id) or self.base.get(mod.id)
        return name in ns.data

    def e_Tuple(self, st, node):
        return [(s, tuple(v)) for s, v in self.ev_star(st, node.elts)]

    def e_List(self, st, node):
        return [(s, self.new_list(s, v)) for s, v in self.ev_star(st, node.elts)]

    def e_Set(self, st, node):
        out = []
        for s, v in self.ev_star(st, node.elts):
            out.append((s, self.lib.mk_set(s, v)))
        return out

    def ev_star(self, st, elts):
        cur = [(st, [])]
        for n in elts:
            nxt = []
            for s, vals in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(s, n.value):
                        for s3, items in self.iterate(s2, v):
                            nxt.append((s3, vals + list(items)))
                else:
                    for s2, v in self.ev(s, n):
                        nxt.append((s2, vals + [v]))
            cur = nxt
        return cur

    def e_Dict(self, st, node):
        cur = [(st, [])]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, pairs in cur:
                if k is None:
                    for s2, d in self.ev(s, v):
                        o = self.obj(s2, d)
                        nxt.append((s2, pairs + list(o.data.values())))
                else:
                    for s2, (kk, vv) in self.ev_list(s, [k, v]):
                        nxt.append((s2, pairs + [(kk, vv)]))
            cur = nxt
        return [(s, self.new_dict(s, pairs)) for s, pairs in cur]

    def e_IfExp(self, st, node):
        yes, no = self.cond(st, node.test)
        out = []
        for s in yes:
            out.extend(self.ev(s, node.body))
        for s in no:
            out.extend(self.ev(s, node.orelse))
        return self.merge_vals(out)

    def e_NamedExpr(self, st, node):
        out = []
        for s, v in self.ev(st, node.value):
            self.bind(s, node.target.id, v)
            out.append((s, v))
        return out

    def e_BoolOp(self, st, node):
        is_and = isinstance(node.op, ast.And)
        done = []
        cur = [st]
        for k, n in enumerate(node.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(s, n):
                    if k == len(node.values) - 1:
                        done.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            # the operand itself is the result
                            done.append((s3, v if not isinstance(v, (bool, Fin)) else b))
            cur = nxt
            if len(cur) > 1:
                cur = self.merge_states(cur)
        return self.merge_vals(done)

    def e_UnaryOp(self, st, node):
        out = []
        for s, v in self.ev(st, node.operand):
            if isinstance(node.op, ast.Not):
                if isinstance(v, Fin) and all(
                    isinstance(x, bool) or x is UNDEF for x in v.img
                ):
                    out.append((s, Fin(v.var, tuple(
                        x if x is UNDEF else (not x) for x in v.img))))
                    continue
                for s2, b in self.truth(s, v):
                    out.append((s2, not b))
            elif isinstance(node.op, ast.USub):
                for s2, v2 in self.as_number(s, v):
                    out.append((s2, norm_int(lin_mul(v2, -1)) if isinstance(v2, Lin) else -v2))
            elif isinstance(node.op, ast.UAdd):
                out.extend(self.as_number(s, v))
            else:
                if isinstance(v, int):
                    out.append((s, ~v))
                elif is_int(v):
                    for s2, n in self.as_number(s, v):
                        out.extend(self.binop(s2, ast.Sub(), -1, n))
                else:
                    raise Undecided("invert")
        return out

    def e_BinOp(self, st, node):
        out = []
        for s, (a, b) in self.ev_list(st, [node.left, node.right]):
            out.extend(self.binop(s, node.op, a, b))
        return out

    def as_number(self, st, v):
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.kind == "inst" and isinstance(o.cls, ClassV) and o.cls.enum == "IntEnum":
                return [(st, o.data["_value_"])]
        if isinstance(v, Fin):
            out = []
            for s, x in self.concretise(st, v):
                out.extend(self.as_number(s, x))
            return out
        return [(st, v)]

    def binop(self, st, op, a, b):
        if isinstance(a, Fin) or isinstance(b, Fin):
            out = []
            for s, x in self.concretise(st, a):
                for s2, y in self.concretise(s, b):
                    out.extend(self.binop(s2, op, x, y))
            return self.merge_vals(out)
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = []
            for s, x in self.as_number(st, a):
                for s2, y in self.as_number(s, b):
                    r.append((s2, x, y))
            if all(x is not a or y is not b for _, x, y in r):
                out = []
                for s2, x, y in r:
                    out.extend(self.binop(s2, op, x, y))
                return out
            return self.lib.ref_binop(st, op, a, b)
        name = op.__class__.__name__
        if concrete(a) and concrete(b):
            try:
                return [(st, PYOPS[name](a, b))]
            except Exception as e:  # noqa: BLE001
                return self.raise_(st, type(e).__name__)
        if is_str(a) and is_str(b):
            if name == "Add":
                return [(st, concat(a, b))]
            if name == "Mod":
                return self.lib.percent_format(st, a, (b,))
            return self.raise_(st, "TypeError")
        if isinstance(a, str) and name == "Mod":
            return self.lib.percent_format(st, a, b if isinstance(b, tuple) else (b,))
        if name == "Mult" and ((is_str(a) and is_int(b)) or (is_int(a) and is_str(b))):
            if is_int(a):
                a, b = b, a
            return self.lib.str_repeat(st, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and name == "Add":
            return [(st, a + b)]
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if is_int(a) and is_int(b):
            if name == "Add":
                return [(st, norm_int(lin_add(a, b)))]
            if name == "Sub":
                return [(st, norm_int(lin_add(a, b, -1)))]
            if name == "Mult":
                if isinstance(a, Lin) and isinstance(b, Lin):
                    return self.pw(st, "mul", lambda x, y: x * y, [a, b])
                if isinstance(a, Lin):
                    return [(st, norm_int(lin_mul(a, b)))]
                return [(st, norm_int(lin_mul(b, a)))]
            if name in ("FloorDiv", "Mod") and isinstance(b, int):
                if b == 0:
                    return self.raise_(st, "ZeroDivisionError")
                if b > 0:
                    f = lin_div if name == "FloorDiv" else lin_mod
                    return [(st, norm_int(f(st, a, b)))]
            if name == "LShift" and isinstance(b, int) and b >= 0:
                return [(st, norm_int(lin_mul(a, 1 << b)))]
            if name == "RShift" and isinstance(b, int) and b >= 0:
                return [(st, norm_int(lin_div(st, a, 1 << b)))]
            if name == "BitAnd":
                x, k = (a, b) if isinstance(b, int) else (b, a)
                if isinstance(k, int) and k >= 0 and (k & (k + 1)) == 0:
                    return [(st, norm_int(lin_mod(st, x, k + 1)))]
            if name in ("BitOr", "BitXor"):
                # disjoint bit ranges
                for p, q in ((a, b), (b, a)):
                    lo, hi = bounds(st, q)
                    if lo >= 0 and isinstance(p, Lin):
                        w = 1 << hi.bit_length()
                        r = lin_mod(st, p, w)
                        if not isinstance(r, Lin) and r == 0:
                            return [(st, norm_int(lin_add(p, q)))]
            return self.pw(st, name, PYOPS[name], [a, b])
        simple = (str, AStr, int, Lin, tuple, type(None))
        if isinstance(a, simple) and isinstance(b, simple) and not (
            name == "Mod" and is_str(a)
        ):
            return self.raise_(st, "TypeError")
        raise Undecided(f"operator {name}")

    def pw(self, st, key, fn, args):
        """Apply a pure function entry by entry when one variable decides."""
        return self.lib.pointwise(st, key, fn, args)

    def concretise(self, st, v):
        """Split a table of arbitrary values into its distinct values."""
        if not isinstance(v, Fin):
            return [(st, v)]
        groups = []
        for i in bits(st.mask(v.var)):
            x = v.img[i]
            if x is UNDEF:
                continue
            for g in groups:
                if same_value(g[0], x):
                    g[1] |= 1 << i
                    break
            else:
                groups.append([x, 1 << i])
        if len(groups) == 1:
            return [(st, groups[0][0])]
        out = []
        for x, m in groups:
            s2 = restrict_var(st, v.var, m)
            if s2 is not None:
                out.append((s2, x))
        return out

    def truth(self, st, v):
        """[(state, bool)]."""
        if v is True or v is False:
            return [(st, v)]
        if isinstance(v, Fin):
            out = {}
            m = {True: 0, False: 0}
            for i in bits(st.mask(v.var)):
                x = v.img[i]
                if x is UNDEF:
                    continue
                if x is None or isinstance(x, (bool, int, str, tuple)):
                    m[bool(x)] |= 1 << i
                elif isinstance(x, Ref):
                    return [
                        (s2, b)
                        for s, y in self.concretise(st, v)
                        for s2, b in self.truth(s, y)
                    ]
                else:
                    m[True] |= 1 << i
            res = []
            for b in (True, False):
                if m[b]:
                    s2 = st if not m[not b] else restrict_var(st, v.var, m[b])
                    if s2 is not None:
                        res.append((s2, b))
            return res
        if v is None:
            return [(st, False)]
        if isinstance(v, (int, float, str, bytes, tuple)):
            return [(st, bool(v))]
        if isinstance(v, Lin):
            return self.compare_int(st, v, "NotEq", 0)
        if isinstance(v, AStr):
            if any(isinstance(s, Opq) for s in v.segs):
                return [(s, not b) for s, b in eq_str(st, v, "")]
            return self.compare_int(st, str_len(st, v), "NotEq", 0)
        if isinstance(v, RangeV):
            return [(st, len(v.r) > 0)]
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if o.cls is GEN:
                return [(st, True)]
            if o.kind == "list":
                return [
                    (s2, b)
                    for s, n in self.lib.list_len(st, v)
                    for s2, b in self.truth(s, n)
                ]
            if o.kind in ("dict", "set"):
                return [(st, bool(o.data))]
            if o.kind == "bag":
                return self.truth(st, o.data) if is_str(o.data) else [(st, bool(o.data))]
            if o.kind == "inst":
                if isinstance(o.cls, ClassV):
                    if o.cls.enum == "IntEnum":
                        return [(st, bool(o.data["_value_"]))]
                    for nm in ("__bool__", "__len__"):
                        f = self.class_attr(st, o.cls, nm)
                        if f is not None:
                            return [
                                (s3, b)
                                for s2, r in self.call(st, Bound(f, v), [], {})
                                for s3, b in self.truth(s2, r)
                            ]
                return [(st, True)]
        return [(st, True)]

    # -- comparison -----------------------------------------------------------
    def e_Compare(self, st, node):
        if len(node.ops) == 1:
            out = []
            for s, (a, b) in self.ev_list(st, [node.left, node.comparators[0]]):
                out.extend(self.compare(s, node.ops[0], a, b))
            return self.merge_vals(out) if len(out) > 2 else out
        done = []
        cur = self.ev(st, node.left)
        n = len(node.ops)
        for k, (op, right) in enumerate(zip(node.ops, node.comparators)):
            nxt = []
            for s, a in cur:
                for s2, b in self.ev(s, right):
                    for s3, r in self.compare(s2, op, a, b):
                        if k == n - 1:
                            done.append((s3, r))
                            continue
                        for s4, t in self.truth(s3, r):
                            if t:
                                nxt.append((s4, b))
                            else:
                                done.append((s4, False))
            cur = nxt
        return self.merge_vals(done)

    def compare(self, st, op, a, b):
        name = op.__class__.__name__
        if name in ("Is", "IsNot"):
            return self.compare_is(st, a, b, name == "IsNot")
        if name in ("In", "NotIn"):
            out = []
            for s, r in self.lib.contains(st, b, a):
                if name == "NotIn":
                    if isinstance(r, bool):
                        out.append((s, not r))
                    else:
                        out.append((s, Fin(r.var, tuple(
                            x if x is UNDEF else (not x) for x in r.img))))
                else:
                    out.append((s, r))
            return out
        if name in ("Eq", "NotEq"):
            out = []
            for s, r in self.equal(st, a, b):
                out.append((s, (not r) if name == "NotEq" else r))
            return out
        # ordering
        if isinstance(a, (Fin, Ref)) or isinstance(b, (Fin, Ref)):
            out = []
            for s, x in self.concretise(st, a):
                for s2, x2 in self.as_number(s, x):
                    for s3, y in self.concretise(s2, b):
                        for s4, y2 in self.as_number(s3, y):
                            if isinstance(x2, Ref) or isinstance(y2, Ref):
                                out.extend(self.lib.ref_compare(s4, name, x2, y2))
                            else:
                                out.extend(self.compare(s4, op, x2, y2))
            return out
        if concrete(a) and concrete(b):
            try:
                return [(st, PYOPS[name](a, b))]
            except TypeError:
                return self.raise_(st, "TypeError")
        if is_int(a) and is_int(b) or (
            isinstance(a, (Lin, int)) and isinstance(b, (Lin, int))
        ):
            return self.compare_int(st, a, name, b)
        if isinstance(a, Lin) and isinstance(b, float) or (
            isinstance(a, float) and isinstance(b, Lin)
        ):
            import math

            if isinstance(a, float):
                flip = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
                a, b, name = b, a, flip[name]
            if b == math.inf or b == -math.inf:
                raise Undecided("infinite bound")
            # exact for integers
            if name in ("Lt", "GtE"):
                return self.compare_int(st, a, name, math.ceil(b))
            return self.compare_int(st, a, name, math.floor(b))
        if is_str(a) and is_str(b):
            fa, fb = fuse(st, a), fuse(st, b)
            return self.pw(st, name, PYOPS[name], [a, b])
        if (is_str(a) and is_int(b)) or (is_int(a) and is_str(b)) or a is None or b is None:
            return self.raise_(st, "TypeError")
        raise Undecided("ordering comparison")

    def compare_int(self, st, a, name, b):
        d = lin_add(a, b, -1)
        if name in ("Eq", "NotEq"):
            lo, hi = bounds(st, d)
            eqv = name == "Eq"
            if lo == hi == 0:
                return [(st, eqv)]
            if lo > 0 or hi < 0:
                return [(st, not eqv)]
            r = lin_eq(st, a, b)
            if r is not None:
                return [(st, eqv if r else not eqv)]
            out = []
            s = assume_range(st, d, 0, 0)
            if s is not None:
                out.append((s, eqv))
            if len(d.t) == 1 and not d.a:
                v, tab = d.t[0]
                m = 0
                for i in bits(st.mask(v)):
                    if tab[i] is not UNDEF and tab[i] + d.c != 0:
                        m |= 1 << i
                s = restrict_var(st, v, m) if m else None
                if s is not None:
                    out.append((s, not eqv))
                return out
            s = assume_range(st, d, None, -1)
            if s is not None:
                out.append((s, not eqv))
            s = assume_range(st, d, 1, None)
            if s is not None:
                out.append((s, not eqv))
            return out
        # d <op> 0
        if name == "Lt":
            t, f = (None, -1), (0, None)
        elif name == "LtE":
            t, f = (None, 0), (1, None)
        elif name == "Gt":
            t, f = (1, None), (None, 0)
        else:
            t, f = (0, None), (None, -1)
        # express as bound on the variable part to share constraints
        c = d.c
        l = Lin(0, d.t, d.a)
        out = []
        for (lo, hi), val in ((t, True), (f, False)):
            s = assume_range(
                st, l, None if lo is None else lo - c, None if hi is None else hi - c
            )
            if s is not None:
                out.append((s, val))
        return out

    def compare_is(self, st, a, b, neg):
        if isinstance(a, Fin) or isinstance(b, Fin):
            out = []
            for s, x in self.concretise(st, a):
                for s2, y in self.concretise(s, b):
                    out.extend(self.compare_is(s2, x, y, neg))
            return out
        if a is None or b is None:
            r = a is None and b is None
        elif a is ... or b is ...:
            r = a is b
        elif isinstance(a, bool) or isinstance(b, bool):
            r = a is b
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a == b
        elif isinstance(a, (ClassV, Builtin)) or isinstance(b, (ClassV, Builtin)):
            r = a is b
        elif type(a) is not type(b) and not (is_str(a) and is_str(b)):
            r = False
        else:
            raise Undecided("identity of values")
        return [(st, (not r) if neg else r)]

    def equal(self, st, a, b):
        """[(state, bool)]."""
        if isinstance(a, Fin) or isinstance(b, Fin):
            out = []
            for s, x in self.concretise(st, a):
                for s2, y in self.concretise(s, b):
                    out.extend(self.equal(s2, x, y))
            return out
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            o = self.obj(st, a)
            if o.kind != "inst" or (isinstance(o.cls, ClassV) and o.cls.enum):
                return [(st, True)]
        if concrete(a) and concrete(b):
            return [(st, a == b)]
        if is_str(a) and is_str(b):
            fa, fb = fuse(st, a), fuse(st, b)
            return eq_str(st, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            for x, y in ((a, b), (b, a)):
                if not isinstance(x, Ref):
                    continue
                o = self.obj(st, x)
                if o.kind == "inst" and isinstance(o.cls, ClassV):
                    if o.cls.enum in ("IntEnum", "StrEnum"):
                        v = o.data["_value_"]
                        if isinstance(y, Ref):
                            oy = self.obj(st, y)
                            if oy.kind == "inst" and isinstance(oy.cls, ClassV) and \
                                    oy.cls.enum in ("IntEnum", "StrEnum"):
                                return self.equal(st, v, oy.data["_value_"])
                            return [(st, False)]
                        return self.equal(st, v, y)
                    if o.cls.enum:
                        return [(st, isinstance(y, Ref) and x == y)]
                    f = self.class_attr(st, o.cls, "__eq__")
                    if f is not None:
                        out = []
                        for s, r in self.call(st, Bound(f, x), [y], {}):
                            if r is Builtin("NotImplemented"):
                                out.append((s, isinstance(y, Ref) and x == y))
                            else:
                                out.extend(self.truth(s, r))
                        return out
                    if isinstance(y, Ref) and x is a:
                        continue
                    return [(st, isinstance(y, Ref) and x == y)]
            if isinstance(a, Ref) and isinstance(b, Ref):
                return self.lib.equal_containers(st, a, b)
            return [(st, False)]
        if isinstance(a, (bool, int, Lin)) and isinstance(b, (bool, int, Lin)):
            return self.compare_int(st, a, "Eq", b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return [(st, False)]
            cur = [st]
            out = []
            for x, y in zip(a, b):
                nxt = []
                for s in cur:
                    for s2, r in self.equal(s, x, y):
                        (nxt.append(s2) if r else out.append((s2, False)))
                cur = nxt
            return out + [(s, True) for s in cur]
        if isinstance(a, Lin) and isinstance(b, float) or isinstance(b, Lin) and isinstance(a, float):
            f = a if isinstance(a, float) else b
            l = b if isinstance(a, float) else a
            if f != int(f):
                return [(st, False)]
            return self.compare_int(st, l, "Eq", int(f))
        if isinstance(a, BytesV) and isinstance(b, BytesV):
            return eq_str(st, a.hex, b.hex)
        if type(a) is not type(b):
            if isinstance(a, (AStr, str, Lin, int, type(None), tuple, BytesV)) or isinstance(
                b, (AStr, str, Lin, int, type(None), tuple, BytesV)
            ):
                return [(st, False)]
        return [(st, same_value(a, b))]

    # -- strings -------------------------------------------------------------
    def e_JoinedStr(self, st, node):
        cur = [(st, ())]
        for part in node.values:
            nxt = []
            for s, segs in cur:
                if isinstance(part, ast.Constant):
                    nxt.append((s, segs + segs_of(part.value)))
                    continue
                for s2, v in self.ev(s, part.value):
                    if part.conversion == ord("r"):
                        vals = self.lib.repr_(s2, v)
                    elif part.conversion == ord("s"):
                        vals = self.lib.to_str(s2, v)
                    else:
                        vals = [(s2, v)]
                    for s3, v3 in vals:
                        specs = [(s3, "")]
                        if part.format_spec is not None:
                            specs = self.ev(s3, part.format_spec)
                        for s4, spec in specs:
                            for s5, t in self.lib.format_(s4, v3, spec):
                                nxt.append((s5, segs + segs_of(t)))
            cur = nxt
        return [(s, mk_str(segs)) for s, segs in cur]

    # -- comprehension ---------------------------------------------------------
    def e_ListComp(self, st, node):
        return self.comp(st, node.generators, node.elt, lambda s, items: self.new_list(s, items))

    def e_GeneratorExp(self, st, node):
        return self.comp(st, node.generators, node.elt, lambda s, items: self.new_gen(s, items))

    def e_SetComp(self, st, node):
        return self.comp(
            st, node.generators, node.elt,
            lambda s, items: self.lib.mk_set(s, items),
        )

    def e_DictComp(self, st, node):
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        ast.copy_location(pair, node)
        return self.comp(st, node.generators, pair, lambda s, items: self.new_dict(s, items))

    def comp(self, st, gens, elt, build):
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        out = []
        mod_level = st.frames[-1]["__fid__"] == -1
        # comprehensions own a scope whose parent is the current frame
        fid = fresh_id()
        cur = st.frames[-1]
        fr = {k: v for k, v in cur.items() if k.startswith("__")}
        if mod_level:
            fr = dict(cur)
            fr["__fid__"] = fid
            fr["__compmod__"] = True
            st.frames = st.frames + (fr,)
            saved = None
        else:
            saved = {n: cur[n] for n in names if n in cur}
        for s, items in self._comp(st, gens, 0, elt):
            if mod_level:
                s.frames = s.frames[:-1]
            else:
                f = s.frames[-1]
                for n in names:
                    f.pop(n, None)
                f.update(saved)
            out.append((s, build(s, items)))
        return out

    def _comp(self, st, gens, k, elt):
        """list of (state, items tuple or DagL)."""
        if k == len(gens):
            return [(s, (v,)) for s, v in self.ev(st, elt)]
        g = gens[k]
        res = []
        for s0, it in self.ev(st, g.iter):
            gen = isinstance(it, Ref) and self.obj(s0, it).cls is GEN
            for s1, dag in self.lib.iter_graph(s0, it):
                if gen:
                    self.put(s1, it.id, HObj("list", GEN, PARTLY), "iter")
                if len(dag.order) > 1 and k == len(gens) - 1:
                    r = self._comp_dag(s1, g, elt, dag)
                    if r is not None:
                        res.append(r)
                        continue
                if len(dag.order) > 1:
                    raise Undecided("nested comprehension over variable length")
                cur = [(s1, ())]
                for guard, values, _ in dag.edges[dag.start]:
                    for v in values:
                        nxt = []
                        for s, items in cur:
                            for s2 in self.assign(s, g.target, v):
                                for s3 in self.filters(s2, g.ifs):
                                    s3, keep = s3
                                    if not keep:
                                        nxt.append((s3, items))
                                        continue
                                    for s4, more in self._comp(s3, gens, k + 1, elt):
                                        nxt.append((s4, items + more))
                        cur = self.merge_vals(nxt) if len(nxt) > 1 else nxt
                res.extend(cur)
        return res

    def filters(self, st, ifs):
        cur = [(st, True)]
        for c in ifs:
            nxt = []
            for s, keep in cur:
                if not keep:
                    nxt.append((s, False))
                    continue
                y, n = self.cond(s, c)
                nxt.extend((q, True) for q in y)
                nxt.extend((q, False) for q in n)
            cur = nxt
        return cur

    def _comp_dag(self, st, g, elt, dag):
        """Map a comprehension over a list of variable length."""
        edges = {}
        for node in dag.order:
            new = []
            for guard, values, nxt in dag.edges[node]:
                s = st.clone()
                for v, m in guard.items():
                    s = restrict_var(s, v, m)
                    if s is None:
                        break
                if s is None:
                    continue
                cur = [(s, ())]
                for v in values:
                    n2 = []
                    for s1, items in cur:
                        for s2 in self.assign(s1, g.target, v):
                            for s3, keep in self.filters(s2, g.ifs):
                                if not keep:
                                    n2.append((s3, items))
                                    continue
                                for s4, x in self.ev(s3, elt):
                                    n2.append((s4, items + (x,)))
                    cur = self.merge_vals(n2) if len(n2) > 1 else n2
                for s1, items in cur:
                    if s1.cons != st.cons or set(s1.heap) - set(st.heap) and any(
                        isinstance(x, Ref) for x in items
                    ):
                        raise Undecided("comprehension element with effects")
                    gd = {v: m for v, m in s1.dom.items() if st.mask(v) != m}
                    new.append((gd, items, nxt))
            edges[node] = new
        return (st, DagL(dag.start, edges, dag.order))

    # -- attribute, subscript, call -------------------------------------------
    def e_Attribute(self, st, node):
        out = []
        for s, o in self.ev(st, node.value):
            out.extend(self.getattr(s, o, node.attr))
        return out

    def class_attr(self, st, cls, name):
        for c in cls.mro:
            ns = st.heap.get(c.id) or self.base.get(c.id)
            if ns is not None and name in ns.data:
                v = ns.data[name]
                if v.__class__ is UnknownV:
                    raise Undecided(v.why)
                return v
        return None

    def class_has(self, st, cls, name):
        for c in cls.mro:
            ns = st.heap.get(c.id) or self.base.get(c.id)
            if ns is not None and name in ns.data:
                return True
        return False

    def getattr(self, st, o, name):
        if isinstance(o, Fin):
            if all(x is UNDEF or isinstance(x, (Ref,)) for x in o.img):
                r = []
                ok = True
                mask = st.mask(o.var)
                for i, x in enumerate(o.img):
                    if x is UNDEF:
                        r.append(UNDEF)
                        continue
                    try:
                        got = self.getattr(st, x, name)
                    except Undecided:
                        if mask >> i & 1:
                            raise
                        got = []
                    if len(got) != 1 or got[0][0] is not st:
                        ok = False
                        break
                    r.append(got[0][1])
                if ok:
                    return [(st, self.lib.build_table(st, o.var, r))]
            out = []
            for s, x in self.concretise(st, o):
                out.extend(self.getattr(s, x, name))
            return out
        if isinstance(o, (ModuleV, StdMod)):
            v = self.module_attr(st, o, name)
            if v is None:
                return self.raise_(st, "AttributeError")
            if isinstance(v, Builtin):
                v = self.lib.std_value(v)
            return [(st, v)]
        if isinstance(o, ClassV):
            return self.class_getattr(st, o, name)
        if isinstance(o, NTup):
            fields = self.class_attr(st, o.kind, "_fields")
            if name in fields:
                return [(st, o[fields.index(name)])]
            if name == "__class__":
                return [(st, o.kind)]
            v = self.class_attr(st, o.kind, name)
            if isinstance(v, Wrapped) and v.kind == "property":
                return self.call(st, Bound(v.fn, o), [], {})
            if v is not None:
                return [(st, self.bind_attr(v, o, o.kind))]
            return [(st, BMethod(o, name))]
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if ob.kind == "inst":
                if isinstance(ob.cls, Builtin):
                    return [(st, BMethod(o, name))]
                return self.inst_getattr(st, o, ob, name)
            return [(st, BMethod(o, name))]
        if isinstance(o, SuperV):
            return self.super_getattr(st, o, name)
        if isinstance(o, ExcV):
            if name in ("args",):
                raise Undecided("exception arguments")
            if name == "__class__":
                return [(st, o.cls)]
            return [(st, AStr((Opq("message"),)))]
        if isinstance(o, FuncV):
            if name == "__name__":
                return [(st, o.name)]
            if name == "__doc__":
                return [(st, None)]
            raise Undecided(f"function attribute {name}")
        if isinstance(o, Wrapped):
            return [(st, BMethod(o, name))]
        if isinstance(o, PatternV) and name in ("pattern", "flags"):
            return [(st, o.pattern if name == "pattern" else o.flags)]
        if name == "__class__":
            return [(st, self.lib.type_of(st, o))]
        if isinstance(o, Builtin):
            return [(st, Builtin(o.name + "." + name))]
        if self.lib.has_method(o, name):
            return [(st, BMethod(o, name))]
        if o is None or isinstance(o, bool) or is_str(o) or is_int(o):
            return self.raise_(st, "AttributeError")
        raise Undecided(f"attribute {name} of {type(o).__name__}")

    def class_getattr(self, st, cls, name):
        if name == "__name__" or name == "__qualname__":
            return [(st, cls.name)]
        if name == "__members__" and cls.enum:
            mem = self.class_attr(st, cls, "__members__")
            return [(st, self.new_dict(st, [(self.obj(st, m).data["_name_"], m) for m in mem]))]
        if name == "__mro__":
            return [(st, cls.mro)]
        if name == "__dict__":
            raise Undecided("class dictionary")
        if not self.class_has(st, cls, name):
            if name.startswith("__") or name == "mro":
                raise Undecided(f"class attribute {name}")
            return self.raise_(st, "AttributeError")
        v = self.class_attr(st, cls, name)
        if isinstance(v, Wrapped):
            if v.kind == "classmethod":
                return [(st, Bound(v.fn, cls))]
            if v.kind == "staticmethod":
                return [(st, v.fn)]
        get = self.getter(st, v)
        if get is not None:
            return self.call(st, Bound(get, v), [None, cls], {})
        return [(st, v)]

    def inst_getattr(self, st, ref, ob, name):
        cls = ob.cls
        v = self.class_attr(st, cls, name)
        if isinstance(v, Wrapped) and v.kind == "property":
            return self.call(st, Bound(v.fn, ref), [], {})
        if name in ob.data:
            return [(st, ob.data[name])]
        get = self.getter(st, v)
        if get is not None:
            return self.call(st, Bound(get, v), [ref, cls], {})
        if isinstance(v, Wrapped) and v.kind == "cached_property":
            out = []
            for s, x in self.call(st, Bound(v.fn, ref), [], {}):
                ob = self.obj(s, ref)
                self.put(s, ref.id, HObj("inst", ob.cls, {**ob.data, name: x}), name)
                out.append((s, x))
            return out
        if cls.enum:
            if name in ("name", "_name_"):
                return [(st, ob.data["_name_"])]
            if name in ("value", "_value_"):
                return [(st, ob.data["_value_"])]
        if name == "__class__":
            return [(st, cls)]
        if name == "__dict__":
            raise Undecided("instance dictionary")
        if v is None and not self.class_has(st, cls, name):
            ga = self.class_attr(st, cls, "__getattr__")
            if ga is not None:
                return self.call(st, Bound(ga, ref), [name], {})
            if cls.enum in ("IntEnum", "StrEnum"):
                return self.getattr(st, ob.data["_value_"], name)
            if name.startswith("__") and name.endswith("__"):
                raise Undecided(f"attribute {name}")
            return self.raise_(st, "AttributeError")
        return [(st, self.bind_attr(v, ref, cls))]

    def getter(self, st, v):
        """The __get__ of a descriptor, or None."""
        if not isinstance(v, Ref):
            return None
        o = self.obj(st, v)
        if o.kind != "inst" or not isinstance(o.cls, ClassV):
            return None
        if self.class_attr(st, o.cls, "__set__") or self.class_attr(st, o.cls, "__set_name__"):
            raise Undecided("descriptor")
        return self.class_attr(st, o.cls, "__get__")

    def bind_attr(self, v, ref, cls):
        if isinstance(v, FuncV):
            return Bound(v, ref)
        if isinstance(v, Wrapped):
            if v.kind == "classmethod":
                return Bound(v.fn, cls)
            if v.kind == "staticmethod":
                return v.fn
            if v.kind in ("cache", "contextmanager"):
                return Bound(v, ref)
        return v

    def super_getattr(self, st, sup, name):
        obj = sup.obj
        cls = obj if isinstance(obj, ClassV) else self.obj(st, obj).cls
        mro = cls.mro
        k = mro.index(sup.cls)
        for c in mro[k + 1 :]:
            ns = st.heap.get(c.id) or self.base.get(c.id)
            if ns is not None and name in ns.data:
                v = ns.data[name]
                if isinstance(v, Wrapped) and v.kind == "property":
                    return self.call(st, Bound(v.fn, obj), [], {})
                if isinstance(v, Wrapped) and v.kind == "classmethod":
                    return [(st, Bound(v.fn, cls))]
                if isinstance(v, Wrapped) and v.kind == "staticmethod":
                    return [(st, v.fn)]
                if isinstance(v, FuncV) and (
                        not isinstance(obj, ClassV) or name == "__init_subclass__"):
                    return [(st, Bound(v, obj))]
                return [(st, v)]
        if name in ("__init__", "__init_subclass__", "__setattr__"):
            return [(st, Builtin("object." + name))]
        if name.startswith("__"):
            raise Undecided(f"super().{name}")
        return self.raise_(st, "AttributeError")

    def setattr(self, st, o, name, v):
        if isinstance(o, ClassV):
            ns = st.heap.get(o.id) or self.base.get(o.id)
            self.put(st, o.id, HObj("ns", None, {**ns.data, name: v}), name)
            return
        if isinstance(o, ModuleV):
            ns = st.heap.get(o.id) or self.base.get(o.id)
            self.put(st, o.id, HObj("ns", None, {**ns.data, name: v}), name)
            return
        if isinstance(o, Ref):
            ob = self.obj(st, o)
            if ob.kind == "inst":
                if isinstance(ob.cls, ClassV):
                    if self.class_attr(st, ob.cls, "__setattr__") is not None:
                        raise Undecided("custom attribute assignment")
                    p = self.class_attr(st, ob.cls, name)
                    if isinstance(p, Wrapped) and p.kind == "property":
                        if p.cache is None:
                            raise Undecided("assignment to a property")
                        r = self.call(st, Bound(p.cache, o), [v], {})
                        if len(r) != 1 or r[0][0] is not st:
                            raise Undecided("property assignment")
                        return
                    if any(c.frozen for c in ob.cls.mro) and st.frames[-1].get(
                            "__fn__") is not getattr(self.class_attr(
                                st, ob.cls, "__init__"), "node", 0):
                        raise Undecided("assignment to a frozen object")
                self.put(st, o.id, HObj("inst", ob.cls, {**ob.data, name: v}), name)
                return
        raise Undecided("attribute assignment")

    def e_Subscript(self, st, node):
        out = []
        if isinstance(node.slice, ast.Slice):
            sl = node.slice
            none = ast.Constant(value=None)
            parts = [node.value] + [x if x is not None else none
                                    for x in (sl.lower, sl.upper, sl.step)]
            for s, (o, a, b, c) in self.ev_list(st, parts):
                out.extend(self.lib.getslice(s, o, a, b, c))
            return out
        for s, (o, k) in self.ev_list(st, [node.value, node.slice]):
            out.extend(self.lib.getitem(s, o, k))
        return out

    def e_Lambda(self, st, node):
        return self.make_func(st, node, node.args, "<lambda>")

    def e_Starred(self, st, node):
        raise Undecided("star expression")

    def e_Call(self, st, node):
        # short circuiting consumers of generator expressions
        if (
            isinstance(node.func, ast.Name)
            and node.func.id in ("any", "all", "next")
            and node.args
            and isinstance(node.args[0], ast.GeneratorExp)
            and isinstance(self.lookup(st, node.func.id), Builtin)
        ):
            return self.short_circuit(st, node)
        if (isinstance(node.func, ast.Name) and node.func.id == "super" and len(node.args) == 2
                and isinstance(self.lookup(st, "super"), Builtin)):
            return [(s2, SuperV(c, o)) for s1, c in self.ev(st, node.args[0])
                    for s2, o in self.ev(s1, node.args[1])]
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            fr = st.frames[-1]
            fn = fr.get("__func__")
            if fn is None or fn.owner is None:
                raise Undecided("super outside a method")
            first = fn.node.args.args[0].arg
            return [(st, SuperV(fn.owner, fr[first]))]
        out = []
        for s, f in self.ev(st, node.func):
            cur = [(s, [], {})]
            for a in node.args:
                nxt = []
                for s1, args, kw in cur:
                    if isinstance(a, ast.Starred):
                        for s2, v in self.ev(s1, a.value):
                            for s3, items in self.iterate(s2, v):
                                nxt.append((s3, args + list(items), kw))
                    else:
                        for s2, v in self.ev(s1, a):
                            nxt.append((s2, args + [v], kw))
                cur = nxt
            for k in node.keywords:
                nxt = []
                for s1, args, kw in cur:
                    for s2, v in self.ev(s1, k.value):
                        if k.arg is None:
                            d = self.obj(s2, v)
                            nxt.append((s2, args, {**kw, **{kk: vv for kk, vv in d.data.values()}}))
                        else:
                            nxt.append((s2, args, {**kw, k.arg: v}))
                cur = nxt
            mod = st.frames[-1]["__mod__"]
            for s1, args, kw in cur:
                self.where = (mod.path, node.lineno)
                out.extend(self.call(s1, f, args, kw))
                self.where = (mod.path, node.lineno)
        return out

    def short_circuit(self, st, node):
        name = node.func.id
        ge = node.args[0]
        if len(ge.generators) != 1:
            gens = None
        g = ge.generators[0]
        if len(ge.generators) != 1:
            raise Undecided("nested generator in " + name)
        default = []
        if name == "next" and len(node.args) == 2:
            default = [node.args[1]]
        out = []
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.frames[-1][n] for n in names if n in st.frames[-1]}
        for s0, it in self.ev(st, g.iter):
            gen = isinstance(it, Ref) and self.obj(s0, it).cls is GEN
            for s1, dag in self.lib.iter_graph(s0, it):
                if gen:
                    self.put(s1, it.id, HObj("list", GEN, PARTLY), "iter")
                at = {dag.start: [s1]}
                rest = []
                for nd in dag.order:
                    sts = at.pop(nd, [])
                    if len(sts) > 1:
                        sts = self.merge_states(sts)
                    for guard, values, nxt in dag.edges[nd]:
                        cur = []
                        for s in sts:
                            s2 = s.clone()
                            for v, m in guard.items():
                                s2 = restrict_var(s2, v, m)
                                if s2 is None:
                                    break
                            if s2 is not None:
                                cur.append(s2)
                        for v in values:
                            n2 = []
                            for s in cur:
                                for s2 in self.assign(s, g.target, v):
                                    for s3, keep in self.filters(s2, g.ifs):
                                        if not keep:
                                            n2.append(s3)
                                            continue
                                        for s4, x in self.ev(s3, ge.elt):
                                            if name == "next":
                                                out.append((s4, x))
                                                continue
                                            for s5, b in self.truth(s4, x):
                                                if b == (name == "any"):
                                                    out.append((s5, b))
                                                else:
                                                    n2.append(s5)
                            cur = self.merge_states(n2) if len(n2) > 1 else n2
                        if nxt is None:
                            rest.extend(cur)
                        else:
                            at.setdefault(nxt, []).extend(cur)
                for s in rest:
                    if name == "any":
                        out.append((s, False))
                    elif name == "all":
                        out.append((s, True))
                    elif default:
                        out.extend(self.ev(s, default[0]))
                    else:
                        self.raise_(s, "StopIteration")
        for s, _ in out:
            f = s.frames[-1]
            if f["__fid__"] != -1:
                for n in names:
                    f.pop(n, None)
                f.update(saved)
        return self.merge_vals(out)

    def iterate(self, st, v):
        """[(state, items)] for values of known length; forks otherwise."""
        out = []
        for s, dag in self.lib.iter_graph(st, v):
            out.extend(self.paths(s, dag, len(out)))
        return out

    def paths(self, st, dag, used=0):
        out = []
        todo = [(st, dag.start, ())]
        while todo:
            s1, node, items = todo.pop()
            if node is None:
                out.append((s1, items))
                continue
            es = dag.edges[node]
            for guard, values, nxt in es:
                s2 = s1.clone() if (guard or len(es) > 1) else s1
                for var, m in guard.items():
                    s2 = restrict_var(s2, var, m)
                    if s2 is None:
                        break
                if s2 is not None:
                    todo.append((s2, nxt, items + tuple(values)))
            if len(todo) + len(out) + used > STATE_CAP:
                raise Undecided("list of too many shapes")
        return out

    def call(self, st, f, args, kw):
        if isinstance(f, Bound):
            return self.call(st, f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(st, f, list(args), kw)
        if isinstance(f, Builtin):
            return self.lib.call(st, f.name, list(args), kw)
        if isinstance(f, BMethod):
            return self.lib.method(st, f.obj, f.name, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(st, f, list(args), kw)
        if isinstance(f, Wrapped):
            if f.kind == "cache":
                return self.call_cached(st, f, list(args), kw)
            if f.kind in ("staticmethod", "classmethod"):
                return self.call(st, f.fn, args, kw)
            if f.kind == "wraps":
                g = args[0]
                if isinstance(g, FuncV) and isinstance(f.fn, FuncV):
                    g = copy.copy(g)
                    g.name = f.fn.name
                return [(st, g)]
            if f.kind == "contextmanager":
                return [(st, Wrapped("context", (f.fn, tuple(args), dict(kw))))]
            if f.kind == "attrgetter":
                out = [(st, ())]
                for n in f.fn:
                    out = [(s2, got + (x,)) for s, got in out
                           for s2, x in self.getattr(s, args[0], n)]
                return [(s, got[0] if len(got) == 1 else got) for s, got in out]
            if f.kind == "partial":
                fn, a0, k0 = f.fn
                return self.call(st, fn, list(a0) + list(args), {**k0, **kw})
        if isinstance(f, Fin):
            out = []
            for s, g in self.concretise(st, f):
                out.extend(self.call(s, g, args, kw))
            return self.merge_vals(out)
        if isinstance(f, Ref):
            o = self.obj(st, f)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                c = self.class_attr(st, o.cls, "__call__")
                if c is not None:
                    return self.call(st, Bound(c, f), args, kw)
        if f is None or isinstance(f, (int, str, AStr, Lin, tuple)):
            return self.raise_(st, "TypeError")
        raise Undecided(f"call of {type(f).__name__}")

    def call_cached(self, st, f, args, kw):
        """functools caching: a table in the heap keyed by the arguments."""
        ref = f.cache
        o = self.obj(st, ref)
        key = tuple(args) + tuple(sorted(kw.items()))
        out = []
        miss = [st]
        for hk, (k, v) in o.data.items():
            nxt = []
            for s in miss:
                for s2, r in self.equal(s, k, key) if len(k) == len(key) else [(s, False)]:
                    (out.append((s2, v)) if r else nxt.append(s2))
            miss = nxt
        for s in miss:
            for s2, v in self.call(s, f.fn, args, kw):
                o2 = self.obj(s2, ref)
                self.put(s2, ref.id, HObj("dict", None, {**o2.data, key: (key, v)}), "cache")
                out.append((s2, v))
        return self.merge_vals(out)

    def instantiate(self, st, cls, args, kw):
        if cls.enum:
            # lookup by value
            mem = self.class_attr(st, cls, "__members__") or ()
            out = []
            cur = [st]
            for m in mem:
                nxt = []
                for s in cur:
                    mv = self.obj(s, m).data["_value_"]
                    if isinstance(args[0], Ref) and args[0] == m:
                        out.append((s, m))
                        continue
                    for s2, r in self.equal(s, mv, args[0]):
                        (out.append((s2, m)) if r else nxt.append(s2))
                cur = nxt
            other = self.class_attr(st, cls, "_missing_")
            for s in cur:
                if other is None:
                    self.raise_(s, "ValueError")
                    continue
                for s2, v in self.call(s, Bound(
                        other.fn if isinstance(other, Wrapped) else other, cls), [args[0]], {}):
                    if v is None:
                        self.raise_(s2, "ValueError")
                    elif v in mem:
                        out.append((s2, v))
                    else:
                        raise Undecided("enum member")
            return self.merge_vals(out)
        if cls.exc:
            return [(st, ExcV(cls, self.where))]
        if cls.named:
            fields = self.class_attr(st, cls, "_fields")
            vals = dict(self.class_attr(st, cls, "__ntdefaults__"))
            vals.update(zip(fields, args))
            if len(args) > len(fields) or any(k not in fields or k in fields[: len(args)]
                                              for k in kw):
                return self.raise_(st, "TypeError")
            vals.update(kw)
            if any(f not in vals for f in fields):
                return self.raise_(st, "TypeError")
            return [(st, NTup(cls, [vals[f] for f in fields]))]
        new = self.class_attr(st, cls, "__new__")
        if new is not None:
            raise Undecided("custom allocation")
        ref = self.alloc(st, HObj("inst", cls, {}))
        init = self.class_attr(st, cls, "__init__")
        if init is None:
            if args or kw:
                return self.raise_(st, "TypeError")
            return [(st, ref)]
        return [(s, ref) for s, _ in self.call(st, Bound(init, ref), args, kw)]

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        fr = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            return None
        for n, v in zip(names, args):
            fr[n] = v
        if a.vararg is not None:
            fr[a.vararg.arg] = tuple(args[len(names):])
        for n in names[len(args):]:
            if n in kw:
                fr[n] = kw.pop(n)
        for n in names[: len(args)]:
            if n in kw:
                return None
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in fr:
                fr[n] = d
        for n in names:
            if n not in fr:
                return None
        for x in a.kwonlyargs:
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                fr[x.arg] = f.kwdefaults[x.arg]
            else:
                return None
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.new_dict(st, list(kw.items()))
        elif kw:
            return None
        return fr

    def call_func(self, st, f, args, kw):
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Undecided("recursion depth")
        try:
            fr = self.bind_args(st, f, args, kw)
            if fr is None:
                return self.raise_(st, "TypeError")
            mkey = None
            if self.memo_on:
                mkey = self.memo_key(st, f, fr)
                if mkey is not None:
                    got = self.memo.get(mkey)
                    if got is not None:
                        return self.memo_apply(st, got)
            self.functions.add((f.module.path, f.name, f.node.lineno))
            here = self.where
            fr["__mod__"] = f.module
            fr["__fid__"] = fresh_id()
            fr["__cls__"] = None
            fr["__fn__"] = f.node
            fr["__func__"] = f
            if f.env is not None:
                fr["__env__"] = f.env["__env__"]
            depth = len(st.frames)
            if mkey is not None:
                st0 = st
                st = st.clone()
                self.collect.append([])
            st.frames = st.frames + (fr,)
            if isinstance(f.node, ast.Lambda):
                rets = self.ev(st, f.node.body)
            else:
                if is_generator(f.node):
                    fr["__yield__"] = ()
                fl = self.block([st], f.node.body)
                if fl.brk or fl.cont:
                    raise Undecided("control flow")
                rets = fl.ret + [(s, None) for s in fl.norm]
                if "__yield__" in fr:
                    r2 = []
                    for s, _ in rets:
                        r2.append((s, self.new_gen(s, s.frames[-1]["__yield__"])))
                    rets = r2
            out = []
            for s, v in rets:
                s.frames = s.frames[:depth]
                out.append((s, v))
            self.where = here
            out = self.merge_vals(out)
            if mkey is not None:
                raised = self.collect.pop()
                self.memo_store(st0, mkey, out, raised, depth)
                self.collect[-1].extend(raised)
            return out
        finally:
            self.depth -= 1

    # -- summaries of pure calls -------------------------------------------
    def memo_key(self, st, f, fr):
        if f.env is not None or st.cons:
            return None
        vals = []
        vs = set()
        for k, v in fr.items():
            if not self.memoable(st, v, vs):
                return None
            vals.append((k, type(v).__name__, v))
        try:
            doms = tuple(sorted((v.id, st.mask(v)) for v in vs))
            key = (f.node, tuple(vals), doms)
            hash(key)
        except TypeError:
            return None
        return key

    def memoable(self, st, v, vs):
        if v is None or isinstance(v, (bool, int, float, str, bytes, ClassV, Builtin, PatternV)):
            return True
        if isinstance(v, AStr):
            for s in v.segs:
                if isinstance(s, Tab):
                    if isinstance(s.var, DVar):
                        return False
                    vs.add(s.var)
                elif isinstance(s, Num):
                    for x in s.lin.vars():
                        if not isinstance(x, Var) or isinstance(x, DVar):
                            return False
                        vs.add(x)
                elif not isinstance(s, str):
                    return False
            return True
        if isinstance(v, Lin):
            for x in v.vars():
                if not isinstance(x, Var) or isinstance(x, DVar):
                    return False
                vs.add(x)
            return True
        if isinstance(v, tuple):
            return all(self.memoable(st, x, vs) for x in v)
        if isinstance(v, Ref):
            return v.id in self.base and v.id not in st.heap
        return False

    def memo_store(self, st0, key, out, raised, depth):
        res = []
        for s, v in out:
            vs = set()
            if not self.memoable(s, v, vs):
                return
            if not self._pure_delta(st0, s):
                return
            res.append(({x: m for x, m in s.dom.items() if st0.mask(x) != m}, s.cons, v))
        exs = []
        for s, e in raised:
            if not self._pure_delta(st0, s):
                return
            exs.append(({x: m for x, m in s.dom.items() if st0.mask(x) != m}, s.cons, e))
        if len(self.memo) > 50000:
            self.memo.clear()
        self.memo[key] = (res, exs)

    def _pure_delta(self, a, b):
        """No object that existed before the call was changed."""
        if b.writes != a.writes:
            return False
        for i, o in a.heap.items():
            if b.heap.get(i) is not o:
                return False
        return True

    def memo_apply(self, st, got):
        res, exs = got
        for d, cons, e in exs:
            s = st.clone()
            s.dom.update(d)
            s.cons = st.cons + cons
            self.collect[-1].append((s, e))
        if len(res) == 1 and not exs:
            d, cons, v = res[0]
            if d:
                st.dom.update(d)
            st.cons = st.cons + cons
            return [(st, v)]
        out = []
        for d, cons, v in res:
            s = st.clone()
            s.dom.update(d)
            s.cons = st.cons + cons
            out.append((s, v))
        return out


class ModuleV:
    __slots__ = ("name", "id", "path", "pkg", "tree")

    def __init__(self, name, id_, path, pkg):
        self.name = name
        self.id = id_
        self.path = path
        self.pkg = pkg
        self.tree = None


class StdMod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


_gen = {}


def has_break(loop):
    """The loop may end before its iterator does."""
    for x in loop.body:
        for n in ast.walk(x):
            if isinstance(n, (ast.Break, ast.Return)):
                return True
    return False


def is_generator(node):
    r = _gen.get(node)
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        _gen[node] = r
    return r


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return tuple(out)
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Undecided("inconsistent bases")
        out.append(h)
        for t in seqs:
            if t[0] is h:
                del t[0]


def liveness(fn):
    """Conservative live names at the entry of every statement."""
    res = {}

    def uses(node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and not (
                isinstance(n.ctx, ast.Store)
            ):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out.update(n.names)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super":
                a = fn.args.args
                if a:
                    out.add(a[0].arg)
        return out

    def stores(stmt):
        """Names certainly rebound by a simple assignment before any use."""
        if isinstance(stmt, ast.Assign) and len(stmt.targets) == 1 and isinstance(
            stmt.targets[0], ast.Name
        ):
            return {stmt.targets[0].id}
        return set()

    def walk(stmts, after, loop):
        live = set(after)
        for s in reversed(stmts):
            inner_after = live | loop
            if isinstance(s, (ast.For, ast.While)):
                used = uses(s)
                lp = loop | used
                walk(s.body, live | lp, lp)
                walk(s.orelse, inner_after, loop)
                live = live | used
            elif isinstance(s, ast.If):
                walk(s.body, live, loop)
                walk(s.orelse, live, loop)
                live = live | uses(s)
            elif isinstance(s, ast.Try):
                used = uses(s)
                for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                    walk(b, live | used, loop)
                live = live | used
            elif isinstance(s, ast.With):
                walk(s.body, live, loop)
                live = live | uses(s)
            elif isinstance(s, (ast.Return, ast.Raise)):
                live = uses(s)
            else:
                live = (live - stores(s)) | uses(s)
            res[s] = live | loop
        return live

    if not isinstance(fn, ast.Lambda):
        walk(fn.body, set(), set())
    return res


def _pow(a, b):
    return a**b


import operator as _op

PYOPS = {
    "Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv,
    "FloorDiv": _op.floordiv, "Mod": _op.mod, "Pow": _op.pow, "LShift": _op.lshift,
    "RShift": _op.rshift, "BitOr": _op.or_, "BitAnd": _op.and_, "BitXor": _op.xor,
    "Lt": _op.lt, "LtE": _op.le, "Gt": _op.gt, "GtE": _op.ge, "Eq": _op.eq,
    "NotEq": _op.ne,
}
