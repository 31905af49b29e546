#!/usr/bin/env python3
"""Setup: compare the analyser with the interpreter on small programs.

Every function of the conform directory is analysed once on abstract arguments and
run by Python on members of the same family.  Each member must lie in exactly
one outcome of the analysis, and that outcome must have the member's result.
/repo is not looked at.
"""

import importlib.util
import inspect
import itertools
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa import rx, spec  # noqa: E402
from sa.an import Out, holds  # noqa: E402
from sa.dom import (  # noqa: E402
    AStr, BytesV, Fin, IVar, Lin, St, Undecided, Var, eval_lin, eval_str, eval_var, mk_str, mk_tab,
)
from sa.dom import Lin as _Lin  # noqa: E402
from sa.heap import HObj, Ref  # noqa: E402
from sa.interp import Interp  # noqa: E402
from sa.strs import is_str  # noqa: E402

ALPHABETS = {
    "d": "0123456789",
    "b": "01",
    "h": "0189aAfF",
    "m": "0a/%Z ",
    "u": "07a٠²½",
    "w": "0a \n\t ",
}
LIMIT = 300


def argument(name):
    """(abstract value, cells, concretise) of a parameter"""
    if name == "n":
        v = IVar("n", 0, 40)
        return _Lin(0, (), ((v, 1),)), [(v, range(41))], lambda a: a[v]
    chars = ALPHABETS[name[0]]
    vs = [Var(f"{name}{i}", chars) for i in range(int(name[1:]))]
    text = mk_str(tuple(mk_tab(v, tuple(chars)) for v in vs))
    return text, [(v, range(len(chars))) for v in vs], \
        lambda a: "".join(chars[a[v]] for v in vs)


def value(it, st, x, asg):
    """Concrete value of an abstract one."""
    if is_str(x):
        return eval_str(x, asg)
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return x
    if isinstance(x, Lin):
        return eval_lin(x, asg)
    if isinstance(x, Fin):
        return value(it, st, x.img[eval_var(x.var, asg)], asg)
    if isinstance(x, tuple):
        return tuple(value(it, st, y, asg) for y in x)
    if isinstance(x, BytesV):
        return bytes.fromhex(value(it, st, x.hex, asg))
    if isinstance(x, Ref):
        o = it.obj(st, x)
        if o.kind == "list":
            for s, items in it.iterate(st.clone(), x):
                if holds(s, asg):
                    return [value(it, s, y, asg) for y in items]
        if o.kind == "dict":
            return {value(it, st, k, asg): value(it, st, v, asg) for k, v in o.data.values()}
    raise Undecided(f"value {x!r}")


def outcomes(it, f, arg):
    it.collect = [[]]
    it.depth = 0
    r = it.call(St(), f, [arg], {})
    out = [Out(s, val=v) for s, v in r]
    return out + [Out(s, exc=e.cls.name) for s, e in it.collect[0]]


def members(cells, rng):
    n = 1
    for _, r in cells:
        n *= len(r)
    if n <= LIMIT:
        for c in itertools.product(*(r for _, r in cells)):
            yield dict(zip((v for v, _ in cells), c))
        return
    for k in range(LIMIT):
        pick = (min, max)[k] if k < 2 else rng.choice
        yield {v: pick(r) for v, r in cells}


def plain(x):
    """Result of Python in comparable form."""
    if isinstance(x, tuple):
        return tuple(plain(y) for y in x)
    if isinstance(x, list):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, int) and not isinstance(x, bool):
        return int(x)
    return x


def compare(verbose, program):
    path = os.path.join(HERE, "conform", program + ".py")
    sp = importlib.util.spec_from_file_location("conform_" + program, path)
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    it = Interp(os.path.join(HERE, "conform")).boot([program])
    rng = random.Random(1)
    wrong, open_, compared, done = [], [], 0, 0
    for name, fn in list(vars(mod).items()):
        if not name.startswith("t_") or (verbose and verbose not in name):
            continue
        par = list(inspect.signature(fn).parameters)[0]
        arg, cells, conc = argument(par)
        try:
            it.steps = 0
            outs = outcomes(it, it.get_global(program + "." + name), arg)
            for asg in members(cells, rng):
                x = conc(asg)
                try:
                    want = ("value", plain(fn(x)))
                except Exception as e:  # noqa: BLE001
                    want = ("raise", type(e).__name__)
                here = [o for o in outs if holds(o.st, asg)]
                got = [("raise", o.exc) if o.exc else ("value", value(it, o.st, o.val, asg))
                       for o in here]
                if got != [want]:
                    wrong.append(f"{name}({x!r}): analysis {got}, Python {want}")
                    break
                compared += 1
        except Undecided as e:
            open_.append(f"{name}: {e}")
            continue
        except Exception as e:  # noqa: BLE001
            open_.append(f"{name}: internal {e!r}")
            continue
        done += 1
    return wrong, open_, compared, done


def main():
    assert rx.exponential(rx.prog("([a-z]+)*x")) and not rx.exponential(rx.prog("[a-z]+x"))
    for s in spec.SCHEMES:
        assert spec.valid(s), s
    wrong, open_, compared, done = [], [], 0, 0
    for program in ("prog", "prog2"):
        w, o, c, d = compare(sys.argv[1] if len(sys.argv) > 1 else None, program)
        wrong, open_, compared, done = wrong + w, open_ + o, compared + c, done + d
    for w in wrong:
        print("WRONG", w)
    for w in open_:
        print("undecided", w)
    print(f"analyser compared with Python: {done} programs decided, {len(open_)} undecided, "
          f"{compared} results equal, {len(wrong)} wrong; {len(spec.SCHEMES)} schemes")
    return 1 if wrong else 0


if __name__ == "__main__":
    sys.exit(main())
