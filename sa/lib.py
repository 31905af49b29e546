"""Abstract semantics of the built-in and standard library operations."""
from __future__ import annotations

import ast
import math
import re
import string
import unicodedata

from . import rx
from .dom import (
    B64, B64U, UNDEF, AStr, BytesV, DVar, Fin, IVar, Lin, Num, Opq, Rep, Tab, Undecided, Var,
    as_lin, assume_range, bits, bounds, concat, dvar, lin_add, lin_mul, lin_table,
    mk_str, mk_tab, norm_int, segs_of, to_base,
)
from .heap import (
    GEN, PARTLY,
    BMethod, Bound, Builtin, CatL, ClassV, DagL, ExcV, FuncV, HObj, LSplit, MatchV,
    NTup, PatternV, RangeV, Ref, Wrapped, merge, same_value,
)
from .strs import (
    PredProg, Units, by_length, char_units, compact, digits_value, eq_str, fullmatch, fuse,
    is_int, is_str, num_cells, restrict_var, scan, simplify, slice_str, str_len,
    tab_chars, tab_len, take_drop, take_drop_right,
)

def loose_prog(base):
    """Every text int() accepts in a base."""
    d = {2: "[01]", 8: "[0-7]", 16: "[0-9a-fA-F]"}.get(base)
    d = r"\d" if base == 10 else "(?:" + d + r"|\d)"
    pre = {2: "(?:0[bB]_?)?", 8: "(?:0[oO]_?)?", 16: "(?:0[xX]_?)?"}.get(base, "")
    return rx.prog(rf"\s*[-+]?{pre}{d}(?:_?{d})*\s*")


LAZY = ("map", "filter", "zip", "enumerate", "reversed")

NAMES = set(
    """len int str ord chr range list tuple dict set frozenset map filter zip enumerate
    sum min max any all isinstance issubclass hasattr getattr setattr type repr format
    abs pow divmod round sorted reversed print bool float bytes bytearray bin hex oct
    iter next super object property classmethod staticmethod NotImplemented hash id
    callable slice vars Ellipsis""".split()
)

STR_PURE = set(
    """upper lower swapcase title capitalize casefold strip lstrip rstrip isnumeric
    isdigit isdecimal isalpha isalnum isupper islower isspace isascii isidentifier
    isprintable istitle zfill rjust ljust center startswith endswith find rfind index
    rindex count replace expandtabs removeprefix removesuffix encode translate""".split()
)
STR_OTHER = set("split rsplit join partition rpartition splitlines format format_map maketrans".split())

CHAR_MAPS = {"upper", "lower", "swapcase", "casefold"}
CHAR_PREDS = {
    "isnumeric": str.isnumeric, "isdigit": str.isdigit, "isdecimal": str.isdecimal,
    "isalpha": str.isalpha, "isalnum": str.isalnum, "isspace": str.isspace,
    "isascii": str.isascii, "isprintable": str.isprintable,
}
_pred = {}

MAXVAR = 300


def pred_prog(name):
    p = _pred.get(name)
    if p is None:
        p = _pred[name] = PredProg(
            name, CHAR_PREDS[name], allow_empty=name in ("isascii", "isprintable")
        )
    return p


DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"
_int_pred = {}


def int_prog(base):
    p = _int_pred.get(base)
    if p is None:
        ds = set(DIGITS[:base]) | set(DIGITS[:base].upper())
        p = _int_pred[base] = PredProg(f"int{base}", lambda c: c in ds)
    return p


def single(items):
    return DagL(0, {0: [({}, tuple(items), None)]}, [0])


class Lib:
    def __init__(self, interp):
        self.it = interp
        self.patterns = {}
        self.pw_memo = {}

    # -- names ------------------------------------------------------------
    def builtin_name(self, name):
        from .interp import BUILTIN_EXC

        if name in BUILTIN_EXC:
            return self.it.exc_class(name)
        if name in NAMES:
            return Builtin(name)
        return None

    def std_value(self, b):
        mod, _, name = b.name.rpartition(".")
        if mod == "string" and isinstance(getattr(string, name, None), str):
            return getattr(string, name)
        if mod == "re" and name.isupper():
            return int(getattr(re, name))
        if mod == "math" and isinstance(getattr(math, name, None), float):
            return getattr(math, name)
        if mod == "typing" and name == "TYPE_CHECKING":
            return False
        if mod == "re" and name == "error":
            return self.it.exc_class("Exception")
        if mod == "builtins":
            return self.builtin_name(name) or b
        return b

    # -- tables -------------------------------------------------------------
    def var_of(self, st, v):
        """(var, images) | None for constants; raises LookupError otherwise."""
        if v is None or isinstance(v, (bool, int, float, str, bytes, ClassV, Builtin)):
            return None
        if isinstance(v, tuple):
            got = None
            parts = []
            for x in v:
                r = self.var_of(st, x)
                parts.append(r)
                if r is not None:
                    if got is not None and got is not r[0]:
                        raise LookupError
                    got = r[0]
            if got is None:
                return None
            img = []
            for k in range(got.n):
                row = tuple(x if r is None else r[1][k] for x, r in zip(v, parts))
                img.append(UNDEF if any(y is UNDEF for y in row) else row)
            return got, tuple(img)
        if isinstance(v, AStr):
            f = fuse(st, v)
            if f is None:
                f = fuse(st, simplify(st, v))
            if f is None:
                raise LookupError
            if isinstance(f, str):
                return None
            return f
        if isinstance(v, Lin):
            if len(v.t) == 1 and not v.a:
                w, tab = v.t[0]
                return w, tuple(UNDEF if x is UNDEF else x + v.c for x in tab)
            lo, hi = bounds(st, v)
            if hi - lo < MAXVAR:
                d = dvar(v, lo, hi)
                return d, d.values
            raise LookupError
        if isinstance(v, Fin):
            return v.var, v.img
        raise LookupError

    def plain(self, st, v):
        """Constant in this state as python value, else the value itself."""
        if isinstance(v, AStr):
            return simplify(st, v)
        if isinstance(v, Lin):
            lo, hi = bounds(st, v)
            if lo == hi:
                return lo
        return v

    def build_table(self, st, var, img):
        mask = st.mask(var)
        first = None
        same = True
        kinds = set()
        got = False
        for i in bits(mask):
            x = img[i]
            if x is UNDEF:
                continue
            if not got:
                first = x
                got = True
            elif same and not same_value(first, x):
                same = False
            kinds.add(bool if isinstance(x, bool) else type(x))
        if not got:
            raise Undecided("empty table")
        if same:
            return first
        if kinds == {str}:
            return mk_str([mk_tab(var, tuple(x if isinstance(x, str) else UNDEF for x in img))])
        if kinds == {int}:
            return norm_int(lin_table(var, tuple(
                x if isinstance(x, int) and not isinstance(x, bool) else UNDEF for x in img)))
        return Fin(var, tuple(img))

    def pointwise(self, st, key, fn, args):
        """Apply fn to every value of the one variable the arguments depend on.

        A tuple as key names the operation with all its parameters, and its
        results are remembered."""
        ck = None
        if key.__class__ is tuple:
            v = lone_var(args)
            if v is not None:
                ck = (key, args[0], st.mask(v))
                r = self.pw_memo.get(ck)
                if r is not None:
                    return [(st, r[0])]
            key = key[0]
        try:
            got = [self.var_of(st, a) for a in args]
        except LookupError:
            raise Undecided(f"{key} of several independent parts")
        vs = []
        for g in got:
            if g is not None and g[0] not in vs:
                vs.append(g[0])
        if not vs:
            args = [self.plain(st, a) for a in args]
            try:
                return [(st, fn(*args))]
            except Undecided:
                raise
            except Exception as e:  # noqa: BLE001
                return self.it.raise_(st, type(e).__name__)
        if len(vs) > 1:
            # split on the argument with the fewest different values
            best = None
            for v in vs:
                k = len({repr(g[1][i]) for g in got if g is not None and g[0] is v
                         for i in bits(st.mask(v))})
                if best is None or k < best[0]:
                    best = (k, v)
            if best[0] > 40:
                raise Undecided(f"{key} of independent parts")
            v = best[1]
            idx = [n for n, g in enumerate(got) if g is not None and g[0] is v]
            groups = {}
            for i in bits(st.mask(v)):
                row = tuple(got[n][1][i] for n in idx)
                if any(x is UNDEF for x in row):
                    continue
                groups[row] = groups.get(row, 0) | (1 << i)
            out = []
            for row, m in groups.items():
                s2 = restrict_var(st, v, m) if len(groups) > 1 else st
                if s2 is None:
                    continue
                a2 = list(args)
                for n, x in zip(idx, row):
                    a2[n] = x
                out.extend(self.pointwise(s2, key, fn, a2))
            return out
        v = vs[0]
        mask = st.mask(v)
        img = []
        errs = {}
        okm = 0
        cache = {}
        for i in range(v.n):
            row = [a if g is None else g[1][i] for a, g in zip(args, got)]
            if any(x is UNDEF for x in row):
                img.append(UNDEF)
                continue
            inm = mask >> i & 1
            try:
                r = fn(*row)
                img.append(r)
                okm |= inm << i
            except Undecided:
                if inm:
                    raise
                img.append(UNDEF)
            except Exception as e:  # noqa: BLE001
                img.append(UNDEF)
                if inm:
                    n = type(e).__name__
                    errs[n] = errs.get(n, 0) | (1 << i)
        out = []
        if not errs:
            r = self.build_table(st, v, img)
            if ck is not None:
                if len(self.pw_memo) > 20000:
                    self.pw_memo.clear()
                self.pw_memo[ck] = (r,)
            return [(st, r)]
        for n, m in errs.items():
            s2 = restrict_var(st, v, m)
            if s2 is not None:
                self.it.raise_(s2, n)
        if okm:
            s2 = restrict_var(st, v, okm)
            if s2 is not None:
                out.append((s2, self.build_table(s2, v, img)))
        return out

    def one_var(self, st, args):
        """All arguments are constants or functions of one variable."""
        v = None
        try:
            for a in args:
                g = self.var_of(st, a)
                if g is not None:
                    if v is not None and v is not g[0]:
                        return False
                    v = g[0]
        except LookupError:
            return False
        return True

    def split_int(self, st, x, cap=300):
        """[(state, python int)]."""
        if isinstance(x, bool):
            return [(st, int(x))]
        if isinstance(x, int):
            return [(st, x)]
        if isinstance(x, Fin):
            out = []
            for s, y in self.it.concretise(st, x):
                out.extend(self.split_int(s, y))
            return out
        if isinstance(x, Ref):
            out = []
            for s, y in self.it.as_number(st, x):
                if isinstance(y, Ref):
                    raise Undecided("index object")
                out.extend(self.split_int(s, y))
            return out
        if not isinstance(x, Lin):
            raise Undecided("integer expected")
        lo, hi = bounds(st, x)
        if hi - lo > cap:
            raise Undecided("index ranges too widely")
        if lo == hi:
            return [(st, lo)]
        out = []
        for n in range(lo, hi + 1):
            s = assume_range(st, x, n, n)
            if s is not None:
                a, b = bounds(s, x)
                out.append((s if s is not st else st.clone(), n))
        return out

    def concrete_str(self, st, x):
        if isinstance(x, str):
            return [(st, x)]
        x = simplify(st, x)
        if isinstance(x, str):
            return [(st, x)]
        f = fuse(st, x)
        if f is not None and not isinstance(f, str):
            groups = {}
            for i in bits(st.mask(f[0])):
                if f[1][i] is not UNDEF:
                    groups[f[1][i]] = groups.get(f[1][i], 0) | 1 << i
            if len(groups) <= 200:
                out = []
                for y, m in groups.items():
                    s = restrict_var(st, f[0], m)
                    if s is not None:
                        out.append((s, y))
                return out
        raise Undecided("text must be known here")

    # -- numbers to text ---------------------------------------------------
    def digits_text(self, st, lin, base, width, upper=False):
        """Text of a natural number padded with zeros to at least width."""
        def f(n):
            if n < 0:
                t = "-" + to_base(-n, base, max(width - 1, 1), "0123456789abcdef"[:base])
            else:
                t = to_base(n, base, max(width, 1), "0123456789abcdef"[:base])
            return t.upper() if upper else t

        if not isinstance(lin, Lin):
            return [(st, f(lin))]
        if len(lin.t) == 1 and not lin.a and lin.t[0][0].n <= MAXVAR:
            return self.pointwise(st, ("text", base, width, upper), f, [lin])
        lo, hi = bounds(st, lin)
        if lo < 0:
            s = assume_range(st, lin, None, -1)
            if s is not None:
                raise Undecided("text of a negative number")
            lo = 0
        out = []
        k = max(1, width)
        first = True
        while True:
            a = 0 if first else base ** (k - 1)
            b = base**k - 1
            if a > hi:
                break
            if b >= lo:
                s = assume_range(st, lin, a, b)
                if s is not None:
                    out.append((s, mk_str([Num(lin, base, k, upper)])))
            first = False
            k += 1
            if k > 2000:
                raise Undecided("number too long")
        if len(out) > 1:
            out = [(s if s is not st else st.clone(), t) for s, t in out]
        return out

    SPEC = re.compile(
        r"(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([bcdeEfFgGnosxX%])?",
        re.S,
    )

    def format_(self, st, v, spec):
        if is_str(spec) and not isinstance(spec, str):
            out = []
            for s, sp in self.concrete_str(st, spec):
                out.extend(self.format_(s, v, sp))
            return out
        if isinstance(v, Fin):
            out = []
            if all(x is UNDEF or isinstance(x, (str, int, type(None))) for x in v.img):
                return self.pointwise(st, "format", lambda x: format(x, spec), [v])
            for s, x in self.it.concretise(st, v):
                out.extend(self.format_(s, x, spec))
            return self.it.merge_vals(out)
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "inst" and isinstance(o.cls, ClassV) and o.cls.enum in (
                "IntEnum", "StrEnum"
            ):
                return self.format_(st, o.data["_value_"], spec)
            if spec:
                if o.kind == "inst" and isinstance(o.cls, ClassV):
                    f = self.it.class_attr(st, o.cls, "__format__")
                    if f is not None:
                        return self.it.call(st, Bound(f, v), [spec], {})
                raise Undecided("format of an object")
            return self.to_str(st, v)
        if v is None or isinstance(v, (bool, int, float, str)):
            try:
                return [(st, format(v, spec))]
            except (ValueError, TypeError) as e:
                return self.it.raise_(st, type(e).__name__)
        if not is_str(v) and not isinstance(v, Lin):
            return self.to_str(st, v)
        if spec == "":
            return self.to_str(st, v)
        m = self.SPEC.fullmatch(spec)
        if m is None:
            return self.it.raise_(st, "ValueError")
        fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
        width = int(width) if width else 0
        if is_str(v):
            if typ not in (None, "s") or sign or alt or comma:
                return self.it.raise_(st, "ValueError")
            if align == "=":
                return self.it.raise_(st, "ValueError")
            if fill is None:
                fill = "0" if zero else " "
            if prec is not None:
                parts = slice_str(st, v, None, int(prec))
            else:
                parts = [(st, v)]
            if zero and align is None:
                align = "<"
            out = []
            for s, x in parts:
                out.extend(self.pad(s, x, width, fill, align or "<"))
            return out
        if sign or comma or prec or typ in ("e", "E", "f", "F", "g", "G", "%", "n", "c"):
            if typ == "c" and not (sign or comma or prec or width):
                return self.call(st, "chr", [v], {})
            return self.pointwise(st, "format", lambda x: format(x, spec), [v])
        base = {"b": 2, "o": 8, "x": 16, "X": 16}.get(typ, 10)
        if alt:
            return self.pointwise(st, "format", lambda x: format(x, spec), [v])
        if fill is None:
            fill = "0" if zero else " "
        if align is None:
            align = "=" if zero else ">"
        if fill == "0" and align in ("=", ">"):
            return self.digits_text(st, v, base, width, typ == "X")
        out = []
        for s, x in self.digits_text(st, v, base, 0, typ == "X"):
            out.extend(self.pad(s, x, width, fill, ">" if align == "=" else align))
        return out

    def pad(self, st, x, width, fill, align):
        n = str_len(st, x)
        if isinstance(n, Lin):
            lo, hi = bounds(st, n)
            if lo >= width:
                return [(st, x)]
            f = fuse(st, x)
            if (
                f is not None and not isinstance(f, str) and isinstance(fill, str)
                and align in "<>"
            ):
                how = str.rjust if align == ">" else str.ljust
                return self.pointwise(
                    st, ("pad", width, fill, align), lambda t: how(t, width, fill), [x])
            if hi > width:
                a = assume_range(st, n, None, width)
                b = assume_range(st, n, width + 1, None)
                out = []
                if b is not None:
                    out.append((b, x))
                if a is not None:
                    out.extend(self.pad(a if a is not st else st.clone(), x, width, fill, align))
                return out
            out = []
            for s, k in self.split_int(st, n):
                out.extend(self._pad(s, x, k, width, fill, align))
            return out
        return self._pad(st, x, n, width, fill, align)

    def _pad(self, st, x, n, width, fill, align):
        k = width - n
        if k <= 0:
            return [(st, x)]
        if align == "<":
            return [(st, concat(x, fill * k))]
        if align == ">":
            segs = segs_of(x)
            if fill == "0" and segs and isinstance(segs[0], Num) and segs[0].base != 64:
                first = segs[0]
                wide = Num(first.lin, first.base, first.width + k, first.upper)
                return [(st, mk_str([wide, *segs[1:]]))]
            return [(st, concat(fill * k, x))]
        left = k // 2 + (k & width & 1 if align == "c" else 0)
        return [(st, concat(concat(fill * left, x), fill * (k - left)))]

    def to_str(self, st, v):
        if is_str(v):
            return [(st, v)]
        if isinstance(v, Lin):
            return self.digits_text(st, v, 10, 0)
        if v is None or isinstance(v, (bool, int, float)):
            return [(st, str(v))]
        if isinstance(v, Fin):
            if all(x is UNDEF or isinstance(x, (str, int, type(None), float)) for x in v.img):
                return self.pointwise(st, "str", str, [v])
            out = []
            for s, x in self.it.concretise(st, v):
                out.extend(self.to_str(s, x))
            return self.it.merge_vals(out)
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                f = self.it.class_attr(st, o.cls, "__str__")
                if f is None:
                    f = self.it.class_attr(st, o.cls, "__repr__")
                if f is not None:
                    return self.it.call(st, Bound(f, v), [], {})
                if o.cls.enum in ("IntEnum", "StrEnum"):
                    return self.to_str(st, o.data["_value_"])
                if o.cls.enum:
                    return [(st, f"{o.cls.name}.{o.data['_name_']}")]
        return [(st, AStr((Opq("text of an object"),)))]

    def repr_(self, st, v):
        if v is None or isinstance(v, (bool, int, float, str)):
            return [(st, repr(v))]
        if isinstance(v, Lin):
            return self.to_str(st, v)
        return [(st, AStr((Opq("repr"),)))]

    def percent_format(self, st, fmt, args):
        if not isinstance(fmt, str):
            raise Undecided("format text")
        out = [(st, "")]
        pos = 0
        k = 0
        for m in re.finditer(r"%(\(\w+\))?([-+0 #]*)(\d+|\*)?(?:\.(\d+|\*))?([a-zA-Z%])", fmt):
            lit = fmt[pos:m.start()]
            pos = m.end()
            if "%" in lit:
                raise Undecided("format directive")
            out = [(s, concat(t, lit)) for s, t in out]
            if m.group(5) == "%":
                out = [(s, concat(t, "%")) for s, t in out]
                continue
            if m.group(1) or m.group(4) or set(m.group(2)) & set("+ #"):
                raise Undecided("format directive")
            if k + (m.group(3) == "*") >= len(args):
                for s, _ in out:
                    self.it.raise_(s, "TypeError")
                return []
            typ = m.group(5)
            fl, w = m.group(2), m.group(3) or ""
            if w == "*":
                if not isinstance(args[k], int) or args[k] < 0:
                    raise Undecided("format width")
                w = str(args[k] or "")
                k += 1
            if "-" in fl:
                fl = "-"
            a = args[k]
            k += 1
            if typ == "r" and not is_int(a):
                raise Undecided("format directive")
            if typ in ("s", "r"):
                spec = ("<" if "-" in fl else ">") + w if w else ""
                nxt = []
                for s, t in out:
                    for s2, y in self.to_str(s, a):
                        for s3, z in self.format_(s2, y, spec):
                            nxt.append((s3, concat(t, z)))
                out = nxt
                continue
            if typ in ("d", "i", "x", "X", "o"):
                if is_str(a):
                    for s, _ in out:
                        self.it.raise_(s, "TypeError")
                    return []
                spec = ("<" if "-" in fl else "") + ("0" if "0" in fl else "") + w + (
                    "d" if typ == "i" else typ)
                nxt = []
                for s, t in out:
                    for s3, z in self.format_(s, a, spec):
                        nxt.append((s3, concat(t, z)))
                out = nxt
                continue
            raise Undecided("format directive")
        if "%" in fmt[pos:]:
            raise Undecided("format directive")
        if k < len(args):
            for s, _ in out:
                self.it.raise_(s, "TypeError")
            return []
        return [(s, concat(t, fmt[pos:])) for s, t in out]

    def str_repeat(self, st, s, n):
        out = []
        for st2, k in self.split_int(st, n):
            if isinstance(s, str):
                out.append((st2, s * k))
            else:
                out.append((st2, mk_str(s.segs * max(k, 0))))
        return out

    # -- text to numbers ---------------------------------------------------
    def to_int(self, st, x, base=10):
        if isinstance(x, str):
            try:
                return [(st, int(x, base))]
            except ValueError:
                return self.it.raise_(st, "ValueError")
        x = simplify(st, x)
        if isinstance(x, str):
            return self.to_int(st, x, base)
        if any(isinstance(s, (Opq, Rep)) for s in x.segs):
            out = []
            if any(isinstance(s, Opq) for s in x.segs):
                for s, ok in fullmatch(st, int_prog(base), x):
                    if ok:
                        raise Undecided("number of unknown length")
                    raise Undecided("conversion of unknown text")
            raise Undecided("number of unknown length")
        n = str_len(st, x)
        if base & (base - 1) and bounds(st, n)[0] > 4300:
            # limit of the interpreter on the digits of an integer
            return self.it.raise_(st, "ValueError")
        if self.one_var(st, [x]):
            return self.pointwise(st, ("int", base), lambda t: int(t, base), [x])
        if base not in (2, 8, 10, 16):
            raise Undecided("number base")
        out = []
        for s, ok in fullmatch(st, int_prog(base), x):
            if ok:
                out.extend(self.digits_int(s, x, base))
                continue
            # signs, blanks, separators and other scripts are accepted too
            for s2, may in fullmatch(s, loose_prog(base), x):
                if may:
                    out.extend(self.loose_int(s2, x, base))
                else:
                    self.it.raise_(s2, "ValueError")
        return out

    def loose_int(self, st, x, base):
        """Value of a text int() accepts that is not plain digits."""

        def kind(c):
            if c.isspace():
                return " "
            if c in "+-_":
                return c
            if base != 10 and c in "xXoObB" and c.lower() not in DIGITS[:base]:
                return "x"
            return "d"

        def digit(c):
            return c if c.isascii() else str(unicodedata.decimal(c))

        out = []
        todo = [(st, 0, (), False)]
        segs = segs_of(simplify(st, x))
        while todo:
            s, k, acc, neg = todo.pop()
            if len(todo) + len(out) > 200:
                raise Undecided("number of too many shapes")
            if k == len(segs):
                t = mk_str(acc)
                if isinstance(t, str):
                    vs = [(s, int(t, base))]
                else:
                    vs = self.digits_int(s, t, base)
                out.extend((s2, norm_int(lin_mul(v, -1)) if neg else v) for s2, v in vs)
                continue
            g = segs[k]
            if isinstance(g, str):
                todo.append((s, k + 1, acc + ("".join(
                    digit(c) for c in g if kind(c) == "d"),), neg or "-" in g))
                continue
            if isinstance(g, Num):
                todo.append((s, k + 1, acc + (g,), neg))
                continue
            if not isinstance(g, Tab):
                raise Undecided("unusual number text")
            parts = {}
            for i in bits(s.mask(g.var)):
                y = g.img[i]
                if y is not UNDEF:
                    parts[tuple(kind(c) for c in y)] = parts.get(
                        tuple(kind(c) for c in y), 0) | 1 << i
            img = tuple(
                y if y is UNDEF else "".join(digit(c) for c in y if kind(c) == "d")
                for y in (z if z is UNDEF or s.mask(g.var) >> i & 1 else UNDEF
                          for i, z in enumerate(g.img)))
            for cls, m in parts.items():
                s2 = s if len(parts) == 1 else restrict_var(s, g.var, m)
                if s2 is not None:
                    todo.append((s2, k + 1, acc + (mk_tab(g.var, img),), neg or "-" in cls))
        return out

    def digits_int(self, st, x, base):
        todo = [st]
        out = []
        while todo:
            s = todo.pop()
            if len(out) + len(todo) > 300:
                raise Undecided("number of too many shapes")
            for seg in x.segs:
                if isinstance(seg, Tab) and tab_len(s, seg) is None:
                    todo.extend(s2 for s2, _ in by_length(s, seg))
                    break
            else:
                digs = DIGITS[:base]
                segs = []
                for seg in x.segs:
                    if isinstance(seg, Num) and seg.base != base:
                        if seg.base < base and seg.width > 1:
                            segs.extend(num_cells(s, seg))
                        else:
                            segs.append(seg)
                    elif isinstance(seg, Num) and seg.upper:
                        segs.append(Num(seg.lin, seg.base, seg.width))
                    elif base == 16 and isinstance(seg, str):
                        segs.append(seg.lower())
                    elif base == 16 and isinstance(seg, Tab):
                        segs.append(mk_tab(seg.var, tuple(
                            y if y is UNDEF else y.lower() for y in seg.img)))
                    else:
                        segs.append(seg)
                v = digits_value(s, segs, digs)
                if v is None:
                    raise Undecided("digits")
                out.append((s, norm_int(v)))
        return out

    # -- iteration ---------------------------------------------------------
    def iter_graph(self, st, v):
        if isinstance(v, tuple):
            return [(st, single(v))]
        if isinstance(v, str):
            return [(st, single(v))]
        if isinstance(v, RangeV):
            if len(v.r) > 5000:
                raise Undecided("range too long")
            return [(st, single(v.r))]
        if isinstance(v, AStr):
            return [self.chars_graph(st, v)]
        if isinstance(v, Fin):
            return [
                r for s, x in self.it.concretise(st, v) for r in self.iter_graph(s, x)
            ]
        if isinstance(v, ClassV) and v.enum:
            return [(st, single(self.it.class_attr(st, v, "__members__") or ()))]
        if isinstance(v, BytesV):
            out = []
            for s, chunks in self.chunks(st, v.hex, 2):
                cur = [(s, ())]
                for c in chunks:
                    cur = [(s3, a + (n,)) for s2, a in cur for s3, n in self.to_int(s2, c, 16)]
                out.extend((s2, single(a)) for s2, a in cur)
            return out
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "list":
                d = o.data
                if o.cls is GEN:
                    if d is PARTLY:
                        raise Undecided("iterator used in part")
                    self.it.put(st, v.id, HObj("list", GEN, ()), "iter")
                if isinstance(d, tuple):
                    return [(st, single(d))]
                if isinstance(d, DagL):
                    return [(st, d)]
                if isinstance(d, LSplit):
                    return self.split_graph(st, d)
                raise Undecided("elements of a joined list")
            if o.kind in ("dict", "set"):
                return [(st, single(k for k, _ in o.data.values()))]
            if o.kind == "inst":
                if isinstance(o.cls, ClassV):
                    f = self.it.class_attr(st, o.cls, "__iter__")
                    if f is not None:
                        return [
                            r
                            for s, x in self.it.call(st, Bound(f, v), [], {})
                            for r in self.iter_graph(s, x)
                        ]
                raise Undecided("infinite iterator")
        if v is None or is_int(v):
            return self.it.raise_(st, "TypeError")
        raise Undecided(f"iteration over {type(v).__name__}")

    def chars_graph(self, st, x):
        units = char_units(st, x)
        edges = {}
        order = [0]
        node = 0
        items = []
        for u in units:
            if isinstance(u, str):
                items.append(u)
                continue
            if isinstance(u, Rep):
                raise Undecided("characters of a run")
            n = tab_len(st, u)
            if n is not None:
                items.extend(tab_chars(st, u, n)[k] if n > 1 else u for k in range(n))
                continue
            if items:
                edges[node] = [({}, self._aschars(items), node + 1)]
                node += 1
                order.append(node)
                items = []
            groups = {}
            for i in bits(st.mask(u.var)):
                y = u.img[i]
                if y is UNDEF:
                    continue
                groups[len(y)] = groups.get(len(y), 0) | 1 << i
            edges[node] = [
                ({u.var: m}, self._aschars(tab_chars(st, u, n) if n != 1 else [
                    mk_tab(u.var, tuple(y if y is not UNDEF and len(y) == 1 else UNDEF
                                        for y in u.img))]), node + 1)
                for n, m in groups.items()
            ]
            node += 1
            order.append(node)
        if node == 0 and len(order) == 1:
            return st, single(self._aschars(items))
        edges[node] = [({}, self._aschars(items), None)]
        return st, DagL(0, edges, order)

    def _aschars(self, items):
        return tuple(mk_str([i]) for i in items)

    def map_dag(self, st, dag, fn):
        """Apply fn(state, value) -> [(state, value)] to every element."""
        if len(dag.order) == 1:
            cur = [(st, ())]
            for _, values, _ in dag.edges[dag.start]:
                for v in values:
                    nxt = []
                    for s, items in cur:
                        for s2, r in fn(s, v):
                            nxt.append((s2, items + (r,)))
                    cur = self.it.merge_vals(nxt) if len(nxt) > 1 else nxt
            return cur
        edges = {}
        for node in dag.order:
            new = []
            for guard, values, nxt in dag.edges[node]:
                s = st.clone()
                for v, m in guard.items():
                    s = restrict_var(s, v, m)
                    if s is None:
                        break
                if s is None:
                    continue
                cur = [(s, ())]
                for v in values:
                    cur = [(s2, items + (r,)) for s1, items in cur for s2, r in fn(s1, v)]
                    if len(cur) > 1:
                        cur = self.it.merge_vals(cur)
                for s1, items in cur:
                    if s1.cons != st.cons:
                        raise Undecided("element of a list with conditions")
                    gd = {v: m for v, m in s1.dom.items() if st.mask(v) != m}
                    new.append((gd, items, nxt))
            edges[node] = new
        return [(st, DagL(dag.start, edges, dag.order))]

    def chunks(self, st, x, n):
        """Cut into pieces of n characters (the last may be shorter)."""
        out = []
        todo = [(st, segs_of(x), ())]
        while todo:
            s, segs, acc = todo.pop()
            if not segs:
                out.append((s, acc))
                continue
            for s2, l, r, miss in take_drop(s, segs, n):
                t = mk_str(l)
                if miss == n:
                    out.append((s2, acc))
                else:
                    todo.append((s2, r, acc + (t,)))
            if len(todo) + len(out) > 300:
                raise Undecided("too many ways to cut a text")
        return out

    # -- split -------------------------------------------------------------
    def sep_counts(self, st, segs, sep):
        """Per segment: int or Lin-table count of the separator; single char."""
        out = []
        for s in segs:
            if isinstance(s, str):
                out.append(s.count(sep))
            elif isinstance(s, Tab):
                cs = {s.img[i].count(sep) for i in bits(st.mask(s.var)) if s.img[i] is not UNDEF}
                if len(cs) == 1:
                    out.append(cs.pop())
                else:
                    out.append(None)
            elif isinstance(s, Num):
                out.append(0 if sep not in s.digits() else None)
            elif isinstance(s, Rep):
                if sep in s.chars:
                    raise Undecided("separator inside a run")
                out.append(0)
            else:
                raise Undecided("split of an unknown text")
        return out

    def cut_seg(self, s, sep, c):
        """Pieces of a segment that contains the separator exactly c times."""
        if c == 0:
            return [s]
        if isinstance(s, str):
            return s.split(sep)
        return [
            mk_tab(s.var, tuple(
                UNDEF if (y is UNDEF or y.count(sep) != c) else y.split(sep)[k]
                for y in s.img))
            for k in range(c + 1)
        ]

    def split_fixed(self, st, x, sep):
        """Tuple of pieces when the separators are at fixed places, else None."""
        segs = segs_of(x)
        cs = self.sep_counts(st, segs, sep)
        if any(c is None for c in cs):
            return None
        pieces = [[]]
        for s, c in zip(segs, cs):
            ps = self.cut_seg(s, sep, c)
            pieces[-1].append(ps[0])
            for p in ps[1:]:
                pieces.append([p])
        return tuple(mk_str(p) for p in pieces)

    def split_first(self, st, x, sep):
        """[(state, head, rest or None)] cut at the first separator."""
        segs = segs_of(x)
        out = []
        cur = st
        head = []
        for k, s in enumerate(segs):
            c = self.sep_counts(cur, [s], sep)[0]
            if c == 0:
                head.append(s)
                continue
            if c is None:
                if isinstance(s, Num):
                    raise Undecided("separator among digits")
                groups = {}
                for i in bits(cur.mask(s.var)):
                    y = s.img[i]
                    if y is not UNDEF:
                        groups[y.count(sep)] = groups.get(y.count(sep), 0) | 1 << i
                nxt = None
                for cnt, m in groups.items():
                    s2 = restrict_var(cur, s.var, m)
                    if s2 is None:
                        continue
                    if cnt == 0:
                        nxt = s2
                        continue
                    ps = self.cut_seg(s, sep, cnt)
                    rest = list(ps[1:2])
                    for p in ps[2:]:
                        rest += [sep, p]
                    out.append((s2, mk_str(head + [ps[0]]), mk_str(rest + list(segs[k + 1:]))))
                if nxt is None:
                    return out
                cur = nxt
                head.append(s)
                continue
            ps = self.cut_seg(s, sep, c)
            rest = list(ps[1:2])
            for p in ps[2:]:
                rest += [sep, p]
            out.append((cur, mk_str(head + [ps[0]]), mk_str(rest + list(segs[k + 1:]))))
            return out
        out.append((cur, mk_str(head), None))
        return out

    def split_last(self, st, x, sep):
        """[(state, head or None, tail)] cut at the last separator."""
        segs = segs_of(x)
        out = []
        cur = st
        tail = []
        for k in range(len(segs) - 1, -1, -1):
            s = segs[k]
            c = self.sep_counts(cur, [s], sep)[0]
            if c == 0:
                tail.insert(0, s)
                continue
            groups = {}
            if isinstance(s, str):
                groups = {c: None}
            elif isinstance(s, Num):
                raise Undecided("separator among digits")
            else:
                for i in bits(cur.mask(s.var)):
                    y = s.img[i]
                    if y is not UNDEF:
                        groups[y.count(sep)] = groups.get(y.count(sep), 0) | 1 << i
            nxt = None
            for cnt, m in groups.items():
                s2 = cur if m is None else restrict_var(cur, s.var, m)
                if s2 is None:
                    continue
                if cnt == 0:
                    nxt = s2
                    continue
                ps = self.cut_seg(s, sep, cnt)
                h = [ps[0]]
                for p in ps[1:-1]:
                    h += [sep, p]
                out.append((s2, mk_str(list(segs[:k]) + h), mk_str([ps[-1]] + tail)))
            if nxt is None:
                return out
            cur = nxt
            tail.insert(0, s)
        out.append((cur, None, mk_str(tail)))
        return out

    def split_graph(self, st, ls):
        """Iterate a lazily split text: fork over the separators."""
        out = []
        todo = [(st, (), ls.text)]
        while todo:
            s, acc, rest = todo.pop()
            f = self.split_fixed(s, rest, ls.sep)
            if f is not None:
                out.append((s, single(acc + f)))
                continue
            for s2, h, r in self.split_first(s, rest, ls.sep):
                if r is None:
                    out.append((s2, single(acc + (h,))))
                else:
                    todo.append((s2, acc + (h,), r))
            if len(out) + len(todo) > 300:
                raise Undecided("too many ways to split a text")
        return out

    def split_index(self, st, ls, i):
        """Element i of a lazily split text."""
        if i < 0:
            cur = [(st, ls.text)]
            out = []
            k = -1
            while cur:
                nxt = []
                for s, t in cur:
                    for s2, h, tail in self.split_last(s, t, ls.sep):
                        if k == i:
                            out.append((s2, tail))
                        elif h is None:
                            self.it.raise_(s2, "IndexError")
                        else:
                            nxt.append((s2, h))
                if k == i:
                    break
                cur = nxt
                k -= 1
            return out
        cur = [(st, ls.text)]
        for k in range(i):
            nxt = []
            for s, t in cur:
                for s2, h, r in self.split_first(s, t, ls.sep):
                    if r is None:
                        self.it.raise_(s2, "IndexError")
                    else:
                        nxt.append((s2, r))
            cur = nxt
        return [(s2, h) for s, t in cur for s2, h, r in self.split_first(s, t, ls.sep)]

    def split_count(self, st, ls):
        total = Lin(1)
        for s in segs_of(ls.text):
            if isinstance(s, str):
                total = lin_add(total, s.count(ls.sep))
            elif isinstance(s, Tab):
                total = lin_add(total, lin_table(s.var, tuple(
                    UNDEF if y is UNDEF else y.count(ls.sep) for y in s.img)))
        return norm_int(total)

    def str_split(self, st, x, sep, maxsplit=-1, right=False):
        if sep is None:
            f = simplify(st, x)
            if isinstance(f, str):
                return [(st, self.it.new_list(st, f.split(None, maxsplit)))]
            raise Undecided("split on blanks")
        if len(sep) == 0:
            return self.it.raise_(st, "ValueError")
        if len(sep) > 1:
            # split on a pattern that cannot straddle segments
            return self.re_split(st, PatternV(re.escape(sep), 0), x, max(maxsplit, 0))
        if maxsplit == 0:
            return [(st, self.it.new_list(st, [x]))]
        if maxsplit > 0:
            out = []
            todo = [(st, (), x)]
            while todo:
                s, acc, rest = todo.pop()
                if len(acc) == maxsplit:
                    items = (rest,) + acc if right else acc + (rest,)
                    out.append((s, self.it.new_list(s, items)))
                    continue
                if right:
                    for s2, h, t in self.split_last(s, rest, sep):
                        if h is None:
                            out.append((s2, self.it.new_list(s2, (t,) + acc)))
                        else:
                            todo.append((s2, (t,) + acc, h))
                else:
                    for s2, h, r in self.split_first(s, rest, sep):
                        if r is None:
                            out.append((s2, self.it.new_list(s2, acc + (h,))))
                        else:
                            todo.append((s2, acc + (h,), r))
            return out
        f = self.split_fixed(st, x, sep)
        if f is not None:
            return [(st, self.it.new_list(st, f))]
        return [(st, self.it.new_list(st, LSplit(x, sep)))]

    def unpack_n(self, st, v, n):
        """[(state, items or None when the count differs)]."""
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "list" and isinstance(o.data, LSplit):
                out = []
                for s, ok in self.it.compare_int(st, self.split_count(st, o.data), "Eq", n):
                    if not ok:
                        out.append((s, None))
                        continue
                    for s2, items in self.it.iterate(s, v):
                        out.append((s2, items if len(items) == n else None))
                return out
        return [
            (s, items if len(items) == n else None) for s, items in self.it.iterate(st, v)
        ]

    def unpack_star(self, st, v, k, after):
        if isinstance(v, Ref) and after == 0:
            o = self.it.obj(st, v)
            if o.kind == "list" and isinstance(o.data, LSplit):
                cur = [(st, (), o.data.text)]
                out = []
                for _ in range(k):
                    nxt = []
                    for s, acc, t in cur:
                        if t is None:
                            out.append((s, None, None))
                            continue
                        for s2, h, r in self.split_first(s, t, o.data.sep):
                            nxt.append((s2, acc + (h,), r))
                    cur = nxt
                for s, acc, t in cur:
                    if t is None:
                        rest = self.it.new_list(s, ())
                    else:
                        f = self.split_fixed(s, t, o.data.sep)
                        rest = self.it.new_list(s, f if f is not None else LSplit(t, o.data.sep))
                    out.append((s, acc, rest))
                return out
        out = []
        for s, items in self.it.iterate(st, v):
            if len(items) < k + after:
                out.append((s, None, None))
                continue
            e = len(items) - after
            out.append((s, items[:k] + items[e:], self.it.new_list(s, items[k:e])))
        return out

    # -- containers ---------------------------------------------------------
    def list_len(self, st, ref):
        d = self.it.obj(st, ref).data
        if isinstance(d, tuple):
            return [(st, len(d))]
        if isinstance(d, LSplit):
            return [(st, self.split_count(st, d))]
        if isinstance(d, DagL):
            return [(s, len(i)) for s, i in self.it.iterate(st, ref)]
        raise Undecided("length of a joined list")

    def items_of(self, st, v):
        """[(state, tuple)]"""
        return self.it.iterate(st, v)

    def getitem(self, st, o, k):
        if isinstance(o, Fin):
            out = []
            for s, x in self.it.concretise(st, o):
                out.extend(self.getitem(s, x, k))
            return self.it.merge_vals(out)
        if is_str(o):
            if isinstance(o, str) and is_int(k) and not isinstance(k, int):
                return self.pointwise(st, "index", lambda t, i: t[i], [o, k])
            out = []
            for s, i in self.split_int(st, k):
                out.extend(self.str_index(s, o, i))
            return out
        if isinstance(o, tuple):
            if not isinstance(k, int):
                if self.one_var(st, [o, k]):
                    return self.pointwise(st, "index", lambda t, i: t[i], [o, k])
            out = []
            for s, i in self.split_int(st, k):
                try:
                    out.append((s, o[i]))
                except IndexError:
                    self.it.raise_(s, "IndexError")
            return out
        if isinstance(o, ClassV):
            if o.enum:
                return self.enum_by_name(st, o, k)
            return [(st, o)]
        if isinstance(o, Builtin):
            return [(st, o)]
        if isinstance(o, RangeV):
            out = []
            for s, i in self.split_int(st, k):
                try:
                    out.append((s, o.r[i]))
                except IndexError:
                    self.it.raise_(s, "IndexError")
            return out
        if isinstance(o, MatchV):
            return self.match_group(st, o, [k])
        if isinstance(o, BytesV):
            out = []
            for s, i in self.split_int(st, k):
                n = str_len(s, o.hex)
                for s2, t in slice_str(s, o.hex, 2 * i, 2 * i + 2 if i != -1 else None):
                    out.extend(self.to_int(s2, t, 16))
            return out
        if isinstance(o, Ref):
            ob = self.it.obj(st, o)
            if ob.cls is GEN:
                return self.it.raise_(st, "TypeError")
            if ob.kind == "list":
                d = ob.data
                out = []
                for s, i in self.split_int(st, k):
                    if isinstance(d, LSplit):
                        out.extend(self.split_index(s, d, i))
                    elif isinstance(d, tuple):
                        try:
                            out.append((s, d[i]))
                        except IndexError:
                            self.it.raise_(s, "IndexError")
                    else:
                        for s2, items in self.it.iterate(s, o):
                            try:
                                out.append((s2, items[i]))
                            except IndexError:
                                self.it.raise_(s2, "IndexError")
                return out
            if ob.kind == "dict":
                return self.dict_get(st, ob, k, None)
            if ob.kind == "inst" and isinstance(ob.cls, ClassV):
                f = self.it.class_attr(st, ob.cls, "__getitem__")
                if f is not None:
                    return self.it.call(st, Bound(f, o), [k], {})
        if o is None or is_int(o):
            return self.it.raise_(st, "TypeError")
        raise Undecided(f"subscript of {type(o).__name__}")

    def str_index(self, st, x, i):
        if isinstance(x, str):
            try:
                return [(st, x[i])]
            except IndexError:
                return self.it.raise_(st, "IndexError")
        out = []
        if i >= 0:
            for s, _, r, miss in take_drop(st, x.segs, i):
                if miss:
                    self.it.raise_(s, "IndexError")
                    continue
                for s2, l, _, m2 in take_drop(s, r, 1):
                    if m2:
                        self.it.raise_(s2, "IndexError")
                    else:
                        out.append((s2, mk_str(l)))
            return out
        for s, _, r, miss in take_drop_right(st, x.segs, -i):
            if miss:
                self.it.raise_(s, "IndexError")
                continue
            for s2, l, _, m2 in take_drop(s, r, 1):
                out.append((s2, mk_str(l)))
        return out

    def enum_by_name(self, st, cls, k):
        mem = self.it.class_attr(st, cls, "__members__") or ()
        byname = {}
        ns = {}
        for c in reversed(cls.mro):
            o = st.heap.get(c.id) or self.it.base.get(c.id)
            ns.update(o.data)
        for n, v in ns.items():
            if isinstance(v, Ref) and v in mem:
                byname[n] = v
        if isinstance(k, str):
            if k in byname:
                return [(st, byname[k])]
            return self.it.raise_(st, "KeyError")
        if is_str(k) or isinstance(k, Fin):
            return self.pointwise(st, "enum name", lambda n: byname[n], [k])
        return self.it.raise_(st, "KeyError")

    def dict_get(self, st, ob, k, default):
        """default None raises KeyError; otherwise (value,)."""
        data = ob.data

        def miss(s):
            if default is None:
                return self.it.raise_(s, "KeyError")
            return [(s, default[0])]

        if isinstance(k, (str, int, Ref, ClassV, PatternV, Builtin, type(None), float)):
            r = data.get(self.it.hkey(k))
            if r is not None:
                return [(st, r[1])]
            if isinstance(k, Ref):
                o = self.it.obj(st, k)
                if o.kind == "inst" and isinstance(o.cls, ClassV) and o.cls.enum in (
                    "IntEnum", "StrEnum"
                ):
                    return self.dict_get(st, ob, o.data["_value_"], default)
            if all(self._plain(kk) for kk, _ in data.values()):
                return miss(st)
        simple = all(
            kk is None or isinstance(kk, (str, int, Ref)) or (isinstance(kk, tuple) and self._plain(kk))
            for kk, _ in data.values()
        )
        if simple and self.one_var(st, [k]) and all(
            self._table_safe(v) for _, v in data.values()
        ):
            if default is None or self._table_safe(default[0]):
                def f(x):
                    r = data.get(self.it.hkey(x))
                    if r is None:
                        if default is None:
                            raise KeyError(x)
                        return default[0]
                    return r[1]

                return self.pointwise(st, "lookup", f, [k])
        # split by key
        out = []
        cur = [st]
        for kk, vv in data.values():
            nxt = []
            for s in cur:
                for s2, eq in self.it.equal(s, kk, k):
                    (out.append((s2, vv)) if eq else nxt.append(s2))
            cur = self.it.merge_states(nxt) if len(nxt) > 1 else nxt
        for s in cur:
            out.extend(miss(s))
        return self.it.merge_vals(out)

    def _plain(self, k):
        """A key whose hash decides equality with other plain keys."""
        if isinstance(k, tuple):
            return all(self._plain(x) for x in k)
        return isinstance(k, (str, int, Ref, ClassV, PatternV, Builtin, type(None), float))

    def slots(self, st, data, k):
        """[(state, key, stored hash key or None when the key is new)]"""
        if isinstance(k, Fin):
            out = []
            for s, x in self.it.concretise(st, k):
                out.extend(self.slots(s, data, x))
            return out
        h = self.it.hkey(k)
        if h in data:
            return [(st, k, h)]
        if self._plain(k) and not isinstance(k, Ref) and all(
            self._plain(kk) for kk, _ in data.values()
        ):
            return [(st, k, None)]
        out = []
        cur = [st]
        for hk, (kk, _) in data.items():
            nxt = []
            for s in cur:
                for s2, eq in self.it.equal(s, kk, k):
                    (out.append((s2, k, hk)) if eq else nxt.append(s2))
            cur = self.it.merge_states(nxt) if len(nxt) > 1 else nxt
        out.extend((s, k, None) for s in cur)
        return out

    def _table_safe(self, v):
        return v is None or isinstance(v, (str, int, float, Ref, ClassV, Builtin, PatternV)) or (
            isinstance(v, tuple) and all(self._table_safe(x) for x in v)
        )

    def getslice(self, st, o, a, b, c):
        if isinstance(o, Fin):
            out = []
            for s, x in self.it.concretise(st, o):
                out.extend(self.getslice(s, x, a, b, c))
            return self.it.merge_vals(out)
        cur = [(st, [])]
        for x in (a, b, c):
            nxt = []
            for s, acc in cur:
                if x is None:
                    nxt.append((s, acc + [None]))
                else:
                    for s2, i in self.split_int(s, x):
                        nxt.append((s2, acc + [i]))
            cur = nxt
        out = []
        for s, (i, j, k) in cur:
            if is_str(o):
                out.extend(slice_str(s, o, i, j, k))
            elif isinstance(o, tuple):
                out.append((s, o[i:j:k]))
            elif isinstance(o, BytesV):
                if k is not None:
                    raise Undecided("bytes step")
                for s2, t in slice_str(s, o.hex, None if i is None else 2 * i,
                                       None if j is None else 2 * j):
                    out.append((s2, BytesV(t)))
            elif isinstance(o, RangeV):
                out.append((s, RangeV(o.r[i:j:k])))
            elif isinstance(o, Ref):
                out.extend(self.list_slice(s, o, i, j, k))
            elif o is None or is_int(o):
                self.it.raise_(s, "TypeError")
            else:
                raise Undecided("slice")
        return out

    def list_slice(self, st, o, i, j, k):
        ob = self.it.obj(st, o)
        if ob.kind != "list":
            raise Undecided("slice of an object")
        d = ob.data
        if isinstance(d, tuple):
            return [(st, self.it.new_list(st, d[i:j:k]))]
        if isinstance(d, LSplit) and (i is None or i >= 0) and k in (None, 1):
            if j is None:
                cur = [(st, d.text)]
                out = []
                for _ in range(i or 0):
                    nxt = []
                    for s, t in cur:
                        for s2, h, r in self.split_first(s, t, d.sep):
                            if r is None:
                                out.append((s2, self.it.new_list(s2, ())))
                            else:
                                nxt.append((s2, r))
                    cur = nxt
                for s, t in cur:
                    f = self.split_fixed(s, t, d.sep)
                    out.append((s, self.it.new_list(s, f if f is not None else LSplit(t, d.sep))))
                return out
            if j >= 0:
                cur = [(st, (), d.text)]
                out = []
                for n in range(j):
                    nxt = []
                    for s, acc, t in cur:
                        for s2, h, r in self.split_first(s, t, d.sep):
                            a2 = acc + (h,)
                            if r is None:
                                out.append((s2, self.it.new_list(s2, a2[i or 0:j])))
                            else:
                                nxt.append((s2, a2, r))
                    cur = nxt
                for s, acc, t in cur:
                    out.append((s, self.it.new_list(s, acc[i or 0:j])))
                return out
            if i in (None, 0) and j == -1:
                out = []
                for s, h, t in self.split_last(st, d.text, d.sep):
                    if h is None:
                        out.append((s, self.it.new_list(s, ())))
                    else:
                        f = self.split_fixed(s, h, d.sep)
                        out.append((s, self.it.new_list(s, f if f is not None else LSplit(h, d.sep))))
                return out
        return [
            (s, self.it.new_list(s, items[i:j:k])) for s, items in self.it.iterate(st, o)
        ]

    def setitem(self, st, o, k, v):
        if isinstance(o, Ref):
            ob = self.it.obj(st, o)
            if ob.kind == "dict":
                out = []
                for s, key, h in self.slots(st, ob.data, k):
                    d = dict(ob.data)
                    if h is None:
                        d[self.it.hkey(key)] = (key, v)
                    else:
                        d[h] = (d[h][0], v)
                    self.it.put(s, o.id, HObj("dict", ob.cls, d),
                                key if isinstance(key, str) else "item")
                    out.append(s)
                return out
            if ob.kind == "list":
                out = []
                for s, items in self.it.iterate(st, o):
                    for s2, i in self.split_int(s, k):
                        l = list(items)
                        try:
                            l[i] = v
                        except IndexError:
                            self.it.raise_(s2, "IndexError")
                            continue
                        self.it.put(s2, o.id, HObj("list", ob.cls, tuple(l)), "item")
                        out.append(s2)
                return out
        raise Undecided("item assignment")

    def delitem(self, st, o, k):
        if isinstance(o, Ref):
            ob = self.it.obj(st, o)
            if ob.kind == "dict":
                out = []
                for s, _, h in self.slots(st, ob.data, k):
                    if h is None:
                        self.it.raise_(s, "KeyError")
                        continue
                    d = dict(ob.data)
                    del d[h]
                    self.it.put(s, o.id, HObj("dict", ob.cls, d), "item")
                    out.append(s)
                return out
            if ob.kind == "list":
                out = []
                for s, items in self.it.iterate(st, o):
                    for s2, i in self.split_int(s, k):
                        l = list(items)
                        del l[i]
                        self.it.put(s2, o.id, HObj("list", ob.cls, tuple(l)), "item")
                        out.append(s2)
                return out
        raise Undecided("item deletion")

    def contains(self, st, c, x):
        if isinstance(c, Fin) or isinstance(x, Fin):
            if isinstance(x, Fin) and not isinstance(c, Fin):
                pass
            out = []
            for s, a in self.it.concretise(st, c):
                for s2, b in self.it.concretise(s, x):
                    out.extend(self.contains(s2, a, b))
            return out
        if is_str(c):
            if not is_str(x):
                return self.it.raise_(st, "TypeError")
            if isinstance(c, str) and isinstance(x, str):
                return [(st, x in c)]
            x = simplify(st, x)
            if self.one_var(st, [c, x]):
                return self.pointwise(st, "in", lambda a, b: b in a, [c, x])
            if isinstance(x, str):
                p = rx.prog("(?s:.*)" + re.escape(x) + "(?s:.*)")
                return fullmatch(st, p, c)
            if isinstance(c, str) and str_len(st, x) == 1:
                return self.contains(st, tuple(sorted(set(c))), x)
            if isinstance(c, str) and len(c) <= 40:
                subs = sorted({c[a:b] for a in range(len(c)) for b in range(a, len(c) + 1)})
                return fullmatch(st, rx.prog("|".join(re.escape(t) for t in subs)), x)
            if isinstance(c, str):
                return self.pointwise(st, "in", lambda a, b: b in a, [c, x])
            raise Undecided("substring test")
        if isinstance(c, RangeV):
            if isinstance(x, int):
                return [(st, x in c.r)]
            if isinstance(x, Lin) and c.r.step == 1:
                out = []
                for s, b in self.it.compare_int(st, x, "GtE", c.r.start):
                    if not b:
                        out.append((s, False))
                    else:
                        out.extend(self.it.compare_int(s, x, "Lt", c.r.stop))
                return out
            if isinstance(x, Lin):
                return self.pointwise(st, "in", lambda n: n in c.r, [x])
            return [(st, False)]
        items = None
        if isinstance(c, tuple):
            items = c
        elif isinstance(c, ClassV) and c.enum:
            items = self.it.class_attr(st, c, "__members__") or ()
        elif isinstance(c, Ref):
            o = self.it.obj(st, c)
            if o.kind in ("dict", "set"):
                if isinstance(x, (str, int, Ref, ClassV, PatternV, Builtin, type(None))):
                    k = self.it.hkey(x)
                    if k in o.data:
                        return [(st, True)]
                    if not isinstance(x, Ref) and all(
                        not isinstance(kk, (AStr, Lin, tuple)) for kk, _ in o.data.values()
                    ):
                        return [(st, False)]
                items = tuple(kk for kk, _ in o.data.values())
            elif o.kind == "bag":
                if is_str(o.data):
                    if not is_str(x):
                        return [(st, False)]
                    n = str_len(st, x)
                    if n == 1:
                        return self.contains(st, o.data, x)
                    raise Undecided("membership test")
                items = o.data
            elif o.kind == "list":
                if o.cls is GEN:
                    if not isinstance(o.data, tuple):
                        raise Undecided("membership test")
                    self.it.put(st, c.id, HObj("list", GEN, PARTLY), "iter")
                if isinstance(o.data, tuple):
                    items = o.data
                else:
                    out = []
                    for s, its in self.it.iterate(st, c):
                        out.extend(self.contains(s, its, x))
                    return self.it.merge_vals(out)
            elif o.kind == "inst" and isinstance(o.cls, ClassV):
                f = self.it.class_attr(st, o.cls, "__contains__")
                if f is not None:
                    return [
                        (s2, b)
                        for s, r in self.it.call(st, Bound(f, c), [x], {})
                        for s2, b in self.it.truth(s, r)
                    ]
        if items is None:
            raise Undecided("membership test")
        if all(isinstance(i, (str, int, float, type(None))) for i in items) and (
            is_str(x) or is_int(x)
        ) and self.one_var(st, [x]):
            return self.pointwise(st, "in", lambda v: v in items, [x])
        out = []
        cur = [st]
        for i in items:
            nxt = []
            for s in cur:
                for s2, eq in self.it.equal(s, i, x):
                    (out.append((s2, True)) if eq else nxt.append(s2))
            cur = self.it.merge_states(nxt) if len(nxt) > 1 else nxt
        out.extend((s, False) for s in cur)
        return self.it.merge_vals(out)

    def equal_containers(self, st, a, b):
        oa, ob = self.it.obj(st, a), self.it.obj(st, b)
        if "bag" in (oa.kind, ob.kind) and {oa.kind, ob.kind} <= {"bag", "set"}:
            out = []
            for s, r in self.subset(st, a, b):
                for s1, t in self.it.truth(s, r):
                    out.extend(self.subset(s1, b, a) if t else [(s1, False)])
            return self.it.merge_vals(out)
        if oa.kind != ob.kind:
            return [(st, False)]
        if oa.kind == "list":
            out = []
            for s, x in self.it.iterate(st, a):
                for s2, y in self.it.iterate(s, b):
                    out.extend(self.it.equal(s2, x, y))
            return out
        if oa.kind in ("dict", "set"):
            if oa.data.keys() != ob.data.keys():
                return [(st, False)]
            x = tuple(v for _, v in oa.data.values())
            y = tuple(ob.data[k][1] for k in oa.data)
            return self.it.equal(st, x, y)
        return [(st, a == b)]

    def ref_binop(self, st, op, a, b):
        name = op.__class__.__name__
        if name == "Add" and isinstance(a, Ref) and isinstance(b, Ref):
            out = []
            for s, x in self.it.iterate(st, a):
                for s2, y in self.it.iterate(s, b):
                    out.append((s2, self.it.new_list(s2, x + y)))
            return out
        if name == "Mult" and (is_int(a) or is_int(b)):
            lst, n = (a, b) if isinstance(a, Ref) else (b, a)
            out = []
            for s, x in self.it.iterate(st, lst):
                for s2, k in self.split_int(s, n):
                    out.append((s2, self.it.new_list(s2, x * k)))
            return out
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.it.obj(st, a), self.it.obj(st, b)
            if name == "BitOr" and oa.kind == ob.kind and oa.kind in ("dict", "set"):
                return [(st, self.it.alloc(st, HObj(oa.kind, None, {**oa.data, **ob.data})))]
            if self.is_set(st, a) and self.is_set(st, b):
                return self.set_op(st, name, a, b)
        dn = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Mod": "__mod__",
              "FloorDiv": "__floordiv__", "BitOr": "__or__", "BitAnd": "__and__",
              "BitXor": "__xor__"}.get(name)
        if isinstance(a, Ref) and dn:
            o = self.it.obj(st, a)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                f = self.it.class_attr(st, o.cls, dn)
                if f is not None:
                    return self.it.call(st, Bound(f, a), [b], {})
        raise Undecided(f"operator {name} of objects")

    # -- types --------------------------------------------------------------
    def type_of(self, st, v):
        if isinstance(v, bool):
            return Builtin("bool")
        if is_str(v):
            return Builtin("str")
        if is_int(v):
            return Builtin("int")
        if v is None:
            return Builtin("NoneType")
        if isinstance(v, tuple):
            return Builtin("tuple")
        if isinstance(v, float):
            return Builtin("float")
        if isinstance(v, (BytesV, bytes)):
            return Builtin("bytes")
        if isinstance(v, ExcV):
            return v.cls
        if isinstance(v, ClassV):
            return Builtin("type")
        if isinstance(v, PatternV):
            return Builtin("re.Pattern")
        if isinstance(v, MatchV):
            return Builtin("re.Match")
        if isinstance(v, RangeV):
            return Builtin("range")
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "inst":
                return o.cls
            if o.cls is GEN:
                return Builtin("generator")
            return Builtin("set" if o.kind == "bag" else o.kind)
        return Builtin("function")

    def isinst(self, st, v, c):
        if isinstance(c, tuple):
            return any(self.isinst(st, v, x) for x in c)
        t = self.type_of(st, v)
        if isinstance(c, ClassV):
            return isinstance(t, ClassV) and c in t.mro
        if isinstance(c, Builtin):
            if c.name == "object":
                return True
            if t is c:
                return True
            if c.name == "int":
                return t is Builtin("bool") or (isinstance(t, ClassV) and t.enum == "IntEnum")
            if c.name == "str":
                return isinstance(t, ClassV) and t.enum == "StrEnum"
            nm = c.name.split(".")[-1]
            if nm == "Enum":
                return isinstance(t, ClassV) and bool(t.enum)
            if nm == "IntEnum":
                return isinstance(t, ClassV) and t.enum == "IntEnum"
            if "." in c.name and not c.name.startswith("re."):
                raise Undecided("abstract base class test")
            return False
        raise Undecided("instance test")

    def issub(self, c, d):
        if isinstance(d, tuple):
            return any(self.issub(c, x) for x in d)
        if isinstance(c, ClassV) and isinstance(d, ClassV):
            return d in c.mro
        if isinstance(c, ClassV) and isinstance(d, Builtin):
            nm = d.name.split(".")[-1]
            if nm == "object":
                return True
            if nm == "Enum":
                return bool(c.enum)
            if nm == "IntEnum":
                return c.enum == "IntEnum"
            return False
        if isinstance(c, Builtin) and isinstance(d, Builtin):
            return c is d or d.name == "object" or (c.name, d.name) == ("bool", "int")
        raise Undecided("subclass test")

    def has_method(self, o, name):
        if is_str(o):
            return name in STR_PURE or name in STR_OTHER or hasattr(str, name)
        if is_int(o) or isinstance(o, bool):
            return hasattr(int, name)
        if isinstance(o, tuple):
            return hasattr(tuple, name)
        if isinstance(o, float):
            return hasattr(float, name)
        if isinstance(o, (BytesV, AsciiBytes, bytes)):
            return hasattr(bytes, name)
        if isinstance(o, PatternV):
            return hasattr(re.Pattern, name)
        if isinstance(o, MatchV):
            return hasattr(re.Match, name)
        if isinstance(o, RangeV):
            return hasattr(range, name)
        if o is None:
            return hasattr(None, name)
        return False

    # -- calls --------------------------------------------------------------
    def call(self, st, name, args, kw):
        f = getattr(self, "f_" + name.replace(".", "_"), None)
        if f is not None:
            out = f(st, *args, **kw)
            if name in LAZY or name.startswith("itertools."):
                for s, v in out:
                    if isinstance(v, Ref):
                        o = self.it.obj(s, v)
                        if o.kind == "list" and v.id not in self.it.base:
                            s.heap[v.id] = HObj("list", GEN, o.data)
                    if name not in ("itertools.islice", "itertools.takewhile"):
                        # a lazy view of an iterator: how far it is used up is not followed
                        for a in args:
                            if isinstance(a, Ref) and self.it.obj(s, a).cls is GEN:
                                self.it.put(s, a.id, HObj("list", GEN, PARTLY), "iter")
            return out
        if name == "str.maketrans":
            return [(st, args[0])] if len(args) == 1 else self._maketrans(st, args)
        head = name.split(".")[0]
        if head in ("typing", "typing_extensions", "warnings", "logging", "abc", "print"):
            return [(st, Builtin(name + "()"))]
        if head in ("str", "list", "dict", "int", "bytes", "set") and args and len(
                name.split(".")) == 2:
            if self.type_of(st, args[0]) is not Builtin(head):
                raise Undecided(f"call of {name}")
            return self.method(st, args[0], name.split(".")[1], args[1:], kw)
        if head == "math" and hasattr(math, name.split(".")[1]):
            return self.pointwise(st, name, getattr(math, name.split(".")[1]), args)
        raise Undecided(f"call of {name}")

    def f_len(self, st, v):
        if is_str(v):
            if isinstance(v, AStr) and any(isinstance(s, Opq) for s in v.segs):
                raise Undecided("length of an unknown string")
            return [(st, str_len(st, v))]
        if isinstance(v, tuple):
            return [(st, len(v))]
        if isinstance(v, RangeV):
            return [(st, len(v.r))]
        if isinstance(v, BytesV):
            n = str_len(st, v.hex)
            if isinstance(n, int):
                return [(st, n // 2)]
            raise Undecided("length of bytes")
        if isinstance(v, ClassV) and v.enum:
            return [(st, len(self.it.class_attr(st, v, "__members__") or ()))]
        if isinstance(v, Fin):
            out = []
            for s, x in self.it.concretise(st, v):
                out.extend(self.f_len(s, x))
            return self.it.merge_vals(out)
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.cls is GEN:
                return self.it.raise_(st, "TypeError")
            if o.kind == "list":
                return self.list_len(st, v)
            if o.kind in ("dict", "set"):
                return [(st, len(o.data))]
            if o.kind == "bag":
                return self.bag_len(st, v)
            if o.kind == "inst" and isinstance(o.cls, ClassV):
                f = self.it.class_attr(st, o.cls, "__len__")
                if f is not None:
                    return self.it.call(st, Bound(f, v), [], {})
        if v is None or is_int(v):
            return self.it.raise_(st, "TypeError")
        raise Undecided("len")

    def f_int(self, st, x=0, base=None):
        if base is not None:
            out = []
            for s, b in self.split_int(st, base):
                if is_str(x):
                    out.extend(self.to_int(s, x, b))
                else:
                    self.it.raise_(s, "TypeError")
            return out
        if is_str(x):
            return self.to_int(st, x, 10)
        if isinstance(x, bool):
            return [(st, int(x))]
        if is_int(x):
            return [(st, x)]
        if isinstance(x, float):
            return [(st, int(x))]
        if isinstance(x, Fin):
            if all(y is UNDEF or y is None or isinstance(y, (str, int, float)) for y in x.img):
                return self.pointwise(st, "int", int, [x])
            out = []
            for s, y in self.it.concretise(st, x):
                out.extend(self.f_int(s, y))
            return out
        if isinstance(x, Ref):
            r = self.it.as_number(st, x)
            if r[0][1] is not x:
                return r
            raise Undecided("int of an object")
        return self.it.raise_(st, "TypeError")

    def f_int_from_bytes(self, st, b, byteorder="big", signed=False):
        if isinstance(b, BytesV) and byteorder == "big" and signed is False:
            if b.hex == "":
                return [(st, 0)]
            return self.to_int(st, b.hex, 16)
        raise Undecided("from_bytes")

    def f_str(self, st, x="", encoding=None, errors=None):
        if isinstance(x, BytesV) and encoding is not None:
            return self.method(st, x, "decode", [encoding], {})
        return self.to_str(st, x)

    def f_repr(self, st, x):
        return self.repr_(st, x)

    def f_format(self, st, x, spec=""):
        return self.format_(st, x, spec)

    def f_ord(self, st, x):
        if not is_str(x):
            return self.it.raise_(st, "TypeError")
        if isinstance(x, AStr) and not self.one_var(st, [x]):
            n = str_len(st, x)
            if not isinstance(n, Lin) and n != 1:
                return self.it.raise_(st, "TypeError")
        return self.pointwise(st, ("ord",), ord, [x])

    def f_chr(self, st, x):
        x = self._num(st, x)
        return self.pointwise(st, ("chr",), chr, [x])

    def _num(self, st, x):
        if isinstance(x, Ref):
            r = self.it.as_number(st, x)
            return r[0][1]
        return x

    def f_range(self, st, *a):
        cur = [(st, [])]
        for x in a:
            cur = [(s2, acc + [i]) for s, acc in cur for s2, i in self.split_int(s, x)]
        return [(s, RangeV(range(*acc))) for s, acc in cur]

    def f_list(self, st, v=()):
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "list" and o.cls is not GEN:
                return [(st, self.it.alloc(st, HObj("list", None, o.data)))]
        return [
            (s, self.it.new_list(s, d if len(d.order) > 1 else d.edges[d.start][0][1]))
            for s, d in self.iter_graph(st, v)
        ]

    def f_tuple(self, st, v=()):
        return [(s, tuple(i)) for s, i in self.it.iterate(st, v)]

    def f_set(self, st, v=()):
        out = []
        if isinstance(v, AStr):
            return [(st, self.it.alloc(st, HObj("bag", None, v)))]
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "bag":
                return [(st, self.it.alloc(st, HObj("bag", None, o.data)))]
        for s, items in self.it.iterate(st, v):
            out.append((s, self.mk_set(s, items)))
        return out

    # A set whose members may coincide is kept as a "bag": the text or the
    # tuple of values it was made of.
    def mk_set(self, st, items):
        if not isinstance(items, (tuple, list)):
            raise Undecided("set of variable size")
        items = tuple(items)
        if any(not self.constant(i) for i in items):
            if any(isinstance(i, Fin) for i in items):
                raise Undecided("set of mixed values")
            return self.it.alloc(st, HObj("bag", None, items))
        return self.it.alloc(st, HObj("set", None, {self.it.hkey(i): (i, None) for i in items}))

    def constant(self, v):
        if isinstance(v, tuple):
            return all(self.constant(x) for x in v)
        return not isinstance(v, (AStr, Lin, Fin))

    def set_members(self, st, v):
        """[(state, members)]; members may be listed more than once."""
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "set":
                return [(st, tuple(k for k, _ in o.data.values()))]
            if o.kind == "bag":
                return self.it.iterate(st, o.data)
        return self.it.iterate(st, v)

    def is_set(self, st, v):
        return isinstance(v, Ref) and self.it.obj(st, v).kind in ("set", "bag")

    def subset(self, st, a, b):
        """[(state, bool)]: every member of a is one of b."""
        src = a
        if isinstance(a, Ref):
            o = self.it.obj(st, a)
            src = o.data if o.kind == "bag" else a
        mem = None
        if isinstance(b, Ref):
            o = self.it.obj(st, b)
            if o.kind == "set":
                mem = [k for k, _ in o.data.values()]
            elif o.kind == "list" and isinstance(o.data, tuple):
                mem = list(o.data)
        elif isinstance(b, (str, tuple)):
            mem = list(b)
        if isinstance(src, AStr) and mem is not None and all(isinstance(m, str) for m in mem):
            one = [m for m in mem if len(m) == 1]
            pat = "(?:" + "|".join(re.escape(m) for m in one) + ")*" if one else ""
            return fullmatch(st, rx.prog(pat), src)
        out = []
        for s, xs in self.set_members(st, a):
            for s0, ys in self.set_members(s, b):
                cur = [s0]
                for x in xs:
                    nxt = []
                    for s1 in cur:
                        for s2, r in self.contains(s1, tuple(ys), x):
                            for s3, t in self.it.truth(s2, r):
                                (nxt.append(s3) if t else out.append((s3, False)))
                    cur = self.it.merge_states(nxt) if len(nxt) > 1 else nxt
                out.extend((s1, True) for s1 in cur)
        return self.it.merge_vals(out)

    def ref_compare(self, st, name, a, b):
        if self.is_set(st, a) and self.is_set(st, b):
            if name in ("Gt", "GtE"):
                a, b = b, a
            out = []
            for s, r in self.subset(st, a, b):
                for s1, t in self.it.truth(s, r):
                    if not t or name in ("LtE", "GtE"):
                        out.append((s1, t))
                        continue
                    for s2, q in self.subset(s1, b, a):
                        for s3, u in self.it.truth(s2, q):
                            out.append((s3, not u))
            return self.it.merge_vals(out)
        dn = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
        rn = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
        for x, y, n in ((a, b, name), (b, a, rn[name])):
            if isinstance(x, Ref):
                o = self.it.obj(st, x)
                if o.kind == "inst" and isinstance(o.cls, ClassV):
                    f = self.it.class_attr(st, o.cls, dn[n])
                    if f is not None:
                        return self.it.call(st, Bound(f, x), [y], {})
        raise Undecided("ordering of objects")

    def set_op(self, st, name, a, b):
        """Union, intersection, difference of two collections."""
        out = []
        for s, xs in self.set_members(st, a):
            for s0, ys in self.set_members(s, b):
                if name == "BitOr":
                    out.append((s0, self.mk_set(s0, tuple(xs) + tuple(ys))))
                    continue
                if name == "BitXor":
                    raise Undecided("symmetric difference")
                cur = [(s0, ())]
                for x in xs:
                    nxt = []
                    for s1, acc in cur:
                        for s2, r in self.contains(s1, tuple(ys), x):
                            for s3, t in self.it.truth(s2, r):
                                nxt.append((s3, acc + (x,) if t == (name == "BitAnd") else acc))
                    cur = self.it.merge_vals(nxt) if len(nxt) > 1 else nxt
                    if len(cur) > 64:
                        raise Undecided("set of too many shapes")
                for s1, acc in cur:
                    out.append((s1, self.mk_set(s1, acc)))
        return out

    def bag_len(self, st, ref):
        """[(state, number of different members)]."""
        out = []
        for s, xs in self.set_members(st, ref):
            cur = [(s, ())]
            for x in xs:
                nxt = []
                for s1, acc in cur:
                    for s2, r in self.contains(s1, acc, x):
                        for s3, t in self.it.truth(s2, r):
                            nxt.append((s3, acc if t else acc + (x,)))
                cur = nxt
                if len(cur) > 64:
                    raise Undecided("size of a set")
            out.extend((s1, len(acc)) for s1, acc in cur)
        return self.it.merge_vals(out)

    f_frozenset = f_set

    def f_dict(self, st, *a, **kw):
        out = []
        if not a:
            return [(st, self.it.new_dict(st, list(kw.items())))]
        if isinstance(a[0], Ref) and self.it.obj(st, a[0]).kind == "dict":
            pairs = list(self.it.obj(st, a[0]).data.values()) + list(kw.items())
            return [(st, self.it.new_dict(st, pairs))]
        for s, items in self.it.iterate(st, a[0]):
            pairs = []
            for p in items:
                if isinstance(p, tuple) and len(p) == 2:
                    pairs.append(p)
                else:
                    q = self.it.iterate(s, p)
                    if len(q) != 1 or len(q[0][1]) != 2:
                        raise Undecided("dict of pairs")
                    pairs.append(tuple(q[0][1]))
            out.append((s, self.it.new_dict(s, pairs + list(kw.items()))))
        return out

    f_collections_OrderedDict = f_dict

    def f_types_MappingProxyType(self, st, d):
        return [(st, d)]

    def _listof(self, st, res):
        return [(s, self.it.new_list(s, d)) for s, d in res]

    def f_map(self, st, fn, *its):
        if len(its) == 1:
            out = []
            for s, dag in self.iter_graph(st, its[0]):
                r = self.map_dag(s, dag, lambda s1, v: self.it.call(s1, fn, [v], {}))
                out.extend(self._listof(st, r))
            return out
        out = []
        for s, z in self.f_zip(st, *its):
            for s2, dag in self.iter_graph(s, z):
                r = self.map_dag(s2, dag, lambda s1, v: self.it.call(s1, fn, list(v), {}))
                out.extend(self._listof(s2, r))
        return out

    def f_filter(self, st, fn, it):
        out = []
        for s, items in self.it.iterate(st, it):
            cur = [(s, ())]
            for v in items:
                nxt = []
                for s1, acc in cur:
                    res = [(s1, v)] if fn is None else self.it.call(s1, fn, [v], {})
                    for s2, r in res:
                        for s3, b in self.it.truth(s2, r):
                            nxt.append((s3, acc + (v,) if b else acc))
                cur = self.it.merge_vals(nxt) if len(nxt) > 1 else nxt
            out.extend((s2, self.it.new_list(s2, acc)) for s2, acc in cur)
        return out

    def _infinite(self, st, v):
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "inst" and isinstance(o.cls, Builtin) and o.cls.name in (
                "itertools.cycle", "itertools.repeat", "itertools.count"
            ):
                return o
        return None

    def f_zip(self, st, *its, strict=False):
        refs = [v for v in its if isinstance(v, Ref)]
        if len(set(refs)) < len(refs):
            shared = {v for v in refs if refs.count(v) > 1
                      and (self.it.obj(st, v).kind == "inst" or self.it.obj(st, v).cls is GEN)}
            if shared:
                if len(set(its)) > 1:
                    raise Undecided("zip of a shared iterator")
                n = len(its)
                return [
                    (s, self.it.new_list(s, tuple(
                        tuple(items[k:k + n]) for k in range(0, len(items) // n * n, n))))
                    for s, items in self.it.iterate(st, its[0])
                ]
        fin = [v for v in its if self._infinite(st, v) is None]
        if not fin or strict and len(fin) < len(its):
            raise Undecided("endless zip")
        if len(fin) == 1:
            # keep the shape of the only finite argument
            out = []
            for s, dag in self.iter_graph(st, fin[0]):
                if len(dag.order) == 1:
                    items = dag.edges[dag.start][0][1]
                    out.append((s, self.it.new_list(s, self._zip_rows(s, its, {id(fin[0]): items}))))
                else:
                    for s2, items in self.it.paths(s, dag):
                        out.append((s2, self.it.new_list(s2, self._zip_rows(s2, its, {id(fin[0]): items}))))
            return out
        cur = [(st, {})]
        for v in fin:
            cur = [
                (s2, {**m, id(v): items})
                for s, m in cur
                for s2, items in self.it.iterate(s, v)
            ]
        if strict:
            for s, m in cur:
                if len({len(x) for x in m.values()}) > 1:
                    self.it.raise_(s, "ValueError")
            cur = [(s, m) for s, m in cur if len({len(x) for x in m.values()}) == 1]
        return [(s, self.it.new_list(s, self._zip_rows(s, its, m))) for s, m in cur]

    def _zip_rows(self, st, its, m):
        n = min(len(x) for x in m.values())
        cols = []
        for v in its:
            if id(v) in m:
                cols.append(m[id(v)][:n])
                continue
            o = self._infinite(st, v)
            if o.cls.name != "itertools.repeat":
                if "used" in o.data:
                    raise Undecided("iterator used in part")
                self.it.put(st, v.id, HObj("inst", o.cls, {**o.data, "used": True}), "iter")
            if o.cls.name == "itertools.cycle":
                it = o.data["items"]
                cols.append([it[k % len(it)] for k in range(n)])
            elif o.cls.name == "itertools.repeat":
                cols.append([o.data["items"][0]] * n)
            else:
                a, d = o.data["items"]
                cols.append([a + d * k for k in range(n)])
        return tuple(tuple(c[k] for c in cols) for k in range(n))

    def f_itertools_cycle(self, st, v):
        return [
            (s, self.it.alloc(s, HObj("inst", Builtin("itertools.cycle"), {"items": tuple(i)})))
            for s, i in self.it.iterate(st, v)
        ]

    def f_itertools_repeat(self, st, v, times=None):
        if times is not None:
            return [(s, self.it.new_list(s, (v,) * n)) for s, n in self.split_int(st, times)]
        return [(st, self.it.alloc(st, HObj("inst", Builtin("itertools.repeat"), {"items": (v,)})))]

    def f_itertools_count(self, st, a=0, d=1):
        return [(st, self.it.alloc(st, HObj("inst", Builtin("itertools.count"), {"items": (a, d)})))]

    def f_itertools_chain(self, st, *its):
        cur = [(st, ())]
        for v in its:
            cur = [(s2, acc + tuple(i)) for s, acc in cur for s2, i in self.it.iterate(s, v)]
        return [(s, self.it.new_list(s, acc)) for s, acc in cur]

    def f_itertools_chain_from_iterable(self, st, v):
        out = []
        for s, items in self.it.iterate(st, v):
            out.extend(self.f_itertools_chain(s, *items))
        return out

    def f_itertools_islice(self, st, v, *a):
        cur = [(st, [])]
        for x in a:
            if x is None:
                cur = [(s, acc + [None]) for s, acc in cur]
            else:
                cur = [(s2, acc + [i]) for s, acc in cur for s2, i in self.split_int(s, x)]
        out = []
        for s, acc in cur:
            sl = slice(*acc)
            for s2, items in self.it.iterate(s, v):
                items = tuple(items)
                k = sl.indices(len(items))[1]
                self.put_back(s2, v, items[max(k, sl.indices(len(items))[0]):])
                out.append((s2, self.it.new_list(s2, items[sl])))
        return out

    def put_back(self, st, v, rest):
        """What an iterator still has to give."""
        if not isinstance(v, Ref):
            return
        o = self.it.obj(st, v)
        if o.cls is GEN:
            self.it.put(st, v.id, HObj("list", GEN, tuple(rest)), "iter")

    def f_itertools_takewhile(self, st, fn, v, drop=False):
        out = []
        for s, items in self.it.iterate(st, v):
            cur = [(s, 0)]
            done = []
            for k, x in enumerate(items):
                nxt = []
                for s1, _ in cur:
                    for s2, r in self.it.call(s1, fn, [x], {}):
                        for s3, b in self.it.truth(s2, r):
                            (nxt.append((s3, k + 1)) if b else done.append((s3, k)))
                cur = nxt
            for s1, k in done + [(s1, len(items)) for s1, _ in cur]:
                if not drop:
                    self.put_back(s1, v, items[k + 1:])
                out.append((s1, self.it.new_list(s1, items[k:] if drop else items[:k])))
        return out

    def f_itertools_dropwhile(self, st, fn, v):
        return self.f_itertools_takewhile(st, fn, v, drop=True)

    def f_itertools_starmap(self, st, fn, v):
        out = []
        for s, dag in self.iter_graph(st, v):
            r = self.map_dag(s, dag, lambda s1, t: [
                y for s2, a in self.it.iterate(s1, t)
                for y in self.it.call(s2, fn, list(a), {})])
            out.extend(self._listof(s, r))
        return out

    def f_itertools_product(self, st, *its, repeat=1):
        import itertools

        its = its * repeat

        cur = [(st, ())]
        for v in its:
            cur = [(s2, acc + (tuple(i),)) for s, acc in cur for s2, i in self.it.iterate(s, v)]
        return [(s, self.it.new_list(s, tuple(itertools.product(*acc)))) for s, acc in cur]

    def f_itertools_zip_longest(self, st, *its, fillvalue=None):
        import itertools

        cur = [(st, ())]
        for v in its:
            cur = [(s2, acc + (tuple(i),)) for s, acc in cur for s2, i in self.it.iterate(s, v)]
        return [
            (s, self.it.new_list(s, tuple(itertools.zip_longest(*acc, fillvalue=fillvalue))))
            for s, acc in cur
        ]

    def f_itertools_accumulate(self, st, v, func=None):
        out = []
        for s, items in self.it.iterate(st, v):
            cur = [(s, ())]
            for x in items:
                nxt = []
                for s1, acc in cur:
                    if not acc:
                        nxt.append((s1, (x,)))
                        continue
                    if func is None:
                        import ast

                        res = self.it.binop(s1, ast.Add(), acc[-1], x)
                    else:
                        res = self.it.call(s1, func, [acc[-1], x], {})
                    nxt.extend((s2, acc + (r,)) for s2, r in res)
                cur = nxt
            out.extend((s1, self.it.new_list(s1, acc)) for s1, acc in cur)
        return out

    def f_enumerate(self, st, v, start=0):
        out = []
        for s, n in self.split_int(st, start):
            for s2, items in self.it.iterate(s, v):
                out.append((s2, self.it.new_list(s2, tuple(
                    (n + k, x) for k, x in enumerate(items)))))
        return out

    def f_reversed(self, st, v):
        if isinstance(v, RangeV):
            return [(st, RangeV(v.r[::-1]))]
        return [(s, self.it.new_list(s, tuple(i)[::-1])) for s, i in self.it.iterate(st, v)]

    def f_sorted(self, st, v, key=None, reverse=False):
        out = []
        for s, items in self.it.iterate(st, v):
            keys = items
            if key is not None:
                keys = []
                for x in items:
                    r = self.it.call(s, key, [x], {})
                    if len(r) != 1 or r[0][0] is not s:
                        raise Undecided("sort key")
                    keys.append(r[0][1])
            from .interp import concrete

            if not all(concrete(k) for k in keys):
                raise Undecided("sort of unknown values")
            order = sorted(range(len(items)), key=lambda k: keys[k], reverse=bool(reverse))
            out.append((s, self.it.new_list(s, tuple(items[k] for k in order))))
        return out

    def f_sum(self, st, v, start=0):
        import ast

        out = []
        for s, dag in self.iter_graph(st, v):
            at = {dag.start: [(s, start)]}
            for node in dag.order:
                cur0 = at.pop(node, [])
                if len(cur0) > 1:
                    cur0 = self.it.merge_vals(cur0)
                for guard, values, nxt in dag.edges[node]:
                    cur = []
                    for s1, acc in cur0:
                        s2 = s1.clone() if guard else s1
                        for var, m in guard.items():
                            s2 = restrict_var(s2, var, m)
                            if s2 is None:
                                break
                        if s2 is not None:
                            cur.append((s2, acc))
                    for x in values:
                        cur = [
                            r for s1, acc in cur for r in self.it.binop(s1, ast.Add(), acc, x)
                        ]
                    if nxt is None:
                        out.extend(cur)
                    else:
                        at.setdefault(nxt, []).extend(cur)
        return out

    def _minmax(self, st, args, key, default, name):
        import ast

        if len(args) == 1:
            src = self.it.iterate(st, args[0])
        else:
            src = [(st, tuple(args))]
        op = ast.Lt() if name == "min" else ast.Gt()
        out = []
        for s, items in src:
            if not items:
                if default:
                    out.append((s, default[0]))
                else:
                    self.it.raise_(s, "ValueError")
                continue
            ks = items
            if key is not None:
                ks = []
                for x in items:
                    r = self.it.call(s, key, [x], {})
                    if len(r) != 1:
                        raise Undecided("key function")
                    ks.append(r[0][1])
            cur = [(s, items[0], ks[0])]
            for x, k in zip(items[1:], ks[1:]):
                nxt = []
                for s1, b, bk in cur:
                    for s2, r in self.it.compare(s1, op, k, bk):
                        for s3, t in self.it.truth(s2, r):
                            nxt.append((s3, x, k) if t else (s3, b, bk))
                cur = nxt
            out.extend((s1, b) for s1, b, _ in cur)
        return out

    def f_min(self, st, *a, key=None, **kw):
        return self._minmax(st, a, key, (kw["default"],) if "default" in kw else (), "min")

    def f_max(self, st, *a, key=None, **kw):
        return self._minmax(st, a, key, (kw["default"],) if "default" in kw else (), "max")

    def _anyall(self, st, v, want):
        out = []
        gen = isinstance(v, Ref) and self.it.obj(st, v).cls is GEN
        for s, items in self.it.iterate(st, v):
            if gen:
                self.it.put(s, v.id, HObj("list", GEN, PARTLY), "iter")
            cur = [s]
            for x in items:
                nxt = []
                for s1 in cur:
                    for s2, b in self.it.truth(s1, x):
                        (out.append((s2, want)) if b == want else nxt.append(s2))
                cur = self.it.merge_states(nxt) if len(nxt) > 1 else nxt
            out.extend((s1, not want) for s1 in cur)
        return self.it.merge_vals(out)

    def f_any(self, st, v):
        return self._anyall(st, v, True)

    def f_all(self, st, v):
        return self._anyall(st, v, False)

    def f_isinstance(self, st, v, c):
        if isinstance(v, Fin):
            out = []
            for s, x in self.it.concretise(st, v):
                out.append((s, self.isinst(s, x, c)))
            return self.it.merge_vals(out)
        return [(st, self.isinst(st, v, c))]

    def f_issubclass(self, st, c, d):
        return [(st, self.issub(c, d))]

    def f_callable(self, st, v):
        return [(st, isinstance(v, (FuncV, Bound, Builtin, BMethod, ClassV, Wrapped)))]

    def f_hasattr(self, st, o, name):
        self.it.collect.append([])
        try:
            r = self.it.getattr(st, o, name)
        finally:
            ex = self.it.collect.pop()
        out = [(s, True) for s, _ in r]
        for s, e in ex:
            if e.cls.name == "AttributeError":
                out.append((s, False))
            else:
                self.it.collect[-1].append((s, e))
        return out

    def f_getattr(self, st, o, name, *d):
        out = []
        for s, n in self.concrete_str(st, name):
            if not d:
                out.extend(self.it.getattr(s, o, n))
                continue
            self.it.collect.append([])
            try:
                r = self.it.getattr(s, o, n)
            finally:
                ex = self.it.collect.pop()
            out.extend(r)
            for s2, e in ex:
                if e.cls.name == "AttributeError":
                    out.append((s2, d[0]))
                else:
                    self.it.collect[-1].append((s2, e))
        return out

    def f_setattr(self, st, o, name, v):
        self.it.setattr(st, o, name, v)
        return [(st, None)]

    def f_type(self, st, v, *a):
        if a:
            raise Undecided("class creation")
        return [(st, self.type_of(st, v))]

    def f_abs(self, st, x):
        x = self._num(st, x)
        if isinstance(x, Lin):
            lo, hi = bounds(st, x)
            if lo >= 0:
                return [(st, x)]
        return self.pointwise(st, "abs", abs, [x])

    def f_pow(self, st, a, b, m=None):
        import ast

        if m is None:
            return self.it.binop(st, ast.Pow(), a, b)
        return self.pointwise(st, "pow", pow, [a, b, m])

    def f_divmod(self, st, a, b):
        import ast

        out = []
        for s, q in self.it.binop(st, ast.FloorDiv(), a, b):
            for s2, r in self.it.binop(s, ast.Mod(), a, b):
                out.append((s2, (q, r)))
        return out

    def f_round(self, st, x, n=None):
        if is_int(x) and n is None:
            return [(st, x)]
        return self.pointwise(st, "round", round if n is not None else (lambda v, _: round(v)), [x, n])

    def f_bool(self, st, x=False):
        return self.it.truth(st, x)

    def f_float(self, st, x=0.0):
        return self.pointwise(st, "float", float, [x])

    def f_print(self, st, *a, **kw):
        return [(st, None)]

    def f_hash(self, st, v):
        raise Undecided("hash")

    def f_id(self, st, v):
        raise Undecided("id")

    def f_iter(self, st, v, *until):
        if until:
            out, cur = [], [(st, ())]
            for _ in range(400):
                nxt = []
                for s, acc in cur:
                    for s2, x in self.it.call(s, v, [], {}):
                        for s3, end in self.it.equal(s2, x, until[0]):
                            (out if end else nxt).append((s3, acc if end else acc + (x,)))
                cur = nxt
                if not cur:
                    return [(s, self.it.new_gen(s, i)) for s, i in out]
            raise Undecided("endless iterator")
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.cls is GEN:
                return [(st, v)]
        return [(s, self.it.new_gen(s, tuple(i))) for s, i in self.it.iterate(st, v)]

    def f_next(self, st, v, *d):
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.cls is GEN:
                out = []
                for s, items in self.it.iterate(st, v):
                    if items:
                        self.it.put(s, v.id, HObj("list", GEN, tuple(items[1:])), "iter")
                        out.append((s, items[0]))
                    elif d:
                        out.append((s, d[0]))
                    else:
                        self.it.raise_(s, "StopIteration")
                return out
        raise Undecided("next")

    def f_bin(self, st, x):
        return [(s, concat("0b", t)) for s, t in self._based(st, x, 2)]

    def f_hex(self, st, x):
        return [(s, concat("0x", t)) for s, t in self._based(st, x, 16)]

    def f_oct(self, st, x):
        return [(s, concat("0o", t)) for s, t in self._based(st, x, 8)]

    def _based(self, st, x, base):
        x = self._num(st, x)
        if not is_int(x):
            return self.it.raise_(st, "TypeError")
        return self.digits_text(st, x, base, 0)

    def f_object(self, st):
        return [(st, self.it.alloc(st, HObj("inst", self.it.object_cls, {})))]

    def f_object___init_subclass__(self, st, **kw):
        if kw:
            return self.it.raise_(st, "TypeError")
        return [(st, None)]

    def f_object___init__(self, st, *a, **kw):
        return [(st, None)]

    def f_property(self, st, fn):
        return [(st, Wrapped("property", fn))]

    def f_dataclasses_dataclass(self, st, *a, **kw):
        return [(st, Wrapped("dataclass", kw))]

    def f_dataclasses_field(self, st, **kw):
        return [(st, Wrapped("field", kw))]

    def f_object___setattr__(self, st, o, name, v):
        ob = self.it.obj(st, o)
        self.it.put(st, o.id, HObj("inst", ob.cls, {**ob.data, name: v}), name)
        return [(st, None)]

    def f_collections_namedtuple(self, st, name, fields, **kw):
        from .interp import fresh_id

        if isinstance(fields, str):
            names = fields.replace(",", " ").split()
        else:
            (st, names), = self.it.iterate(st, fields)
        if not all(isinstance(n, str) for n in names):
            raise Undecided("named tuple fields")
        cls = ClassV(name, (self.it.object_cls,), st.frames[-1]["__mod__"].name, fresh_id(), None)
        cls.mro = (cls, self.it.object_cls)
        cls.named = True
        defs = ()
        if kw.get("defaults") is not None:
            (st, dv), = self.it.iterate(st, kw["defaults"])
            defs = tuple(zip(names[len(names) - len(dv):], dv))
        self.it.put(st, cls.id, HObj("ns", None, {
            "_fields": tuple(names), "__ntdefaults__": defs}), name)
        return [(st, cls)]

    f_typing_namedtuple = f_collections_namedtuple

    def f_functools_cached_property(self, st, fn):
        return [(st, Wrapped("cached_property", fn))]

    def f_collections_defaultdict(self, st, *a, **kw):
        raise Undecided("default dictionary")

    def f_classmethod(self, st, fn):
        return [(st, Wrapped("classmethod", fn))]

    def f_staticmethod(self, st, fn):
        return [(st, Wrapped("staticmethod", fn))]

    def f_abc_abstractmethod(self, st, fn):
        return [(st, fn)]

    def f_typing_cast(self, st, t, v):
        return [(st, v)]

    def f_typing_overload(self, st, fn):
        return [(st, fn)]

    def f_typing_no_type_check(self, st, fn):
        return [(st, fn)]

    def f_functools_lru_cache(self, st, *a, **kw):
        if a and isinstance(a[0], (FuncV, Wrapped)):
            ref = self.it.alloc(st, HObj("dict", None, {}))
            return [(st, Wrapped("cache", a[0], ref))]
        return [(st, Builtin("functools.cache"))]

    def f_functools_cache(self, st, fn):
        ref = self.it.alloc(st, HObj("dict", None, {}))
        return [(st, Wrapped("cache", fn, ref))]

    def f_functools_wraps(self, st, fn, *a, **kw):
        return [(st, Wrapped("wraps", fn))]

    def f_functools_partial(self, st, fn, *a, **kw):
        return [(st, Wrapped("partial", (fn, tuple(a), kw)))]

    def f_functools_reduce(self, st, fn, v, *init):
        out = []
        for s, dag in self.iter_graph(st, v):
            for s1, items in ([(s, dag.edges[dag.start][0][1])] if len(dag.order) == 1
                              else self.it.paths(s, dag)):
                items = tuple(init) + tuple(items)
                if not items:
                    self.it.raise_(s1, "TypeError")
                    continue
                cur = [(s1, items[0])]
                for x in items[1:]:
                    cur = [r for s2, acc in cur for r in self.it.call(s2, fn, [acc, x], {})]
                    if len(cur) > 1:
                        cur = self.it.merge_vals(cur)
                out.extend(cur)
        return out

    def _operator(name):  # noqa: N805
        def f(self, st, a, b):
            import ast

            return self.it.binop(st, getattr(ast, name)(), a, b)

        return f

    f_operator_add = _operator("Add")
    f_operator_sub = _operator("Sub")
    f_operator_mul = _operator("Mult")
    f_operator_mod = _operator("Mod")
    f_operator_floordiv = _operator("FloorDiv")

    def _cmp(name):  # noqa: N805
        def f(self, st, a, b):
            import ast

            return self.it.compare(st, getattr(ast, name)(), a, b)

        return f

    f_operator_eq = _cmp("Eq")
    f_operator_ne = _cmp("NotEq")
    f_operator_lt = _cmp("Lt")
    f_operator_le = _cmp("LtE")
    f_operator_gt = _cmp("Gt")
    f_operator_ge = _cmp("GtE")

    def f_contextlib_suppress(self, st, *a):
        return [(st, Wrapped("suppress", tuple(a)))]

    def f_contextlib_contextmanager(self, st, fn):
        if not isinstance(fn, FuncV):
            raise Undecided("context manager")
        return [(st, Wrapped("contextmanager", fn))]

    def f_operator_attrgetter(self, st, *names):
        if any(not isinstance(n, str) or "." in n for n in names):
            raise Undecided("attribute path")
        return [(st, Wrapped("attrgetter", names))]

    def f_enum_auto(self, st):
        return [(st, Builtin("enum.auto"))]

    def f_collections_deque(self, st, v=(), maxlen=None):
        if maxlen is not None:
            raise Undecided("bounded queue")
        return self.f_list(st, v)

    def f_itertools_pairwise(self, st, v):
        return [(s, self.it.new_list(s, tuple(zip(i, i[1:])))) for s, i in self.it.iterate(st, v)]

    def f_itertools_batched(self, st, v, n):
        if not isinstance(n, int) or n < 1:
            raise Undecided("batch size")
        return [(s, self.it.new_list(s, tuple(tuple(i[k:k + n]) for k in range(0, len(i), n))))
                for s, i in self.it.iterate(st, v)]

    def f_itertools_compress(self, st, v, sel):
        out = []
        for s, i in self.it.iterate(st, v):
            for s2, j in self.it.iterate(s, sel):
                if not all(isinstance(x, (bool, int, str)) for x in j):
                    raise Undecided("selectors")
                out.append((s2, self.it.new_list(s2, tuple(x for x, y in zip(i, j) if y))))
        return out

    def f_textwrap_wrap(self, st, x, width=70, **kw):
        if kw or not isinstance(width, int) or width < 1:
            raise Undecided("wrapping")
        for s in segs_of(x):
            if isinstance(s, str):
                chars = s
            elif isinstance(s, Tab):
                chars = "".join(y for y in s.img if y is not UNDEF)
            elif isinstance(s, Num):
                chars = "0"
            else:
                raise Undecided("wrapping of unknown text")
            if not chars.isalnum():
                raise Undecided("wrapping at blanks")
        return [(s, self.it.new_list(s, parts)) for s, parts in self.chunks(st, x, width)]

    def f_bytes(self, st, v=()):
        if isinstance(v, (BytesV, AsciiBytes, bytes)):
            return [(st, v)]
        if is_int(v) or is_str(v):
            raise Undecided("bytes")
        out = []
        for s, items in self.it.iterate(st, v):
            cur = [(s, "")]
            for x in items:
                nxt = []
                for s2, acc in cur:
                    for s3, ok in self.it.compare(s2, ast.LtE(), x, 255):
                        low, high = bounds(s3, x) if ok else (0, 0)
                        if low < 0:
                            raise Undecided("byte values")
                        if not ok:
                            self.it.raise_(s3, "ValueError")
                            continue
                        for s4, t in self.format_(s3, x, "02x"):
                            nxt.append((s4, concat(acc, t)))
                cur = nxt
            out.extend((s2, BytesV(h)) for s2, h in cur)
        return out

    def f_bytearray(self, st, v=()):
        if isinstance(v, (BytesV, AsciiBytes, bytes)) or is_int(v) or is_str(v):
            raise Undecided("byte array")
        return self.f_list(st, v)

    def f_dict_fromkeys(self, st, keys, value=None):
        return [(s, self.it.new_dict(s, [(k, value) for k in items]))
                for s, items in self.it.iterate(st, keys)]

    def f_dataclasses_replace(self, st, o, **kw):
        ob = self.it.obj(st, o)
        fields = [n for n, _ in self.it.class_attr(st, ob.cls, "__dcfields__")]
        return self.it.call(st, ob.cls, [], {**{n: ob.data[n] for n in fields}, **kw})

    def f_copy_copy(self, st, o):
        if isinstance(o, Ref):
            ob = self.it.obj(st, o)
            if ob.kind in ("list", "dict", "set", "inst") and ob.cls is not GEN and not isinstance(
                    ob.cls, Builtin):
                return [(st, self.it.alloc(st, HObj(ob.kind, ob.cls, dict(ob.data) if isinstance(
                    ob.data, dict) else ob.data)))]
            raise Undecided("copy")
        return [(st, o)]

    def f_urllib_parse_unquote(self, st, x, encoding="utf-8", errors="replace"):
        from urllib.parse import unquote

        if encoding != "utf-8" or errors != "replace":
            raise Undecided("unquote")
        if isinstance(x, str):
            return [(st, unquote(x))]
        p = PatternV("%[0-7][0-9A-Fa-f]|(?:%[89A-Fa-f][0-9A-Fa-f])+", 0)
        return self.re_sub(st, p, Builtin("unquoted"), x)

    def f_unquoted(self, st, m):
        from urllib.parse import unquote

        out = []
        for s, t in self.match_group(st, m, 0):
            out.extend(self.pointwise(s, "unquote", unquote, [t]))
        return out

    def f_urllib_parse_quote(self, st, x, safe="/", encoding=None, errors=None):
        from urllib.parse import quote

        if not isinstance(safe, str) or encoding is not None or errors is not None:
            raise Undecided("quote")
        return self._charwise(st, x, lambda t: quote(t, safe=safe))

    # -- bytes and base64 -----------------------------------------------------
    def f_bytes_fromhex(self, st, h):
        if isinstance(h, str):
            try:
                return [(st, BytesV(bytes.fromhex(h).hex()))]
            except ValueError:
                return self.it.raise_(st, "ValueError")
        out = []
        for s, ok in fullmatch(st, rx.prog("([0-9a-fA-F]{2})*"), h):
            if ok:
                out.append((s, BytesV(self._lower(s, h))))
                continue
            if all(not (isinstance(x, (Opq, Rep))) for x in segs_of(h)):
                for s2, b in fullmatch(s, rx.prog("[0-9a-fA-F]*"), h):
                    if b:
                        self.it.raise_(s2, "ValueError")
                    else:
                        for s3, sp in fullmatch(s2, rx.prog(r"(?s:.*\s.*)"), h):
                            if sp:
                                raise Undecided("blanks in hexadecimal text")
                            self.it.raise_(s3, "ValueError")
                continue
            raise Undecided("hexadecimal text")
        return out

    f_bytearray_fromhex = f_bytes_fromhex
    f_binascii_unhexlify = f_bytes_fromhex

    def f_binascii_hexlify(self, st, b):
        if not isinstance(b, BytesV):
            raise Undecided("hexlify")
        return self.str_encode(st, self._lower(st, b.hex), ["ascii"])

    def _lower(self, st, x):
        return mk_str([
            s.lower() if isinstance(s, str)
            else Num(s.lin, s.base, s.width) if isinstance(s, Num)
            else mk_tab(s.var, tuple(y if y is UNDEF else y.lower() for y in s.img))
            if isinstance(s, Tab) else s
            for s in segs_of(x)
        ])

    def _alphabet(self, altchars):
        if altchars is None:
            return False
        h = altchars.hex if isinstance(altchars, BytesV) else None
        if isinstance(altchars, bytes):
            h = altchars.hex()
        if isinstance(altchars, AsciiBytes) and isinstance(altchars.text, str):
            h = altchars.text.encode("ascii").hex()
        if h in ("2d5f", "2b2f"):
            return h == "2d5f"
        raise Undecided("base64 argument")

    def f_base64_b64encode(self, st, b, altchars=None):
        url = self._alphabet(altchars)
        if not isinstance(b, BytesV):
            raise Undecided("base64 argument")
        n = str_len(st, b.hex)
        if isinstance(n, Lin):
            raise Undecided("bytes of unknown length")
        if isinstance(b.hex, str):
            import base64

            f = base64.urlsafe_b64encode if url else base64.b64encode
            return [(st, BytesV(f(bytes.fromhex(b.hex)).hex()))]
        nb = n // 2
        out = []
        for s, v in self.digits_int(st, b.hex, 16):
            nd = -(-nb * 8 // 6)
            shift = nd * 6 - nb * 8
            t = mk_str([Num(as_lin(lin_mul(v, 1 << shift)), 64, nd, url), "=" * (-nd % 4)])
            out.append((s, AsciiBytes(t)))
        return out

    f_base64_standard_b64encode = f_base64_b64encode

    def f_base64_urlsafe_b64encode(self, st, b):
        return self.f_base64_b64encode(st, b, BytesV("2d5f"))

    def f_base64_encodebytes(self, st, b):
        out = []
        for s, r in self.f_base64_b64encode(st, b):
            if isinstance(r, BytesV):
                r = AsciiBytes(bytes.fromhex(r.hex).decode("ascii")) if isinstance(
                    r.hex, str) else r
            if not isinstance(r, AsciiBytes):
                raise Undecided("base64 lines")
            n = str_len(s, r.text)
            if isinstance(n, Lin):
                raise Undecided("base64 lines of unknown length")
            cur = [(s, [])]
            for k in range(0, n, 76):
                cur = [(s2, segs + [t, "\n"]) for s1, segs in cur
                       for s2, t in slice_str(s1, r.text, k, min(n, k + 76))]
            for s2, segs in cur:
                out.append((s2, AsciiBytes(mk_str(
                    [y for x in segs for y in (segs_of(x) if not isinstance(x, str) else [x])]))))
        return out

    def f_binascii_b2a_base64(self, st, b, newline=True):
        out = []
        for s, r in self.f_base64_b64encode(st, b):
            t = r.text if isinstance(r, AsciiBytes) else bytes.fromhex(r.hex).decode("ascii")
            out.append((s, AsciiBytes(mk_str(list(segs_of(t)) + (["\n"] if newline else [])))))
        return out

    def f_base64_urlsafe_b64decode(self, st, x):
        return self.f_base64_b64decode(st, x, BytesV("2d5f"))

    def f_base64_b64decode(self, st, x, altchars=None, validate=False):
        import base64
        import binascii

        url = self._alphabet(altchars)
        alt = b"-_" if url else None
        if isinstance(x, AsciiBytes):
            x = x.text
        elif isinstance(x, BytesV):
            raise Undecided("base64 of bytes")
        if isinstance(x, str):
            try:
                return [(st, BytesV(base64.b64decode(x, alt, validate=bool(validate)).hex()))]
            except binascii.Error:
                return self.it.raise_(st, "binascii.Error")
            except ValueError:
                return self.it.raise_(st, "ValueError")
        if any(isinstance(s, (Opq, Rep)) for s in x.segs):
            raise Undecided("base64 text")
        segs = list(x.segs)
        pad = 0
        while segs and isinstance(segs[-1], str):
            t = segs[-1].rstrip("=")
            pad += len(segs[-1]) - len(t)
            if t:
                segs[-1] = t
                break
            segs.pop()
        y = mk_str(segs)
        out = []
        for s, ok in fullmatch(st, rx.prog("[A-Za-z0-9_-]*" if url else "[A-Za-z0-9+/]*"), y):
            if not ok:
                # text outside ASCII is refused, other foreign characters dropped
                z = simplify(s, y)
                if self.one_var(s, [z]) and not isinstance(z, str):
                    for s2, r in self._b64_points(s, z, pad, alt):
                        out.append((s2, r))
                    continue
                for s2, asc in fullmatch(s, rx.prog("[\\x00-\\x7f]*"), y):
                    if asc:
                        raise Undecided("foreign characters in base64 text")
                    self.it.raise_(s2, "ValueError")
                continue
            n = str_len(s, y)
            for s2, k in self.split_int(s, n):
                if k % 4 == 1 or (k + pad) % 4 and pad + k % 4 < 4 and k % 4:
                    self.it.raise_(s2, "binascii.Error")
                    continue
                nb = k * 6 // 8
                drop = k * 6 - nb * 8
                if nb == 0:
                    out.append((s2, BytesV("")))
                    continue
                v = digits_value(s2, segs_of(y), B64U if url else B64)
                if v is None:
                    raise Undecided("base64 digits")
                from .dom import lin_div

                v = lin_div(s2, v, 1 << drop)
                for s3, h in self.digits_text(s2, as_lin(v), 16, 2 * nb):
                    out.append((s3, BytesV(h)))
        return out

    f_base64_standard_b64decode = f_base64_b64decode

    def _b64_points(self, st, z, pad, alt=None):
        import base64

        def f(t):
            return base64.b64decode(t + "=" * pad, alt).hex()

        return [(s, BytesV(h)) for s, h in self.pointwise(st, "b64decode", f, [z])]

    # -- regular expressions ----------------------------------------------------
    def f_re_compile(self, st, p, flags=0):
        if isinstance(p, PatternV):
            return [(st, p)]
        out = []
        for s, t in self.concrete_str(st, p):
            try:
                rx.prog(t, flags)
            except re.error:
                self.it.raise_(s, "Exception")
                continue
            except Undecided:
                pass
            self.patterns.setdefault((t, int(flags)), self.it.where)
            out.append((s, PatternV(t, flags)))
        return out

    def f_re_escape(self, st, x):
        return self.pointwise(st, "escape", re.escape, [x])

    def _pat(self, st, p, flags=0):
        if isinstance(p, PatternV):
            return p
        if isinstance(p, AStr):
            p = simplify(st, p)
        if isinstance(p, str):
            self.patterns.setdefault((p, int(flags)), self.it.where)
            return PatternV(p, flags)
        raise Undecided("pattern must be known")

    def f_re_fullmatch(self, st, p, x, flags=0):
        return self.re_match(st, self._pat(st, p, flags), x, "fullmatch")

    def f_re_match(self, st, p, x, flags=0):
        return self.re_match(st, self._pat(st, p, flags), x, "match")

    def f_re_search(self, st, p, x, flags=0):
        return self.re_match(st, self._pat(st, p, flags), x, "search")

    def f_re_split(self, st, p, x, maxsplit=0, flags=0):
        return self.re_split(st, self._pat(st, p, flags), x, maxsplit)

    def f_re_findall(self, st, p, x, flags=0):
        return self.re_findall(st, self._pat(st, p, flags), x)

    def f_re_finditer(self, st, p, x, flags=0):
        return self.re_findall(st, self._pat(st, p, flags), x, True)

    def f_re_sub(self, st, p, repl, x, count=0, flags=0):
        return self.re_sub(st, self._pat(st, p, flags), repl, x, count)

    def member_prog(self, p, mode):
        if mode == "fullmatch":
            return rx.prog(p.pattern, p.flags)
        body = "(?:" + p.pattern + ")"
        if re.search(r"\(\?[aiLmsux]+\)", p.pattern):
            raise Undecided("inline flags")
        if mode == "match":
            return rx.prog(body + "(?s:.*)", p.flags)
        return rx.prog("(?s:.*?)" + body + "(?s:.*)", p.flags)

    def re_match(self, st, p, x, mode):
        if isinstance(x, Fin):
            out = []
            for s, y in self.it.concretise(st, x):
                out.extend(self.re_match(s, p, y, mode))
            return out
        if not is_str(x):
            return self.it.raise_(st, "TypeError")
        prog = self.member_prog(p, mode)
        out = []
        for s, ok in fullmatch(st, prog, x):
            out.append((s, MatchV(("lazy", p, x, mode), None) if ok else None))
        return out

    def match_spans(self, st, m):
        """[(state, groups tuple of text or None, spans tuple of (lin, lin) | None)]"""
        if m.groups[0] == "got":
            return [(st, m.groups[1], m.groups[2])]
        _, p, x, mode = m.groups
        prog = rx.prog(p.pattern, p.flags)
        out = []
        u = Units(st, x)
        for s, kind, data in scan(st, prog, u, (0, 0), mode):
            if kind != "match":
                continue
            out.append((s,) + self._groups(s, prog, u, data))
        return out

    def _groups(self, st, prog, u, data):
        start, end, caps = data
        texts = [u.text(start, end)]
        spans = [(start, end)]
        for g in range(1, prog.groups + 1):
            a, b = caps[2 * g], caps[2 * g + 1]
            if a is None or b is None:
                texts.append(None)
                spans.append(None)
            else:
                texts.append(u.text(a, b))
                spans.append((a, b))
        return tuple(texts), LazySpans(st, u, spans)

    def match_group(self, st, m, idx):
        out = []
        names = self._group_names(m)
        for s, texts, _ in self.match_spans(st, m):
            vals = []
            bad = False
            for i in idx or [0]:
                if isinstance(i, str):
                    if i not in names:
                        bad = True
                        break
                    i = names[i]
                if not isinstance(i, int):
                    raise Undecided("group index")
                if i >= len(texts):
                    bad = True
                    break
                vals.append(texts[i])
            if bad:
                self.it.raise_(s, "IndexError")
                continue
            out.append((s, vals[0] if len(vals) == 1 else tuple(vals)))
        return out

    def _group_names(self, m):
        if m.groups[0] == "got":
            return m.names or {}
        import re._parser as sp

        p = m.groups[1]
        return dict(sp.parse(p.pattern, p.flags).state.groupdict)

    def m_match(self, st, m, name, args, kw):
        if name == "group":
            return self.match_group(st, m, args)
        if name == "groups":
            d = args[0] if args else kw.get("default")
            return [
                (s, tuple(d if t is None else t for t in texts[1:]))
                for s, texts, _ in self.match_spans(st, m)
            ]
        if name == "groupdict":
            names = self._group_names(m)
            return [
                (s, self.it.new_dict(s, [(n, texts[i]) for n, i in names.items()]))
                for s, texts, _ in self.match_spans(st, m)
            ]
        if name in ("start", "end", "span"):
            g = args[0] if args else 0
            out = []
            for s, texts, spans in self.match_spans(st, m):
                sp = spans[g]
                if sp is None:
                    sp = (-1, -1)
                out.append((s, sp if name == "span" else sp[0 if name == "start" else 1]))
            return out
        raise Undecided(f"match method {name}")

    def _fixed_width(self, p):
        import re._parser as sp

        a, b = sp.parse(p.pattern, p.flags).getwidth()
        return int(a) if a == b and a > 0 else None

    def _chunk_matches(self, st, p, x):
        """Pieces when every aligned chunk matches a fixed width pattern."""
        w = self._fixed_width(p)
        if w is None or isinstance(x, str):
            return None
        prog = rx.prog(p.pattern, p.flags)
        if prog.groups > 1:
            return None
        if prog.groups == 1 and not re.fullmatch(r"\((?!\?).*\)", p.pattern, re.S):
            return None
        try:
            res = self.chunks(st, x, w)
        except Undecided:
            return None
        out = []
        for s, pieces in res:
            full = pieces
            tail = ""
            if pieces:
                n = str_len(s, pieces[-1])
                if isinstance(n, Lin):
                    return None
                if n < w:
                    full, tail = pieces[:-1], pieces[-1]
            for c in full:
                r = fullmatch(s, prog, c)
                if len(r) != 1 or not r[0][1]:
                    return None
            out.append((s, full, tail))
        return out

    def re_dag(self, st, p, x, emit, maxsplit=0):
        """Build the graph of successive matches.

        emit(groups, spans, lead text) gives the values of one match;
        the last edge carries emit(None, None, rest).
        """
        prog = rx.prog(p.pattern, p.flags)
        u = Units(st, x)
        start = (0, 0)
        edges = {}
        todo = [((start, 0), None)]
        nodes = {}
        queue = [(start, 0)]
        nodes[(start, 0)] = True
        order = []
        while queue:
            queue.sort()
            node = queue.pop(0)
            pos, cnt = node
            order.append(node)
            es = []
            if maxsplit and cnt >= maxsplit:
                es.append(({}, emit(st, None, None, u.text(pos, (len(u.u), 0))), None))
                edges[node] = es
                continue
            for s, kind, data in scan(st, prog, u, pos, "search"):
                gd = {v: m for v, m in s.dom.items() if st.mask(v) != m}
                if s.cons != st.cons:
                    raise Undecided("pattern position with conditions")
                if kind == "none":
                    es.append((gd, emit(s, None, None, u.text(pos, (len(u.u), 0))), None))
                    continue
                a, b, caps = data
                if a == b:
                    raise Undecided("empty pattern match")
                texts, spans = self._groups(s, prog, u, data)
                nxt = (u.norm(s, b), cnt + 1 if maxsplit else 0)
                es.append((gd, emit(s, texts, spans, u.text(pos, a)), nxt))
                if nxt not in nodes:
                    nodes[nxt] = True
                    queue.append(nxt)
            edges[node] = es
            if len(order) > 400:
                raise Undecided("too many pattern positions")
        return DagL((start, 0), edges, order)

    def _dag_list(self, st, dag):
        # a chain without guards is an ordinary list
        node = dag.start
        items = ()
        while node is not None:
            es = dag.edges[node]
            if len(es) != 1 or es[0][0]:
                return self.it.new_list(st, dag)
            items += tuple(es[0][1])
            node = es[0][2]
        return self.it.new_list(st, items)

    def re_split(self, st, p, x, maxsplit=0):
        out = []
        if not isinstance(maxsplit, int):
            raise Undecided("maxsplit")
        if not is_str(x):
            return self.it.raise_(st, "TypeError")
        if isinstance(x, str):
            try:
                r = re.split(p.pattern, x, maxsplit=maxsplit, flags=p.flags)
            except re.error:
                return self.it.raise_(st, "Exception")
            return [(st, self.it.new_list(st, r))]
        prog = rx.prog(p.pattern, p.flags)
        if not maxsplit:
            ch = self._chunk_matches(st, p, x)
            if ch is not None:
                for s, full, tail in ch:
                    items = []
                    for c in full:
                        items += ["", c] if prog.groups else [""]
                    items.append(tail)
                    out.append((s, self.it.new_list(s, items)))
                return out

        def emit(s, texts, spans, lead):
            if texts is None:
                return (lead,)
            return (lead,) + tuple(texts[1:])

        return [(st, self._dag_list(st, self.re_dag(st, p, x, emit, maxsplit)))]

    def re_findall(self, st, p, x, matches=False):
        if not is_str(x):
            return self.it.raise_(st, "TypeError")
        prog = rx.prog(p.pattern, p.flags)
        if isinstance(x, str) and not matches:
            r = re.findall(p.pattern, x, p.flags)
            return [(st, self.it.new_list(st, r))]
        if not matches:
            ch = self._chunk_matches(st, p, x)
            if ch is not None:
                return [(s, self.it.new_list(s, full)) for s, full, tail in ch]
        import re._parser as sp

        names = dict(sp.parse(p.pattern, p.flags).state.groupdict)

        def emit(s, texts, spans, lead):
            if texts is None:
                return ()
            if matches:
                return (MatchV(("got", texts, spans), names),)
            if prog.groups == 0:
                return (texts[0],)
            g = tuple("" if t is None else t for t in texts[1:])
            return (g[0],) if len(g) == 1 else (g,)

        return [(st, self._dag_list(st, self.re_dag(st, p, x, emit)))]

    def re_sub(self, st, p, repl, x, count=0):
        if not is_str(x):
            return self.it.raise_(st, "TypeError")
        if not isinstance(count, int):
            raise Undecided("count")
        prog = rx.prog(p.pattern, p.flags)
        if isinstance(x, str) and isinstance(repl, str):
            return [(st, re.sub(p.pattern, repl, x, count=count, flags=p.flags))]
        if isinstance(repl, str):
            import re._parser as sp

            tmpl = sp.parse_template(repl, re.compile(p.pattern, p.flags))
        elif is_str(repl):
            raise Undecided("replacement text")
        else:
            tmpl = None
        import re._parser as sp

        names = dict(sp.parse(p.pattern, p.flags).state.groupdict)
        u = Units(st, x)
        done = []
        at = {((0, 0), 0): [(st, "")]}
        guard = 0
        while at:
            key = min(at)
            pos, cnt = key
            cur = at.pop(key)
            if len(cur) > 1:
                cur = self.it.merge_vals(cur)
            guard += 1
            if guard > 3000:
                raise Undecided("substitution too long")
            for s, acc in cur:
                if count and cnt >= count:
                    done.append((s, concat(acc, u.text(pos, (len(u.u), 0)))))
                    continue
                for s2, kind, data in scan(s, prog, u, pos, "search", idle_cut=True):
                    if s2 is s:
                        s2 = s.clone()
                    if kind == "none":
                        done.append((s2, concat(acc, u.text(pos, (len(u.u), 0)))))
                    elif kind == "idle":
                        q = (data, 0)
                        at.setdefault((q, cnt), []).append((s2, concat(acc, u.text(pos, q))))
                    else:
                        a, b, caps = data
                        if a == b:
                            raise Undecided("empty pattern match")
                        texts, spans = self._groups(s2, prog, u, data)
                        lead = concat(acc, u.text(pos, a))
                        if tmpl is not None:
                            t = ""
                            for part in tmpl:
                                if isinstance(part, int):
                                    t = concat(t, texts[part] or "")
                                else:
                                    t = concat(t, part)
                            res = [(s2, t)]
                        else:
                            res = self.it.call(
                                s2, repl, [MatchV(("got", texts, spans), names)], {})
                        nk = (u.norm(s2, b), cnt + 1 if count else 0)
                        for s3, t in res:
                            if not is_str(t):
                                self.it.raise_(s3, "TypeError")
                                continue
                            at.setdefault(nk, []).append((s3, concat(lead, t)))
        return self.it.merge_vals(done)

    # -- methods --------------------------------------------------------------
    def method(self, st, o, name, args, kw):
        if isinstance(o, Fin):
            out = []
            for s, x in self.it.concretise(st, o):
                out.extend(self.method(s, x, name, args, kw))
            return self.it.merge_vals(out)
        if is_str(o):
            return self.m_str(st, o, name, args, kw)
        if isinstance(o, PatternV):
            return self.m_pattern(st, o, name, args, kw)
        if isinstance(o, MatchV):
            return self.m_match(st, o, name, args, kw)
        if isinstance(o, AsciiBytes):
            if name == "decode":
                return [(st, o.text)]
            raise Undecided(f"bytes method {name}")
        if isinstance(o, BytesV):
            return self.m_bytes(st, o, name, args, kw)
        if is_int(o) or isinstance(o, bool):
            return self.m_int(st, o, name, args, kw)
        if isinstance(o, tuple):
            return self.m_tuple(st, o, name, args, kw)
        if isinstance(o, Wrapped):
            if name in ("cache_clear",) and o.cache is not None:
                self.it.put(st, o.cache.id, HObj("dict", None, {}), "cache")
                return [(st, None)]
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                if name == "setter":
                    return [(st, Wrapped("property", o.fn, args[0]))]
                if name == "getter":
                    return [(st, Wrapped("property", args[0], o.cache))]
                return [(st, o)]
            raise Undecided(f"attribute {name} of a wrapped function")
        if isinstance(o, float):
            if name == "is_integer":
                return [(st, o.is_integer())]
        if isinstance(o, Ref):
            ob = self.it.obj(st, o)
            f = getattr(self, "m_" + ob.kind, None)
            if ob.kind == "bag":
                f = self.m_set
            if f is not None and ob.kind in ("list", "dict", "set", "bag"):
                return f(st, o, ob, name, args, kw)
        raise Undecided(f"method {name} of {type(o).__name__}")

    def m_int(self, st, o, name, args, kw):
        if name == "bit_length":
            if isinstance(o, int):
                return [(st, o.bit_length())]
            out = []
            for s, zero in self.it.compare_int(st, o, "Eq", 0):
                if zero:
                    out.append((s, 0))
                else:
                    out.extend((s2, str_len(s2, t)) for s2, t in self.digits_text(s, o, 2, 0))
            return out
        if name == "to_bytes":
            length = args[0] if args else kw.get("length", 1)
            order = args[1] if len(args) > 1 else kw.get("byteorder", "big")
            if order != "big" or kw.get("signed"):
                raise Undecided("byte order")
            out = []
            for s, n in self.split_int(st, length):
                lo, hi = bounds(s, as_lin(o))
                if hi >= 1 << (8 * n):
                    over = assume_range(s, as_lin(o), 1 << (8 * n), None)
                    if over is not None:
                        self.it.raise_(over, "OverflowError")
                    s = assume_range(s, as_lin(o), None, (1 << (8 * n)) - 1)
                    if s is None:
                        continue
                for s2, h in self.digits_text(s, o, 16, 2 * n):
                    out.append((s2, BytesV(h if n else "")))
            return out
        raise Undecided(f"int method {name}")

    def m_tuple(self, st, o, name, args, kw):
        if name == "index":
            return self._index(st, o, args[0])
        if name == "count":
            cur = [(st, 0)]
            for x in o:
                cur = [(s2, n + int(b)) for s, n in cur for s2, b in self.it.equal(s, x, args[0])]
            return cur
        if isinstance(o, NTup):
            fields = self.it.class_attr(st, o.kind, "_fields")
            if name == "_replace":
                return [(st, NTup(o.kind, [kw.get(f, v) for f, v in zip(fields, o)]))]
            if name == "_asdict":
                return [(st, self.it.new_dict(st, list(zip(fields, o))))]
        raise Undecided(f"tuple method {name}")

    def _index(self, st, items, x):
        out = []
        cur = [st]
        for k, i in enumerate(items):
            nxt = []
            for s in cur:
                for s2, b in self.it.equal(s, i, x):
                    (out.append((s2, k)) if b else nxt.append(s2))
            cur = nxt
        for s in cur:
            self.it.raise_(s, "ValueError")
        return out

    def m_bytes(self, st, o, name, args, kw):
        if name == "hex" and not args:
            return [(st, o.hex)]
        if name == "decode":
            if isinstance(o.hex, str):
                try:
                    return [(st, bytes.fromhex(o.hex).decode(*(args or ["utf-8"])))]
                except UnicodeDecodeError:
                    return self.it.raise_(st, "UnicodeDecodeError")
            enc = args[0] if args else "utf-8"
            out = []
            for s, pieces in self.chunks(st, o.hex, 2):
                cur = [(s, "")]
                for c in pieces:
                    nxt = []
                    for s1, acc in cur:
                        for s2, t in self.pointwise(
                            s1, "decode", lambda h: bytes.fromhex(h).decode("ascii"), [c]
                        ):
                            nxt.append((s2, concat(acc, t)))
                    cur = nxt
                out.extend(cur)
            return out
        raise Undecided(f"bytes method {name}")

    def m_pattern(self, st, o, name, args, kw):
        if len(args) > 1 and name in ("match", "fullmatch", "search", "findall", "finditer"):
            raise Undecided("pattern position argument")
        if name in ("match", "fullmatch", "search"):
            return self.re_match(st, o, args[0] if args else kw["string"], name)
        if name == "split":
            return self.re_split(st, o, args[0], args[1] if len(args) > 1 else kw.get("maxsplit", 0))
        if name == "findall":
            return self.re_findall(st, o, args[0])
        if name == "finditer":
            return self.re_findall(st, o, args[0], True)
        if name == "sub":
            return self.re_sub(st, o, args[0], args[1], args[2] if len(args) > 2 else kw.get("count", 0))
        raise Undecided(f"pattern method {name}")

    def m_list(self, st, ref, ob, name, args, kw):
        d = ob.data

        def put(s, items):
            self.it.put(s, ref.id, HObj("list", ob.cls, items), "list")

        if name in ("popleft", "appendleft"):
            if ob.cls is GEN:
                raise Undecided("queue")
            if name == "popleft":
                return self.m_list(st, ref, ob, "pop", [0], kw)
            return self.m_list(st, ref, ob, "insert", [0] + list(args), kw)
        if name == "append":
            if isinstance(d, CatL):
                if not is_str(args[0]):
                    raise Undecided("append")
                put(st, CatL(concat(d.cat, args[0])))
                return [(st, None)]
            if isinstance(d, tuple):
                put(st, d + (args[0],))
                return [(st, None)]
        if name == "copy":
            return [(st, self.it.alloc(st, HObj("list", None, d)))]
        if name == "clear":
            put(st, ())
            return [(st, None)]
        if name == "extend":
            out = []
            for s, new in self.it.iterate(st, args[0]):
                cur = self.it.obj(s, ref).data
                if isinstance(cur, CatL):
                    c = cur.cat
                    for x in new:
                        c = concat(c, x)
                    put(s, CatL(c))
                elif isinstance(cur, tuple):
                    put(s, cur + tuple(new))
                else:
                    raise Undecided("extend")
                out.append((s, None))
            return out
        out = []
        for s, items in self.it.iterate(st, ref):
            items = tuple(items)
            if name in ("append",):
                put(s, items + (args[0],))
                out.append((s, None))
            elif name == "insert":
                for s2, i in self.split_int(s, args[0]):
                    l = list(items)
                    l.insert(i, args[1])
                    put(s2, tuple(l))
                    out.append((s2, None))
            elif name == "pop":
                for s2, i in self.split_int(s, args[0] if args else -1):
                    if not items:
                        self.it.raise_(s2, "IndexError")
                        continue
                    l = list(items)
                    v = l.pop(i)
                    put(s2, tuple(l))
                    out.append((s2, v))
            elif name == "reverse":
                put(s, items[::-1])
                out.append((s, None))
            elif name == "index":
                out.extend(self._index(s, items, args[0]))
            elif name == "count":
                out.extend(self.m_tuple(s, items, "count", args, kw))
            elif name == "remove":
                for s2, k in self._index(s, items, args[0]):
                    put(s2, items[:k] + items[k + 1:])
                    out.append((s2, None))
            elif name == "sort":
                for s2, r in self.f_sorted(s, items, **kw):
                    put(s2, self.it.obj(s2, r).data)
                    out.append((s2, None))
            else:
                raise Undecided(f"list method {name}")
        return out

    def m_dict(self, st, ref, ob, name, args, kw):
        d = ob.data
        if name == "get":
            return self.dict_get(st, ob, args[0], (args[1] if len(args) > 1 else None,))
        if name == "items":
            return [(st, self.it.new_list(st, tuple(d.values())))]
        if name == "keys":
            return [(st, self.it.new_list(st, tuple(k for k, _ in d.values())))]
        if name == "values":
            return [(st, self.it.new_list(st, tuple(v for _, v in d.values())))]
        if name == "copy":
            return [(st, self.it.alloc(st, HObj("dict", None, dict(d))))]
        if name == "update":
            new = dict(d)
            if args:
                o2 = self.it.obj(st, args[0])
                new.update(o2.data)
            for k, v in kw.items():
                new[k] = (k, v)
            self.it.put(st, ref.id, HObj("dict", ob.cls, new), "update")
            return [(st, None)]
        if name in ("setdefault", "pop"):
            out = []
            for s, k, hk in self.slots(st, d, args[0]):
                if hk is not None:
                    if name == "pop":
                        new = dict(d)
                        del new[hk]
                        self.it.put(s, ref.id, HObj("dict", ob.cls, new), "pop")
                    out.append((s, d[hk][1]))
                elif name == "pop":
                    if len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        self.it.raise_(s, "KeyError")
                else:
                    v = args[1] if len(args) > 1 else None
                    self.it.put(s, ref.id, HObj(
                        "dict", ob.cls, {**d, self.it.hkey(k): (k, v)}), "setdefault")
                    out.append((s, v))
            return out
        raise Undecided(f"dict method {name}")

    def m_set(self, st, ref, ob, name, args, kw):
        d = ob.data
        if name == "add" and ob.kind == "set":
            out = []
            for s, k, hk in self.slots(st, d, args[0]):
                if hk is None:
                    self.it.put(s, ref.id, HObj("set", None, {**d, self.it.hkey(k): (k, None)}), "add")
                out.append((s, None))
            return out
        if name == "issuperset":
            return self.subset(st, args[0], ref)
        if name == "issubset":
            return self.subset(st, ref, args[0])
        if name == "isdisjoint":
            return [
                (s2, not b)
                for s, r in self.set_op(st, "BitAnd", ref, args[0])
                for s2, b in self.it.truth(s, r)
            ]
        if name in ("union", "intersection", "difference") and len(args) == 1:
            op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name]
            return self.set_op(st, op, ref, args[0])
        if name == "copy":
            return [(st, self.it.alloc(st, HObj(ob.kind, None, d)))]
        raise Undecided(f"set method {name}")

    # -- str methods ------------------------------------------------------------
    def m_str(self, st, x, name, args, kw):
        from .interp import concrete

        if name == "join":
            return self.str_join(st, x, args[0])
        if name in ("split", "rsplit"):
            sep = args[0] if args else kw.get("sep")
            ms = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            if sep is not None and not isinstance(sep, str):
                sep = simplify(st, sep)
                if not isinstance(sep, str):
                    raise Undecided("separator")
            out = []
            for s, n in self.split_int(st, ms):
                out.extend(self.str_split(s, x, sep, n, name == "rsplit"))
            return out
        if name == "format":
            return self.str_format(st, x, args, kw)
        if name == "maketrans":
            return [(st, args[0])] if len(args) == 1 else self._maketrans(st, args)
        if name == "splitlines" and isinstance(x, str):
            return [(st, self.it.new_list(st, x.splitlines()))]
        if name in ("partition", "rpartition"):
            return self.str_partition(st, x, args[0], name == "rpartition")
        if name == "translate":
            return self.str_translate(st, x, args[0])
        if name == "encode":
            return self.str_encode(st, x, args)
        if isinstance(x, str) and all(concrete(a) for a in args) and not kw:
            try:
                return [(st, getattr(x, name)(*args))]
            except (ValueError, TypeError, AttributeError) as e:
                return self.it.raise_(st, type(e).__name__)
        if name in CHAR_PREDS:
            if any(isinstance(s, Opq) for s in segs_of(x)):
                return fullmatch(st, pred_prog(name), x)
            if self.one_var(st, [x]):
                return self.pointwise(st, name, lambda t: getattr(t, name)(), [x])
            return fullmatch(st, pred_prog(name), x)
        if name in CHAR_MAPS:
            segs = []
            for s in segs_of(x):
                if isinstance(s, str):
                    segs.append(getattr(s, name)())
                elif isinstance(s, Tab):
                    segs.append(mk_tab(s.var, tuple(
                        y if y is UNDEF else getattr(y, name)() for y in s.img)))
                elif isinstance(s, Num):
                    if s.base == 16 and name in ("upper", "lower", "casefold"):
                        segs.append(Num(s.lin, 16, s.width, name == "upper"))
                    elif s.base <= 10:
                        segs.append(s)
                    else:
                        segs.extend(
                            t if isinstance(t, str) and False else self._cmap(t, name)
                            for t in num_cells(st, s))
                else:
                    raise Undecided("letter case of unknown text")
            return [(st, mk_str(segs))]
        if name in ("startswith", "endswith"):
            return self.str_affix(st, x, name, args)
        if name == "replace":
            cnt = args[2] if len(args) > 2 else kw.get("count", -1)
            return self.str_replace(st, x, args[0], args[1], cnt)
        if name == "zfill":
            out = []
            for s, w in self.split_int(st, args[0]):
                out.extend(self.str_zfill(s, x, w))
            return out
        if name in ("rjust", "ljust", "center"):
            fill = args[1] if len(args) > 1 else " "
            out = []
            for s, w in self.split_int(st, args[0]):
                out.extend(self.pad(s, x, w, fill, {"rjust": ">", "ljust": "<", "center": "c"}[name]))
            return out
        if name in ("strip", "lstrip", "rstrip"):
            return self.str_strip(st, x, name, args)
        if name in ("find", "index", "rfind", "rindex") and len(args) == 1:
            return self.str_find(st, x, args[0], name)
        if name in ("find", "index", "rfind", "rindex") and len(args) in (2, 3) \
                and isinstance(args[0], str) and args[0] \
                and (len(args[0]) == 1 or not name.startswith("r")):
            out = []
            for s, i in self.split_int(st, args[1]):
                for s1, j in self.split_int(s, args[2]) if len(args) == 3 else [(s, None)]:
                    if i < 0:
                        raise Undecided("find from the end")
                    for s2, part in slice_str(s1, x, i, j):
                        for s3, at in self.str_find(s2, part, args[0], name):
                            out.append((s3, -1 if at.__class__ is int and at == -1
                                        else lin_add_norm(at, i)))
            return out
        if name == "count" and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            return [(st, lin_add_norm(self.split_count(st, LSplit(x, args[0])), -1))]
        if name in ("removeprefix", "removesuffix"):
            out = []
            aff = "startswith" if name == "removeprefix" else "endswith"
            if not isinstance(args[0], str):
                raise Undecided("affix")
            n = len(args[0])
            for s, r in self.str_affix(st, x, aff, args):
                for s2, b in self.it.truth(s, r):
                    if b and n:
                        out.extend(slice_str(s2, x, n, None) if aff == "startswith"
                                   else slice_str(s2, x, None, -n))
                    else:
                        out.append((s2, x))
            return out
        if name in STR_PURE:
            return self.pointwise(st, name, lambda t, *a: getattr(t, name)(*a), [x] + list(args))
        if not hasattr(str, name):
            return self.it.raise_(st, "AttributeError")
        raise Undecided(f"str method {name}")

    def _cmap(self, t, name):
        if isinstance(t, str):
            return getattr(t, name)()
        return mk_tab(t.var, tuple(y if y is UNDEF else getattr(y, name)() for y in t.img))

    def _maketrans(self, st, args):
        if not all(isinstance(a, str) for a in args):
            raise Undecided("maketrans")
        d = str.maketrans(*args)
        return [(st, self.it.new_dict(st, list(d.items())))]

    def str_translate(self, st, x, table):
        o = self.it.obj(st, table)
        d = {}
        for k, v in o.data.values():
            if isinstance(k, str):
                k = ord(k)
            if isinstance(v, int):
                v = chr(v)
            if not (v is None or isinstance(v, str)):
                raise Undecided("translate")
            d[k] = v
        return self._charwise(st, x, lambda t: t.translate(d))

    def _charwise(self, st, x, f):
        """Apply a character homomorphism."""
        segs = []
        for s in segs_of(x):
            if isinstance(s, str):
                segs.append(f(s))
            elif isinstance(s, Tab):
                segs.append(mk_tab(s.var, tuple(y if y is UNDEF else f(y) for y in s.img)))
            elif isinstance(s, Num):
                if all(f(c) == c for c in s.digits()):
                    segs.append(s)
                else:
                    for t in num_cells(st, s):
                        segs.append(f(t) if isinstance(t, str) else mk_tab(
                            t.var, tuple(y if y is UNDEF else f(y) for y in t.img)))
            elif isinstance(s, Rep):
                if all(f(c) == c for c in s.chars):
                    segs.append(s)
                else:
                    raise Undecided("replacement inside a run")
            else:
                raise Undecided("replacement in unknown text")
        return [(st, mk_str(segs))]

    def str_replace(self, st, x, old, new, count=-1):
        old = simplify(st, old) if is_str(old) else old
        new = simplify(st, new) if is_str(new) else new
        if isinstance(old, str) and isinstance(new, str) and count == -1:
            if len(old) == 1:
                return self._charwise(st, x, lambda t: t.replace(old, new))
            if old == "":
                raise Undecided("replace of nothing")
            return self._replace_scan(st, x, old, new)
        if isinstance(old, str) and isinstance(new, str) and isinstance(count, int) and count >= 0:
            return self._replace_scan(st, x, old, new, count)
        return self.pointwise(st, "replace", lambda a, b, c: a.replace(b, c), [x, old, new])

    def _replace_scan(self, st, x, old, new, count=0):
        repl = new.replace("\\", "\\\\")
        return self.re_sub(st, PatternV(re.escape(old), 0), repl, x, count)

    def str_zfill(self, st, x, width):
        n = str_len(st, x)
        lo, hi = bounds(st, as_lin(n))
        if lo >= width:
            return [(st, x)]
        out = []
        for s, signed in fullmatch(st, rx.prog("(?s:[-+].*)"), x):
            if signed:
                for s2, k in self.split_int(s, str_len(s, x)):
                    for s3, a in slice_str(s2, x, 0, 1):
                        for s4, b in slice_str(s3, x, 1, None):
                            out.append((s4, concat(concat(a, "0" * max(0, width - k)), b)))
            else:
                out.extend(self.pad(s, x, width, "0", ">"))
        return out

    def str_strip(self, st, x, name, args):
        if any(isinstance(s, (Opq, Rep)) for s in segs_of(x)):
            raise Undecided("strip of unknown text")
        chars = args[0] if args else None
        if chars is not None and not isinstance(chars, str):
            raise Undecided("strip set")

        def hit(c):
            return c.isspace() if chars is None else c in chars

        cur = [(st, x)]
        if name in ("strip", "lstrip"):
            cur = [r for s, t in cur for r in self._strip_left(s, t, hit)]
        if name in ("strip", "rstrip"):
            nxt = []
            for s, t in cur:
                if isinstance(t, str):
                    nxt.append((s, t.rstrip(chars)))
                    continue
                nxt.extend(self._strip_right(s, t, hit))
            cur = nxt
        return cur

    def _strip_left(self, st, x, hit):
        out = []
        todo = [(st, x)]
        while todo:
            s, t = todo.pop()
            if isinstance(t, str):
                k = 0
                while k < len(t) and hit(t[k]):
                    k += 1
                out.append((s, t[k:]))
                continue
            seg = t.segs[0]
            if isinstance(seg, str):
                k = 0
                while k < len(seg) and hit(seg[k]):
                    k += 1
                if k < len(seg):
                    out.append((s, mk_str((seg[k:],) + t.segs[1:])))
                else:
                    todo.append((s, mk_str(t.segs[1:])))
                continue
            if isinstance(seg, Num):
                todo.append((s, mk_str(tuple(num_cells(s, seg)) + t.segs[1:])))
                if all(not hit(c) for c in seg.digits()):
                    todo.pop()
                    out.append((s, t))
                continue
            full = part = 0
            for i in bits(s.mask(seg.var)):
                y = seg.img[i]
                if y is UNDEF:
                    continue
                if all(hit(c) for c in y):
                    full |= 1 << i
                else:
                    part |= 1 << i
            if part:
                s2 = restrict_var(s, seg.var, part)
                if s2 is not None:
                    def cut(y):
                        k = 0
                        while k < len(y) and hit(y[k]):
                            k += 1
                        return y[k:]

                    out.append((s2, mk_str((mk_tab(seg.var, tuple(
                        y if y is UNDEF else cut(y) for y in seg.img)),) + t.segs[1:])))
            if full:
                s2 = restrict_var(s, seg.var, full)
                if s2 is not None:
                    todo.append((s2, mk_str(t.segs[1:])))
            if len(todo) + len(out) > 300:
                raise Undecided("strip forks too much")
        return out

    def _strip_right(self, st, x, hit):
        out = []
        todo = [(st, x)]
        while todo:
            s, t = todo.pop()
            if isinstance(t, str):
                k = len(t)
                while k and hit(t[k - 1]):
                    k -= 1
                out.append((s, t[:k]))
                continue
            seg = t.segs[-1]
            if isinstance(seg, str):
                k = len(seg)
                while k and hit(seg[k - 1]):
                    k -= 1
                if k:
                    out.append((s, mk_str(t.segs[:-1] + (seg[:k],))))
                else:
                    todo.append((s, mk_str(t.segs[:-1])))
                continue
            if isinstance(seg, Num):
                if all(not hit(c) for c in seg.digits()):
                    out.append((s, t))
                else:
                    todo.append((s, mk_str(t.segs[:-1] + tuple(num_cells(s, seg)))))
                continue
            full = part = 0
            for i in bits(s.mask(seg.var)):
                y = seg.img[i]
                if y is UNDEF:
                    continue
                if all(hit(c) for c in y):
                    full |= 1 << i
                else:
                    part |= 1 << i
            if part:
                s2 = restrict_var(s, seg.var, part)
                if s2 is not None:
                    def cut(y):
                        k = len(y)
                        while k and hit(y[k - 1]):
                            k -= 1
                        return y[:k]

                    out.append((s2, mk_str(t.segs[:-1] + (mk_tab(seg.var, tuple(
                        y if y is UNDEF else cut(y) for y in seg.img)),))))
            if full:
                s2 = restrict_var(s, seg.var, full)
                if s2 is not None:
                    todo.append((s2, mk_str(t.segs[:-1])))
            if len(todo) + len(out) > 300:
                raise Undecided("strip forks too much")
        return out

    def str_affix(self, st, x, name, args):
        p = args[0]
        if isinstance(p, Fin):
            out = []
            for s, y in self.it.concretise(st, p):
                out.extend(self.str_affix(s, x, name, [y] + list(args[1:])))
            return out
        if len(args) > 1:
            if name == "startswith" and len(args) == 2:
                out = []
                for s, n in self.split_int(st, args[1]):
                    for s2, y in slice_str(s, x, n, None):
                        out.extend(self.str_affix(s2, y, name, [p]))
                return out
            raise Undecided("affix position")
        ps = p if isinstance(p, tuple) else (p,)
        ps = tuple(simplify(st, q) if isinstance(q, AStr) else q for q in ps)
        if all(isinstance(q, str) for q in ps):
            alt = "|".join(re.escape(q) for q in ps)
            pat = f"(?:{alt})(?s:.*)" if name == "startswith" else f"(?s:.*)(?:{alt})"
            return fullmatch(st, rx.prog(pat), x)
        if len(ps) == 1 and is_str(ps[0]):
            n = str_len(st, ps[0])
            out = []
            for s, k in self.split_int(st, n):
                if k == 0:
                    out.append((s, True))
                    continue
                sl = slice_str(s, x, 0, k) if name == "startswith" else slice_str(s, x, -k, None)
                for s2, y in sl:
                    out.extend(eq_str(s2, y, ps[0]))
            return out
        return self.it.raise_(st, "TypeError")

    def str_find(self, st, x, sub, name):
        if not isinstance(sub, str):
            sub = simplify(st, sub)
            if not isinstance(sub, str):
                return self.pointwise(st, name, lambda a, b: getattr(a, name)(b), [x, sub])
        if len(sub) == 1:
            out = []
            if name in ("find", "index"):
                for s, h, r in self.split_first(st, x, sub):
                    if r is not None:
                        out.append((s, str_len(s, h)))
                    elif name == "find":
                        out.append((s, -1))
                    else:
                        self.it.raise_(s, "ValueError")
            else:
                for s, h, t in self.split_last(st, x, sub):
                    if h is not None:
                        out.append((s, str_len(s, h)))
                    elif name == "rfind":
                        out.append((s, -1))
                    else:
                        self.it.raise_(s, "ValueError")
            return out
        if name in ("find", "index") and sub:
            out = []
            prog = rx.prog(re.escape(sub))
            u = Units(st, x)
            for s, kind, data in scan(st, prog, u, (0, 0), "search"):
                if kind == "match":
                    out.append((s, str_len(s, u.text((0, 0), data[0]))))
                elif name == "find":
                    out.append((s, -1))
                else:
                    self.it.raise_(s, "ValueError")
            return out
        return self.pointwise(st, name, lambda a: getattr(a, name)(sub), [x])

    def str_partition(self, st, x, sep, right):
        if not isinstance(sep, str) or len(sep) != 1:
            if isinstance(x, str) and isinstance(sep, str):
                return [(st, x.rpartition(sep) if right else x.partition(sep))]
            out = []
            if isinstance(sep, str) and not right:
                u = Units(st, x)
                for s, kind, data in scan(st, rx.prog(re.escape(sep)), u, (0, 0), "search"):
                    if kind == "match":
                        out.append((s, (u.text((0, 0), data[0]), sep,
                                        u.text(data[1], (len(u.u), 0)))))
                    else:
                        out.append((s, (x, "", "")))
                return out
            if isinstance(sep, str) and sep and not any(
                    sep.startswith(sep[k:]) for k in range(1, len(sep))):
                # no two occurrences overlap, so the last one ends a scan from the left
                u = Units(st, x)
                prog = rx.prog(re.escape(sep))
                work = [(st, (0, 0), None)]
                while work:
                    s0, pos, last = work.pop()
                    for s, kind, data in scan(s0, prog, u, pos, "search"):
                        if kind == "match":
                            work.append((s, data[1], data[:2]))
                        elif last is None:
                            out.append((s, ("", "", x)))
                        else:
                            out.append((s, (u.text((0, 0), last[0]), sep,
                                            u.text(last[1], (len(u.u), 0)))))
                return out
            raise Undecided("partition")
        out = []
        if right:
            for s, h, t in self.split_last(st, x, sep):
                out.append((s, (h, sep, t) if h is not None else ("", "", t)))
        else:
            for s, h, r in self.split_first(st, x, sep):
                out.append((s, (h, sep, r) if r is not None else (h, "", "")))
        return out

    def str_join(self, st, sep, v):
        if isinstance(v, Ref):
            o = self.it.obj(st, v)
            if o.kind == "list":
                d = o.data
                if o.cls is GEN and isinstance(d, CatL):
                    self.it.put(st, v.id, HObj("list", GEN, ()), "iter")
                if isinstance(d, CatL):
                    if sep == "":
                        return [(st, d.cat)]
                    raise Undecided("join of a joined list")
                if isinstance(d, LSplit):
                    if sep == d.sep:
                        return [(st, d.text)]
                    return self.str_replace(st, d.text, d.sep, sep)
        out = []
        for s, dag in self.iter_graph(st, v):
            at = {dag.start: [(s, None)]}
            for node in dag.order:
                cur0 = at.pop(node, [])
                if len(cur0) > 1:
                    first = [c for c in cur0 if c[1] is None]
                    cur0 = [c for c in cur0 if c[1] is not None]
                    cur0 = self.it.merge_vals(first) + self.it.merge_vals(cur0)
                for guard, values, nxt in dag.edges[node]:
                    cur = []
                    for s1, acc in cur0:
                        s2 = s1.clone() if guard or len(dag.edges[node]) > 1 else s1
                        for var, m in guard.items():
                            s2 = restrict_var(s2, var, m)
                            if s2 is None:
                                break
                        if s2 is None:
                            continue
                        bad = False
                        for x in values:
                            if isinstance(x, Ref) or not is_str(x):
                                if isinstance(x, Ref):
                                    ox = self.it.obj(s2, x)
                                    if ox.kind == "inst" and isinstance(ox.cls, ClassV) and \
                                            ox.cls.enum == "StrEnum":
                                        x = ox.data["_value_"]
                                    else:
                                        bad = True
                                        break
                                elif isinstance(x, Fin):
                                    raise Undecided("join of mixed values")
                                else:
                                    bad = True
                                    break
                            acc = x if acc is None else concat(concat(acc, sep), x)
                        if bad:
                            self.it.raise_(s2, "TypeError")
                            continue
                        cur.append((s2, acc))
                    if nxt is None:
                        out.extend((s2, "" if a is None else compact(s2, a)) for s2, a in cur)
                    else:
                        at.setdefault(nxt, []).extend(cur)
        return self.it.merge_vals(out)

    def str_format(self, st, fmt, args, kw):
        if not isinstance(fmt, str):
            raise Undecided("format text")
        cur = [(st, "")]
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            cur = [(s, concat(t, lit)) for s, t in cur]
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Undecided("format field")
            if "{" in (spec or ""):
                inner = []
                for s, t in cur:
                    for s2, sp in self.str_format(s, spec, args[auto:], kw):
                        inner.append((s2, t, sp))
                auto += spec.count("{}")
            else:
                inner = [(s, t, spec or "") for s, t in cur]
            nxt = []
            for s, t, sp in inner:
                vals = self.to_str(s, v) if conv == "s" else (
                    self.repr_(s, v) if conv == "r" else [(s, v)])
                for s2, v2 in vals:
                    for s3, z in self.format_(s2, v2, sp):
                        nxt.append((s3, concat(t, z)))
            cur = nxt
        return cur

    def str_encode(self, st, x, args):
        if isinstance(x, str):
            try:
                return [(st, BytesV(x.encode(*(args or ["utf-8"])).hex()))]
            except UnicodeEncodeError:
                return self.it.raise_(st, "UnicodeEncodeError")
        out = []
        enc = args[0] if args else "utf-8"
        if len(args) > 1 or not isinstance(enc, str) or "16" in enc or "32" in enc or "sig" in enc:
            raise Undecided("encoding")
        for s, dag in self.iter_graph(st, x):
            r = self.map_dag(s, dag, lambda s1, c: self.pointwise(
                s1, ("encode", enc), lambda t: t.encode(enc).hex(), [c]))
            for s1, d in r:
                for s2, t in self.str_join(s1, "", self.it.new_list(s1, d)):
                    out.append((s2, BytesV(t)))
        return out


def lin_add_norm(a, k):
    return norm_int(lin_add(a, k))


def lone_var(args):
    """The variable of a single one-table argument."""
    if len(args) != 1:
        return None
    a = args[0]
    if isinstance(a, AStr):
        if len(a.segs) == 1 and isinstance(a.segs[0], Tab):
            return a.segs[0].var
        return None
    if isinstance(a, Lin) and len(a.t) == 1 and not a.a:
        return a.t[0][0]
    return None


class LazySpans:
    """Offsets of the groups of a match, computed when asked for."""

    __slots__ = ("st", "u", "spans")

    def __init__(self, st, u, spans):
        self.st = st
        self.u = u
        self.spans = spans

    def __getitem__(self, k):
        sp = self.spans[k]
        if sp is None:
            return None
        return (
            str_len(self.st, self.u.text((0, 0), sp[0])),
            str_len(self.st, self.u.text((0, 0), sp[1])),
        )


class AsciiBytes:
    """Bytes known as ASCII text."""

    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text
