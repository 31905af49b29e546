"""Families of inputs: templates of literal text and character cells.

A template is a tuple of items; a string is literal text, a pair ``(name,
codes)`` is one cell per code.  One template stands for every text obtained by
choosing a character for each cell.
"""

from . import spec
from .dom import IVar, Lin, Num, Opq, St, Var, mk_str, mk_tab

_ODD = ["٣", "３", "१", "\U0001d7ce", "Ａ", " ", "İ", "K", "ſ",
        "　", "€"]
_ALL = [chr(k) for k in range(256)] + _ODD


def _not(allowed, *also):
    return [c for c in _ALL if c not in allowed and c not in also]


_RAW = "".join(c for c in spec.GS if c not in spec.GS_ESC)
_GS_CODES = {ord(c) for c in spec.GS}
BAD = {
    "N": _not(spec.DIGITS, "."),
    "n": _not(spec.DIGITS),
    "B": _not(_RAW, "%"),
    "P": _not("-" + spec.DIGITS + spec.UPPER, ".", "%"),
    "C": _not(spec.CAGE, "."),
    "O": _not(spec.OWNER),
    "U": _not("JUZ"),
    "E": _not(spec.GS),  # element string text
    "Q": _not(spec.CPI_CHARS, "("),
    "Z": _not("01"),
    "H": _not("0123456789abcdefABCDEF"),
    "A": _ALL,
    "W": list(" \t\n\r\x0b\x0c"),
    # escapes of characters outside the set, and triples that are no escapes
    "%": [f"%{k:02X}" for k in range(256) if k not in _GS_CODES],
    "^": ["%" + a + b for a in "0123456789ABCDEF" for b in "GgZz .-_:\n٣"]
    + ["%" + a + b for a in "Gg .-_:２\n" for b in "0123456789ABCDEF"],
    # escapes that are no permitted component character of a CPI or ADI
    "&": [f"%{k:02X}" for k in range(256) if k not in (0x23, 0x2F)],
    "*": [f"%{k:02X}" for k in range(256) if k != 0x2F],
    "i": spec.DIGITS + spec.UPPER + spec.LOWER,
    "h": list("0123456789ABCDEF"),
    "w": list("0123456789ABCDEFabcdef"),
    "t": list("01"),
}
OTHER = {"d": "N", "D": "N", "g": "B", "p": "P", "a": "P", "c": "C", "b": "O", "u": "U"}


def cells(name, codes, plain=False):
    """(segments, variables) of a run of cells."""
    out, vs = [], []
    for k, code in enumerate(codes):
        n = f"{name}{k}"
        chars = BAD.get(code) or spec.CLASSES.get(code) or code
        spec.thin(n, chars)
        if n in spec.PIN and spec.PIN[n] in chars:
            chars = [spec.PIN[n]]
        esc = {} if plain else spec.ESCAPES.get(code, {})
        if len(chars) == 1:
            out.append(esc.get(chars[0], chars[0]))
            continue
        v = Var(n, list(chars))
        vs.append(v)
        out.append(mk_tab(v, tuple(esc.get(c, c) for c in chars)))
    return out, vs


def build(template, plain=False):
    """(state, text, variables)"""
    out, vs = [], []
    for it in template:
        if isinstance(it, str):
            out.append(it)
        else:
            s, v = cells(it[0], it[1], plain)
            out.extend(s)
            vs.extend(v)
    return St(), mk_str(out), vs


def dotted(parts):
    out = []
    for k, p in enumerate(parts):
        if k:
            out.append(".")
        out.append(p)
    return tuple(out)


def uri(scheme, shape, prefix=None):
    sp = spec.SCHEMES[scheme]
    return (prefix if prefix is not None else sp.prefix,) + dotted(
        [(n, shape[n]) for n in sp.parts])


def typical(scheme, L=7):
    """One shape in the middle of what is permitted."""
    if scheme in spec.TEXT:
        part, code, most = spec.TEXT[scheme]
        sh = spec.base_shape(scheme, L)
        sh[part] = code * 3
        return sh
    if scheme in spec.REF_TOTAL:
        return spec.base_shape(scheme, L)
    if scheme in ("GIAI", "GINC"):
        return {"cp": "d" * L, spec.JOINT[scheme][0]: "ggg"}
    if scheme == "CPI":
        return {"cp": "d" * L, "ref": "ppp", "serial": "Ddd"}
    return {
        "GID": {"manager": "Ddd", "klass": "Dd", "serial": "Ddd"},
        "USDOD": {"cage": "c" * (5 + L % 2), "serial": "Ddd"},
        "ADI": {"cage": "c" * (5 + L % 2), "part": "aaa", "serial": "aaa"},
        "BIC": {"code": "bbbu" + "d" * 7},
        "IMOVN": {"number": "d" * 7},
    }[scheme]


def ordered(scheme, sh):
    return {n: sh[n] for n in spec.SCHEMES[scheme].parts}


def bad_shapes(scheme, thorough=False):
    """(kind, shape) whose lengths or digits the standard rules out."""
    out = []
    add = lambda kind, **kw: out.append((kind, kw))  # noqa: E731
    if scheme in spec.REF_TOTAL:
        ref, total = spec.REF_TOTAL[scheme]
        for L in range(1, 15 if total < 15 else 17):
            good = 6 <= L <= 12
            for dl in (-2, -1, 0, 1, 2) if not thorough else range(-4, 5):
                n = total - L + dl
                if n < 0 or (good and dl == 0) or (not good and dl and not thorough):
                    continue
                sh = dict(typical(scheme))
                sh["cp"] = "d" * L
                sh[ref] = "d" * n
                kind = "reference length" if good else "company prefix length"
                add(kind, **sh)
    if scheme in spec.TEXT:
        part, code, most = spec.TEXT[scheme]
        for n in (0, most + 1, most + 2, most + 3, 2 * most):
            sh = dict(typical(scheme, 7 if n % 2 else 12))
            sh[part] = code * n
            add("text length", **sh)
        for n in (most + 1, most + 2):
            for k in (0, n // 2, n - 1):
                sh = dict(typical(scheme, 7 if n % 2 else 12))
                sh[part] = "7" * k + code + "7" * (n - k - 1)
                add("text length", **sh)
    if scheme == "ITIP":
        for part in ("piece", "total"):
            for n in (0, 1, 3, 4):
                sh = dict(typical(scheme))
                sh[part] = "d" * n
                add("piece or total length", **sh)
    if scheme in spec.JOINT:
        part, code, most = spec.JOINT[scheme]
        for L in range(1, 16):
            if 6 <= L <= 12:
                for n in (0, most - L + 1, most - L + 2, most - L + 7):
                    sh = dict(typical(scheme))
                    sh["cp"] = "d" * L
                    sh[part] = code * n
                    add("text length", **sh)
                for n in (most - L + 1, most - L + 2):
                    k = (0, n // 2, n - 1)[(L + n) % 3]
                    sh = dict(typical(scheme))
                    sh["cp"] = "d" * L
                    sh[part] = "7" * k + code + "7" * (n - k - 1)
                    add("text length", **sh)
            else:
                sh = dict(typical(scheme))
                sh["cp"] = "d" * L
                add("company prefix length", **sh)
    if scheme == "CPI":
        for s in ("", "0d", "00", "0ddd", "D" + "d" * 12, "D" + "d" * 13):
            sh = dict(typical(scheme))
            sh["serial"] = s
            add("serial number", **sh)
    if scheme == "GID":
        for part in ("manager", "klass", "serial"):
            for s in ("", "0d", "0ddd", "D" + "d" * 11, "D" + "d" * 12):
                sh = dict(typical(scheme))
                sh[part] = s
                add("number", **sh)
    if scheme == "USDOD":
        for s in ("", "0d", "0ddd", "D" + "d" * 11, "D" + "d" * 12):
            sh = dict(typical(scheme))
            sh["serial"] = s
            add("number", **sh)
    if scheme in ("USDOD", "ADI"):
        for n in (0, 1, 4, 7, 8):
            sh = dict(typical(scheme))
            sh["cage"] = "c" * n
            add("owner code length", **sh)
    if scheme == "ADI":
        for n in (33, 34, 40):
            for L in (6, 7):
                sh = dict(typical(scheme, L))
                sh["part"] = "a" * n
                add("part number length", **sh)
        for s in ("", "#", "a" * 31, "#" + "a" * 30, "a" * 32, "a" * 40, "a#", "##", "#a#", "aa#a"):
            sh = dict(typical(scheme))
            sh["serial"] = s
            add("serial text", **sh)
        sh = dict(typical(scheme))
        sh["part"] = "a#a"
        add("part number text", **sh)
    if scheme == "BIC":
        for s in ("bbu" + "d" * 7, "bbbbu" + "d" * 7, "bbbu" + "d" * 6, "bbbu" + "d" * 8, ""):
            add("length", code=s)
    if scheme == "IMOVN":
        for n in (0, 1, 6, 8, 9):
            add("length", number="d" * n)
    for part in spec.SCHEMES[scheme].parts:
        # beyond the digits Python converts to an integer
        sh = dict(typical(scheme))
        sh[part] = sh[part][:1] + "7" * 4400
        add("overlong component", **sh)
    return [(k, ordered(scheme, sh)) for k, sh in out]


def bad_limits(scheme):
    """(kind, shape, limits): values beyond the range the standard fixes."""
    out = []
    if scheme == "GID":
        for part, w in (("manager", 28), ("klass", 24), ("serial", 36)):
            n = spec.digits_of(w)
            sh = dict(typical(scheme))
            sh[part] = spec.number(n)
            out.append(("value", sh, ((part, 2**w, None),)))
            sh = dict(typical(scheme))
            sh[part] = spec.number(n + 1)
            out.append(("value", sh, ()))
    if scheme == "USDOD":
        sh = dict(typical(scheme))
        sh["serial"] = spec.number(11)
        out.append(("value", sh, (("serial", 2**36, None),)))
    return out


def bad_cells(scheme, thorough=False):
    """(kind, template): one forbidden character at some place."""
    out = []
    shapes = [typical(scheme, L) for L in ((6, 7, 12) if thorough else (7,))]
    sp = spec.SCHEMES[scheme]
    for sh in shapes:
        for part in sp.parts:
            for k, code in enumerate(sh[part]):
                bad = OTHER[code]
                s2 = dict(sh)
                s2[part] = sh[part][:k] + bad + sh[part][k + 1:]
                out.append(("character", uri(scheme, s2)))
                if code in "gpa":
                    esc = {"g": "%^", "p": "&^", "a": "*^" if part != "serial" or k else "&^"}[code]
                    for e in esc:
                        s2 = dict(sh)
                        s2[part] = sh[part][:k] + e + sh[part][k + 1:]
                        out.append(("escape", uri(scheme, s2)))
                    if k == len(sh[part]) - 1:
                        s2 = dict(sh)
                        s2[part] = sh[part][:k]
                        for tail in ("%", "%2", "%%", "%2%"):
                            t = uri(scheme, s2)
                            at = 1 + 2 * sp.parts.index(part) + 1
                            out.append(("escape", t[:at] + (tail,) + t[at:]))
    return out


def bad_frames(scheme):
    """(kind, template): wrong prefix, separators or surroundings."""
    sp = spec.SCHEMES[scheme]
    sh = typical(scheme)
    body = dotted([(n, sh[n]) for n in sp.parts])
    out = []
    pre = sp.prefix
    names = sorted(spec.SCHEMES)
    other = "urn:epc:id:" + names[(names.index(scheme) + 1) % len(names)].lower() + ":"
    for p in ("", pre[:-1], pre.upper(), pre[1:], " " + pre, "\n" + pre, pre + ":", pre + " ",
              pre.replace(":id:", ":idpat:").replace(":class:", ":id:"),
              pre.replace(":id:", ":tag:").replace(":class:", ":tag:"), pre.replace("epc", "epx"),
              pre.replace("urn", "uri"), "urn:epc:id:" + scheme.lower() + "x:", other):
        if p != pre:
            out.append(("prefix", (p,) + body))
    for k in range(len(sp.parts)):
        if len(sp.parts) > 1:
            out.append(("missing component", (pre,) + dotted(
                [(n, sh[n]) for j, n in enumerate(sp.parts) if j != k])))
    free = spec.TEXT.get(scheme, ("", "", 0))[1] == "g" or scheme in ("GIAI", "GINC")
    if not free:
        out.append(("extra component", (pre,) + body + (".", ("extra", "d"))))
        out.append(("extra component", (pre,) + body + (".",)))
    out.append(("extra component", (pre, ".") + body))
    out.append(("surroundings", (pre,) + body + (("tail", "W"),)))
    out.append(("surroundings", (("head", "W"), pre) + body))
    if not free:
        out.append(("surroundings", (pre,) + body + (("tail", "P" if scheme == "ADI" else "N"),)))
    if len(sp.parts) > 1:
        for sep in (",", ":", "/", " ", "", "-"):
            items = [(n, sh[n]) for n in sp.parts]
            if sep == "" and (free or scheme in ("GID", "USDOD", "ADI")):
                continue
            out.append(("separator", (pre, items[0], sep) + dotted(items[1:])))
    return out


def bad_identities(scheme, thorough=False):
    """(kind, template, limits) texts that are no pure identity of the scheme."""
    out = [(k, uri(scheme, sh), ()) for k, sh in bad_shapes(scheme, thorough)]
    out += [(k, uri(scheme, sh), lim) for k, sh, lim in bad_limits(scheme)]
    out += [(k, t, ()) for k, t in bad_cells(scheme, thorough)]
    out += [(k, t, ()) for k, t in bad_frames(scheme)]
    return out


# -- binary ---------------------------------------------------------------


def bit_run(name, n):
    """n arbitrary bits as one unsigned number."""
    if n == 0:
        return []
    if name in spec.PIN:
        return [format(spec.PIN[name], "b").rjust(n, "0")]
    return [Num(Lin(0, (), ((IVar(name, 0, 2**n - 1), 1),)), 2, n)]


def opaque(name, *cons):
    return Opq(name, cons)
