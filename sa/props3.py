"""Obligations on malformed input, effects and patterns."""

from . import families as F
from . import rx, spec
from .an import Broken
from .dom import AStr, Fin, IVar, Lin, Num, St, Undecided, Var, as_lin, mk_str, mk_tab
from .heap import HObj, PatternV, Ref
from .props import (
    Prop, bit_text, built, coding_tasks, family, few, keywords, same_identity, tag_text, unknown,
    weak, where, _unique,
)
from .props2 import base64_text, hex_text
from .strs import slice_str, str_len

# -- C17 tag contents that stand for no identity --------------------------------------

PARTITIONED = [s for s in spec.TAGGED if s not in ("GID", "USDOD", "ADI")]
K_OF = {
    "SGTIN": spec.K_13, "ITIP": spec.K_13, "SSCC": spec.K_17, "GSRN": spec.K_17,
    "GSRNP": spec.K_17, "SGLN": spec.K_12, "GRAI": spec.K_12, "GDTI": spec.K_12,
    "SGCN": spec.K_12, "CPI": spec.K_CPI96,
}
N_OF = {
    "SGTIN": spec.N_13, "ITIP": spec.N_13, "SSCC": spec.N_17, "GSRN": spec.N_17,
    "GSRNP": spec.N_17, "SGLN": spec.N_12, "GRAI": spec.N_GRAI, "GDTI": spec.N_12,
    "SGCN": spec.N_12, "CPI": spec.N_CPI96,
}
# first bit cell of 7 or 6 bit text: index in the segment list, width of one character
SEVEN = {"SGTIN_198": 3, "SGLN_195": 3, "GRAI_170": 3, "GDTI_174": 3, "ITIP_212": 5, "GIAI_202": 2}
SEVEN_BITS = {"SGTIN_198": 140, "SGLN_195": 140, "GRAI_170": 112, "GDTI_174": 119, "ITIP_212": 140}
SIX = {"CPI_VAR": 2, "ADI_VAR": 0}


def sample(scheme, coding, L=7, n=3):
    """A middle-sized identity of the coding, as a shape."""
    sh = F.ordered(scheme, F.typical(scheme, L))
    if coding in spec.NUMERIC_BITS:
        sh["serial"] = spec.number(n)
    elif coding == "GIAI_96":
        sh["asset"] = spec.number(n)
    elif coding == "CPI_96":
        sh["ref"] = spec.number(2)
    elif coding in SEVEN:
        part = "asset" if scheme == "GIAI" else "serial"
        sh[part] = "g" * n
    return sh


def number(name, lo, hi, width):
    return Num(Lin(0, (), ((IVar(name, lo, hi), 1),)), 2, width)


def varied(name, codes):
    """One cell over the given bit groups."""
    spec.thin(name, list(codes))
    if name in spec.PIN and spec.PIN[name] in codes:
        return spec.PIN[name], []
    v = Var(name, list(codes))
    return mk_tab(v, tuple(codes)), [v]


def six_run(name, n, chars=spec.ADI_CHARS):
    segs, vs = [], []
    for k in range(n):
        s, v = varied(f"{name}{k}", [spec.six_char(x) for x in chars])
        segs.append(s)
        vs.extend(v)
    return segs, vs


def six_bits(scheme, b, arg):
    """Six bit texts of the given lengths in place of those of the identity."""
    if scheme == "CPI":
        x, v = six_run("text", arg["k"])
        return b[:2] + x + b[b.index("000000"):] + [v]
    x, v = six_run("text", arg["k"])
    y, w = six_run("late", arg["m"])
    return b[:6] + x + ["000000"] + y + ["000000", v + w]


def bits_case(ctx, scheme, coding, kind, arg):
    """(state, bits, variables) of one family of undecodable bits."""
    c = spec.SCHEMES[scheme].codings[coding]
    L = arg.get("L", 7)
    i = spec.make(scheme, sample(scheme, coding, L, arg.get("n", 3)))
    a, fb, ft = ctx.S.filter(scheme)
    vs = i.vars + ([a.var] if isinstance(a, Fin) else [])
    b = c.bits(i)
    head = [c.header] + fb
    if kind == "partition":
        b = ["111"] + b[1:]
    elif kind == "company prefix range":
        b = [b[0], number("prefix", 10**L, 2 ** spec.M_BITS[L] - 1, spec.M_BITS[L])] + b[2:]
    elif kind == "reference range":
        k, n = K_OF[scheme][L], N_OF[scheme][L]
        b = b[:2] + [number("reference", 10**k, 2**n - 1, n)] + b[3:]
    elif kind == "serial range":
        b = b[:-1] + [number("serial", arg["lo"], 2 ** arg["w"] - 1, arg["w"])]
    elif kind == "text length":
        b = six_bits(scheme, b, arg)
        vs = vs + b.pop()
    elif kind == "no terminator":
        # whole groups of six bits, none of them empty, up to the end
        s, v = six_run("more", arg["k"])
        at = max(k for k, x in enumerate(b) if x == "000000")
        b = b[:at] + s
        vs = vs + v
    elif kind == "piece or total range":
        b = b[:3 + arg["at"]] + [number("count", 100, 127, 7)] + b[4 + arg["at"]:]
    elif kind == "serial marker":
        b = b[:3] + [number("serial", arg["lo"], arg["hi"], 41)]
    elif kind == "character":
        at = SEVEN[coding] + arg["pos"] if coding in SEVEN else SIX[coding] + arg["pos"]
        if coding in SEVEN:
            ok = {format(ord(x), "07b") for x in spec.GS} | {"0000000"}
            w = 7
        else:
            chars = arg["chars"]
            ok = {spec.six_char(x) for x in chars} | (set() if arg.get("full") else {"000000"})
            w = 6
        seg, v = varied("bad", [format(k, f"0{w}b") for k in range(2**w)
                                if format(k, f"0{w}b") not in ok])
        b = b[:at] + [seg] + b[at + 1:]
        vs = vs + v
    elif kind == "owner byte":
        ok = {format(ord(x), "08b") for x in spec.CAGE + (" " if arg["pos"] == 0 else "")}
        seg, v = varied("bad", [format(k, "08b") for k in range(256)
                                if format(k, "08b") not in ok])
        flat = [x for x in b]
        flat[arg["pos"]] = seg
        b = flat
        vs = vs + v
    elif kind == "text after the terminator":
        at = SEVEN[coding]
        pos, gap = arg["pos"], arg["gap"]
        seg, v = varied("late", [format(k, "07b") for k in range(1, 128)])
        run = b[at:at + arg["n"]]
        room = total(i.st, b[at:]) // 7
        slots = run[:pos] + ["0000000"] * gap + [seg]
        rest = "0" * (total(i.st, b[at:]) - 7 * len(slots))
        if len(slots) > room:
            raise Undecided("no room")
        b = b[:at] + slots + [rest]
        vs = vs + v
    elif kind == "empty text":
        at = SEVEN[coding]
        b = b[:at] + ["0" * total(i.st, b[at:])]
    elif kind == "header":
        own = [x.header for x in spec.SCHEMES[scheme].codings.values()]
        seg, v = varied("header", [format(k, "08b") for k in range(256)
                                   if format(k, "08b") not in own])
        head = [seg] + fb
        vs = vs + v
    elif kind == "foreign header":
        own = [x.header for s in spec.SCHEMES.values() for x in s.codings.values()]
        seg, v = varied("header", [format(k, "08b") for k in range(256)
                                   if format(k, "08b") not in own])
        head = [seg] + fb
        vs = vs + v
    st, text = i.st, mk_str(head + b)
    if kind == "truncated":
        n = total(st, spec.segs(text))
        keep = arg["keep"] if arg["keep"] >= 0 else n + arg["keep"]
        got = slice_str(st, text, 0, max(0, keep))
        if len(got) != 1:
            raise Undecided("cut depends on the case")
        st, text = got[0]
    elif kind == "not binary":
        n = total(st, spec.segs(text))
        pos = arg["pos"] if arg["pos"] >= 0 else n + arg["pos"]
        (st, x), = slice_str(st, text, 0, pos)
        (st, y), = slice_str(st, text, pos + 1, n)
        s, v = F.cells("bad", "Z")
        text = mk_str(spec.segs(x) + s + spec.segs(y))
        vs = vs + v
    elif kind == "surroundings":
        s, v = F.cells("white", "W")
        text = mk_str((s if arg["front"] else []) + spec.segs(text) + ([] if arg["front"] else s))
        vs = vs + v
    return st, text, vs


def total(st, segs):
    n = 0
    for x in segs:
        k = len(x) if isinstance(x, str) else str_len(st, mk_str([x]))
        if not isinstance(k, int):
            raise Undecided("length depends on the case")
        n += k
    return n


def bits_families(thorough=False):
    out = []
    for s in spec.TAGGED:
        for c, co in spec.SCHEMES[s].codings.items():
            add = lambda kind, **arg: out.append((s, c, kind, arg))  # noqa: B023, E731
            if s in PARTITIONED:
                for L in spec.PREFIXES:
                    if L == 7 or thorough:
                        add("partition", L=L)
                    add("company prefix range", L=L)
                    if s in K_OF and K_OF[s][L] and s != "CPI":
                        add("reference range", L=L)
            if s == "ITIP":
                for L in (6, 7, 12):
                    add("piece or total range", L=L, at=0)
                    add("piece or total range", L=L, at=1)
            if s == "SGCN":
                for k in range(1, 14):
                    hi = min(10**k - 1, 2**41 - 1)
                    lo = 2 * 10 ** (k - 1)
                    if lo <= hi:
                        add("serial marker", L=7, lo=lo, hi=hi)
                add("serial marker", L=7, lo=0, hi=1)
            if c in SEVEN:
                size = SEVEN_BITS.get(c)
                most = size // 7 if size else 23
                for n in (1, 3, most - 1) if not thorough else range(1, most + 1):
                    for pos in sorted({0, n // 2, n - 1}):
                        add("character", L=7, n=n, pos=pos)
                for pos in (0, 1, 3):
                    for gap in (1, 2, most - pos - 1):
                        add("text after the terminator", L=7, n=max(pos, 1), pos=pos, gap=gap)
                add("empty text", L=7)
                add("empty text", L=12)
            if c == "CPI_96":
                for L in spec.PREFIXES:
                    add("reference range", L=L)
            if c == "CPI_VAR":
                add("serial range", L=7, lo=10**12, w=40)
                for L in (6, 7, 12):
                    for k in (0, 31 - L, 32 - L, 40):
                        add("text length", L=L, k=k)
                for pos in range(3):
                    add("character", L=7, n=3, pos=pos, chars=spec.CPI_CHARS)
            if c == "ADI_VAR":
                for k, m in ((0, 0), (1, 0), (32, 0), (33, 1), (34, 2), (40, 1), (0, 31), (1, 31),
                             (32, 31), (2, 32), (1, 40)):
                    add("text length", L=7, k=k, m=m)
                for k in (0, 1, 5):
                    add("no terminator", L=7, k=k)
                for pos in range(6):
                    add("character", L=7, n=3, pos=pos, full=True,
                        chars=spec.CAGE + (" " if pos == 0 else ""))
                for pos in range(6, 9):
                    add("character", L=7, n=3, pos=pos, chars=spec.ADI_CHARS)
                for pos in range(11, 13):
                    add("character", L=7, n=3, pos=pos, chars=spec.ADI_CHARS)
            if s == "USDOD":
                for pos in range(6):
                    add("owner byte", L=7, pos=pos)
            add("header", L=7)
            add("foreign header", L=7)
            cuts = set(range(co.size)) if co.size else set(range(-60, 15)) | {40, 58}
            for k in sorted(cuts):
                add("truncated", L=7, keep=k)
            for k in (0, 3, 8, 12, 20, 57, 70, -1):
                add("not binary", L=7, pos=k)
            add("surroundings", L=7, front=True)
            if not co.size:
                add("surroundings", L=7, front=False)
    return out


def c17(ctx, scheme, coding, kind, arg):
    S = ctx.S
    st, text, vs = bits_case(ctx, scheme, coding, kind, arg)
    shown = {"binary": text}
    if kind != "foreign header":
        ctx.attempt(kind, lambda: ctx.refused(
            kind, S.method(st, S.cls(scheme), "from_binary", [text]), vs,
            f"bits that hold no {scheme} ({kind})", None, shown, lambda o: S.uri(o.st, o.val)))
    if kind != "header":
        ctx.attempt(kind + ", generic parser", lambda: ctx.refused(
            kind + ", generic parser", S.call(st, S.fn("binary_to_tag_encodable"), [text]), vs,
            f"bits that hold no {scheme} ({kind}) through the generic parser", None, shown,
            lambda o: S.uri(o.st, o.val)))


Prop("C17", bits_families, c17,
     "bits that stand for no identity (foreign header, unused partition, field beyond its decimal "
     "range, forbidden character, text after its terminator, empty text, too few bits, not binary) "
     "are refused by the class and the generic parser")


# -- C20 malformed element strings and tag URIs ---------------------------------------

_T = {  # literal identifiers and runs of cells; text runs carry their greatest length
    "SGTIN": ("(01)", ("k", 14), "(21)", ("t", 20)),
    "LGTIN": ("(01)", ("k", 14), "(10)", ("t", 20)),
    "UPUI": ("(01)", ("k", 14), "(235)", ("t", 28)),
    "ITIP": ("(8006)", ("k", 18), "(21)", ("t", 20)),
    "SSCC": ("(00)", ("k", 18)),
    "GSRN": ("(8018)", ("k", 18)),
    "GSRNP": ("(8017)", ("k", 18)),
    "GSIN": ("(402)", ("k", 17)),
    "PGLN": ("(417)", ("k", 13)),
    "SGLN": ("(414)", ("k", 13), "(254)", ("t", 20)),
    "GRAI": ("(8003)0", ("k", 13), ("t", 16)),
    "GDTI": ("(253)", ("k", 13), ("t", 17)),
    "SGCN": ("(255)", ("k", 13), ("n", 12)),
    "GIAI": ("(8004)", ("k", 7), ("t", 23)),
    "GINC": ("(401)", ("k", 7), ("t", 23)),
    "CPI": ("(8010)", ("k", 7), ("p", 23), "(8011)", ("s", 12)),
}
_CODE = {"k": "d", "t": "g", "n": "d", "p": "p", "s": "d"}
_BADCODE = {"k": "N", "t": "E", "n": "N", "p": "Q", "s": "N"}


def element_template(scheme, change=None):
    """Template of an element string; change maps a run to its codes."""
    out = []
    for it in _T[scheme]:
        if isinstance(it, str):
            out.append(it)
        else:
            name, n = it
            codes = _CODE[name] * (n if name == "k" else min(3, n))
            if name == "s":
                codes = "Ddd"
            out.append((name, (change or {}).get(name, codes)))
    return tuple(out)


def element_families(thorough=False):
    """(scheme, kind, template, prefix length)"""
    out = []
    for s in _T:
        runs = [it for it in _T[s] if not isinstance(it, str)]
        names = [r[0] for r in runs]
        joined = s in ("GIAI", "GINC", "CPI")
        for name, n in runs:
            if name == "k":
                for d in (-2, -1, 1, 2):
                    if joined or (d > 0 and len(runs) > 1 and "t" in names and s in ("GRAI", "GDTI")):
                        continue
                    if s == "SGCN":
                        continue
                    if d < 0 and s in ("GRAI", "GDTI"):
                        # text may start with digits: keep it from completing the key
                        out.append((s, "key length", element_template(
                            s, {"k": "d" * (n + d), "t": "xgg"}), 7))
                        continue
                    out.append((s, "key length", element_template(s, {"k": "d" * (n + d)}), 7))
                for k in range(n):
                    out.append((s, "key character", element_template(
                        s, {"k": "d" * k + "N" + "d" * (n - k - 1)}), 7))
            elif name in ("t", "p"):
                lens = [n + 1, n + 2, n + 5] + ([0] if name == "t" else [0])
                for m in lens:
                    ch = {name: _CODE[name] * m}
                    if joined and name == "t" and m == 0:
                        pass
                    out.append((s, "text length", element_template(s, ch), 7))
                for k in range(3):
                    c = _CODE[name]
                    out.append((s, "text character", element_template(
                        s, {name: c * k + _BADCODE[name] + c * (2 - k)}), 7))
            elif name == "n":
                for m in (0, n + 1, n + 2, n + 5):
                    out.append((s, "text length", element_template(s, {"n": "d" * m}), 7))
                for k in range(3):
                    out.append((s, "text character", element_template(
                        s, {"n": "d" * k + "N" + "d" * (2 - k)}), 7))
            elif name == "s":
                for codes in ("", "0d", "0dd", "D" + "d" * 12):
                    out.append((s, "serial number", element_template(s, {"s": codes}), 7))
                for k in range(3):
                    out.append((s, "serial number", element_template(
                        s, {"s": "d" * k + "N" + "d" * (2 - k)}), 7))
        t = element_template(s)
        for k, it in enumerate(t):
            if isinstance(it, str):
                ai = it[: it.index(")") + 1]
                for bad in ("", ai[1:], ai[:-1], ai.replace("(", "[").replace(")", "]"),
                            "(9" + ai[2:], ai[:-2] + "9)" if ai[-2] != "9" else ai[:-2] + "8)",
                            ai + ai, " " + ai):
                    if bad == ai or (k and bad in (ai[:-1], ai + ai)):
                        continue  # a text may contain parentheses
                    out.append((s, "application identifier",
                                t[:k] + (it.replace(ai, bad, 1),) + t[k + 1:], 7))
        out.append((s, "surroundings", (("white", "W"),) + t, 7))
        out.append((s, "surroundings", t + (("white", "W"),), 7))
        if s == "GRAI":
            out.append((s, "filler digit", ("(8003)", ("filler", "D")) + t[1:], 7))
        if joined:
            bad = "q" if s == "CPI" else "x"
            for L in spec.PREFIXES:
                for k in range(L) if thorough else {0, L // 2, L - 1}:
                    out.append((s, "prefix character", element_template(
                        s, {"k": "d" * k + bad + "d" * (L - k - 1)}), L))
        for L in list(range(0, 6)) + [13, 14, 15, 16, 20, 40]:
            ch = {}
            if joined:
                ch = {"k": "d" * 7, "t": "d" * 12, "p": "d" * 12}
            out.append((s, "prefix length", element_template(s, {
                k: v for k, v in ch.items() if k in names}), L))
    return out


def tag_families(thorough=False):
    """(scheme, coding, kind, template)"""
    out = []
    for s in spec.TAGGED:
        sp = spec.SCHEMES[s]
        for c, co in sp.codings.items():
            sh = sample(s, c)
            flt = () if not sp.filter_bits else (("filter", "d" if sp.filter_bits != 3 else "0"), ".")

            def tag(body, label=co.label, pre="urn:epc:tag:", flt=flt):
                return (pre + label + ":",) + tuple(flt) + tuple(body)

            body = F.dotted([(n, sh[n]) for n in sp.parts])
            for kind, sh2 in F.bad_shapes(s, thorough):
                out.append((s, c, kind, tag(F.dotted([(n, sh2[n]) for n in sp.parts]))))
            for kind, t in F.bad_cells(s, thorough):
                out.append((s, c, kind, tag(t[1:])))
            for label in (co.label.upper(), co.label + "0", "x" + co.label, co.label.split("-")[0],
                          co.label + "-", ""):
                out.append((s, c, "coding name", tag(body, label)))
            for pre in ("urn:epc:id:", "urn:epc:tg:", "URN:EPC:TAG:", "urn:epc:tag", " urn:epc:tag:",
                        "urn:epc:tag::", ""):
                out.append((s, c, "prefix", tag(body, pre=pre)))
            if flt:
                for f in ((("filter", "N"), "."), ("00.",), ("01.",), (".",), ("-1.",), ("1",)):
                    out.append((s, c, "filter", tag(body, flt=f)))
            out.append((s, c, "surroundings", tag(body) + (("white", "W"),)))
            out.append((s, c, "surroundings", (("white", "W"),) + tag(body)))
    return out


def c20_tasks(thorough):
    return _unique([("element string", *t) for t in element_families(thorough)]
                   + [("tag URI", *t) for t in tag_families(thorough)])


def c20(ctx, what, scheme, a, b, d):
    S = ctx.S
    if what == "element string":
        kind, template, L = a, b, d
        st, text, vs = family(template, (), True)
        rule = f"{kind} of an element string"
        shown = {"element": text, "company_prefix_length": str(L)}
        ctx.attempt(rule, lambda: ctx.refused(
            rule, S.method(st, S.cls(scheme), "from_gs1_element_string", [text, L]), vs,
            f"malformed {scheme} element string ({kind})", None, shown,
            lambda o: S.uri(o.st, o.val)))
        if kind != "application identifier":
            ctx.attempt(rule + ", generic parser", lambda: ctx.refused(
                rule + ", generic parser", S.call(
                    st, S.fn("gs1_element_string_to_gs1_element"), [text, L]), vs,
                f"malformed {scheme} element string ({kind}) through the generic parser", None,
                shown, lambda o: S.uri(o.st, o.val)))
        return
    coding, kind, template = a, b, d
    st, text, vs = family(template, ())
    rule = f"{kind} of a tag URI"
    shown = {"tag": text}
    ctx.attempt(rule, lambda: ctx.refused(
        rule, S.method(st, S.cls(scheme), "from_tag_uri", [text]), vs,
        f"malformed {coding} tag URI ({kind})", None, shown, lambda o: S.uri(o.st, o.val)))
    ctx.attempt(rule + ", generic parser", lambda: ctx.refused(
        rule + ", generic parser", S.call(st, S.fn("tag_uri_to_tag_encodable"), [text]), vs,
        f"malformed {coding} tag URI ({kind}) through the generic parser", None, shown,
        lambda o: S.uri(o.st, o.val)))


Prop("C20", c20_tasks, c20,
     "malformed element strings (identifiers, lengths, characters, prefix lengths) and malformed tag "
     "URIs (coding name, filter, components) are refused by the class and the generic parser")


# -- C21 malformed hexadecimal and base64 ---------------------------------------------


def word_text(ctx, scheme, coding, form):
    """Valid hexadecimal or base64 text of a sample identity."""
    c = spec.SCHEMES[scheme].codings[coding]
    i = spec.make(scheme, sample(scheme, coding))
    a, fb, ft = ctx.S.filter(scheme)
    vs = i.vars + ([a.var] if isinstance(a, Fin) else [])
    b = bit_text(c, fb, i)
    return i.st, (hex_text if form == "hex" else base64_text)(i.st, b), vs


def word_case(ctx, scheme, coding, form, kind, arg):
    st, text, vs = word_text(ctx, scheme, coding, form)
    n = total(st, spec.segs(text))
    pos = arg if arg >= 0 else n + arg
    if kind == "character":
        (st, x), = slice_str(st, text, 0, pos)
        (st, y), = slice_str(st, text, pos + 1, n)
        s, v = F.cells("bad", "H")
        return st, mk_str(spec.segs(x) + s + spec.segs(y)), vs + v
    if kind == "truncated":
        (st, x), = slice_str(st, text, 0, pos)
        return st, x, vs
    if kind == "padding":
        core = text
        while isinstance(spec.segs(core)[-1], str) and spec.segs(core)[-1].endswith("="):
            (st, core), = slice_str(st, core, 0, total(st, spec.segs(core)) - 1)
        m = total(st, spec.segs(core))
        (st, core), = slice_str(st, core, 0, (m - 1) // 4 * 4 + 1)
        return st, mk_str(spec.segs(core) + ["=" * arg]), vs
    if kind == "header":
        codes = {c.header for s in spec.SCHEMES.values() for c in s.codings.values()}
        seg, v = varied("header", [f"{k:02X}" for k in range(256)
                                   if format(k, "08b") not in codes])
        (st, y), = slice_str(st, text, 2, n)
        return st, mk_str([seg] + spec.segs(y)), vs + v
    raise KeyError(kind)


def word_families(thorough=False):
    out = []
    for s in spec.TAGGED:
        for c in spec.SCHEMES[s].codings:
            for pos in (0, 1, 2, 5, 11, -1) if not thorough else range(0, 24):
                out.append((s, c, "hex", "character", pos))
            size = spec.SCHEMES[s].codings[c].size or 90
            for k in range(-(-size // 4)):
                out.append((s, c, "hex", "truncated", k))
            out.append((s, c, "hex", "header", 0))
            for k in range(size):
                if 8 * (6 * k // 8) < size:
                    out.append((s, c, "base64", "truncated", k))
            for k in (0, 1, 2):
                out.append((s, c, "base64", "padding", k))
    return out


def c21(ctx, scheme, coding, form, kind, arg):
    S = ctx.S
    st, text, vs = word_case(ctx, scheme, coding, form, kind, arg)
    shown = {form: text}
    rule = f"{kind} of {form} text"
    ctx.attempt(rule, lambda: ctx.refused(
        rule, S.method(st, S.cls(scheme), "from_" + form, [text]), vs,
        f"malformed {form} text of {coding} ({kind})", None, shown, lambda o: S.uri(o.st, o.val)))
    ctx.attempt(rule + ", generic parser", lambda: ctx.refused(
        rule + ", generic parser", S.call(st, S.fn(form + "_to_tag_encodable"), [text]), vs,
        f"malformed {form} text of {coding} ({kind}) through the generic parser", None, shown,
        lambda o: S.uri(o.st, o.val)))


Prop("C21", word_families, c21,
     "hexadecimal text with a character that is no hexadecimal digit, with an unknown header or too "
     "short, and base64 text that is cut or wrongly padded, are refused by the class and the generic "
     "parser")


# -- C09 only the documented error ---------------------------------------------------

PURE = ("epc_pure_identity_to_scheme", "epc_pure_identity_to_gs1_element",
        "epc_pure_identity_to_gs1_element_string", "epc_pure_identity_to_gs1_keyed",
        "epc_pure_identity_to_gs1_key", "epc_pure_identity_to_tag_encodable")
ENTRIES = ("tag_uri_to_tag_encodable", "binary_to_tag_encodable", "hex_to_tag_encodable",
           "base64_to_tag_encodable") + PURE


def c09_tasks(thorough):
    out = []
    for s in spec.SCHEMES:
        for kind, t, lim in F.bad_identities(s, thorough):
            out.append(("identity", s, t, lim))
        out.append(("any", s, "constructor"))
        out.append(("any", s, "from_epc_uri"))
        if spec.SCHEMES[s].codings:
            for m in ("from_tag_uri", "from_binary", "from_hex", "from_base64"):
                out.append(("any", s, m))
        if spec.SCHEMES[s].element:
            out.append(("any", s, "from_gs1_element_string"))
    for f in ENTRIES:
        out.append(("any", "", f))
    out.append(("any", "", "gs1_element_string_to_gs1_element"))
    out.append(("any", "", "get_gs1_key"))
    for n in range(0, 4):
        for f in ENTRIES + ("get_gs1_key", "gs1_element_string_to_gs1_element"):
            out.append(("short", n, f))
    for s, kind, t, L in element_families(thorough):
        out.append(("element", s, t, L))
    for s, c, kind, t in tag_families(thorough):
        out.append(("tag", s, c, t))
    for s, c, kind, arg in bits_families(thorough):
        out.append(("bits", s, c, kind, arg))
    for t in word_families(thorough):
        out.append(("words", *t))
    for s in spec.TAGGED:
        for c in spec.SCHEMES[s].codings:
            v = [(sh, lim) for sh, lim, _ in spec.unencodable(s, c, thorough)]
            v = few(v, 40 if not thorough else 400) if v else []
            v += few(spec.valid(s, thorough), 6 if not thorough else 60)
            for sh, lim in v:
                out.append(("methods", s, c, sh, lim))
    for s in spec.KEYED:
        if s != "LGTIN":
            for kind, t in F.bad_cells(s, thorough)[::3]:
                out.append(("pattern", s, t))
    return _unique(out)


def c09(ctx, what, *rest):
    S = ctx.S

    def each(calls, vs, shown):
        for name, f in calls:
            ctx.attempt(name, lambda: ctx.only_convert(name, f(), vs, name, shown))

    key = lambda st, t, *a: (lambda: S.call(st, S.fn("get_gs1_key"), [t, *a]))  # noqa: E731
    fun = lambda st, n, *a: (lambda: S.call(st, S.fn(n), list(a)))  # noqa: E731
    met = lambda st, s, n, *a: (lambda: S.method(st, S.cls(s), n, list(a)))  # noqa: E731
    if what == "identity":
        s, t, lim = rest
        st, text, vs = family(t, lim)
        each([("constructor", lambda: S.call(st, S.cls(s), [text])),
              ("from_epc_uri", met(st, s, "from_epc_uri", text)),
              ("get_gs1_key", key(st, text))]
             + [(n, fun(st, n, text)) for n in PURE[:1] + PURE[2:3] + PURE[4:]], vs, {"text": text})
    elif what == "pattern":
        s, t = rest
        t = (t[0].replace(":id:", ":idpat:"),) + t[1:]
        st, text, vs = family(t, ())
        each([("get_gs1_key", key(st, text))], vs, {"text": text})
    elif what == "any":
        s, m = rest
        text = unknown("text")
        st = St()
        if m == "constructor":
            f = lambda: S.call(st, S.cls(s), [text])  # noqa: E731
        elif m == "from_gs1_element_string":
            f = met(st, s, m, text, 7)
        elif s:
            f = met(st, s, m, text)
        elif m == "gs1_element_string_to_gs1_element":
            f = fun(st, m, text, 7)
        else:
            f = fun(st, m, text)
        each([(m, f)], [], {"text": text})
    elif what == "short":
        n, m = rest
        segs, vs = [], []
        for k in range(n):
            name = f"any{k}"
            if name in spec.PIN:
                segs.append(spec.PIN[name])
            else:
                v = Var(name, list(F._ALL))
                vs.append(v)
                segs.append(mk_tab(v, tuple(F._ALL)))
        text = mk_str(segs)
        each([(m, fun(St(), m, text, *([7] if m.startswith("gs1") else [])))], vs, {"text": text})
    elif what == "element":
        s, t, L = rest
        st, text, vs = family(t, (), True)
        each([("from_gs1_element_string", met(st, s, "from_gs1_element_string", text, L)),
              ("gs1_element_string_to_gs1_element",
               fun(st, "gs1_element_string_to_gs1_element", text, L)),
              ("get_gs1_key", key(st, text, L))], vs,
             {"text": text, "company_prefix_length": str(L)})
    elif what == "tag":
        s, c, t = rest
        st, text, vs = family(t, ())
        each([("from_tag_uri", met(st, s, "from_tag_uri", text)),
              ("tag_uri_to_tag_encodable", fun(st, "tag_uri_to_tag_encodable", text)),
              ("get_gs1_key", key(st, text))], vs, {"text": text})
    elif what == "bits":
        s, c, kind, arg = rest
        st, text, vs = bits_case(ctx, s, c, kind, arg)
        if kind == "header":
            each([("from_binary", met(st, s, "from_binary", text))], vs, {"text": text})
            return
        each([("from_binary", met(st, s, "from_binary", text)),
              ("binary_to_tag_encodable", fun(st, "binary_to_tag_encodable", text)),
              ("get_gs1_key", key(st, text))], vs, {"text": text})
    elif what == "words":
        s, c, form, kind, arg = rest
        st, text, vs = word_case(ctx, s, c, form, kind, arg)
        each([("from_" + form, met(st, s, "from_" + form, text)),
              (form + "_to_tag_encodable", fun(st, form + "_to_tag_encodable", text)),
              ("get_gs1_key", key(st, text))], vs, {"text": text})
    else:
        s, c, sh, lim = rest
        i = spec.make(s, sh, lim)
        kw, fb, ft, fv = keywords(ctx, s, c)
        for o in S.call(i.st, S.cls(s), [i.uri]):
            if o.exc is None:
                each([(m, lambda m=m: S.method(o.st, o.val, m, kw=kw))
                      for m in ("tag_uri", "binary", "hex", "base64")], i.vars + fv,
                     {"uri": i.uri, "coding": c})
            else:
                each([("constructor", lambda: [o])], i.vars, {"uri": i.uri})


Prop("C09", c09_tasks, c09,
     "no entry point lets any exception other than ConvertException escape, for malformed and valid "
     "texts alike")
