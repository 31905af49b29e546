"""Obligations on spellings of escapes, arbitrary tag contents and default codings."""

from . import families as F
from . import spec
from .dom import Fin, IVar, Lin, Num, St, Undecided, mk_str
from .props import Prop, bit_text, built, few, keywords, same_identity, tag_text, where
from .props2 import base64_text, hex_text
from .props3 import _T as ELEMENT_RUNS
from .strs import digits_value, slice_str
from .props3 import N_OF, K_OF, SEVEN, total, varied

# -- C22 spellings of escapes ----------------------------------------------------------

FREE = [s for s, t in spec.TEXT.items() if t[1] == "g"] + ["GIAI", "GINC"]


def free_part(scheme, L):
    if scheme in spec.TEXT:
        part, _, most = spec.TEXT[scheme]
        return part, most
    return spec.JOINT[scheme][0], 30 - L


def spelled(scheme, L, text):
    sh = spec.base_shape(scheme, L) if scheme in spec.REF_TOTAL else {"cp": "d" * L}
    sh[free_part(scheme, L)[0]] = text
    return F.ordered(scheme, sh)


def c22_tasks(thorough):
    out = []
    for s in FREE:
        for L in spec.PREFIXES if thorough else (6, 7, 12):
            most = free_part(s, L)[1]
            texts = []
            for code in "kl":
                for n in sorted({1, 2, 3, most}) if not thorough else range(1, most + 1):
                    texts.append(code * n)
                    if n > 1:
                        for k in {0, n // 2, n - 1}:
                            texts.append("g" * k + code + "g" * (n - k - 1))
            texts += ["kl", "lk", "lgk", "klkl"]
            for t in dict.fromkeys(texts):
                out.append((s, spelled(s, L, t), True))
            for code in "kl":
                out.append((s, spelled(s, L, code * (most + 1)), False))
                out.append((s, spelled(s, L, "g" * most + code), False))
    return out


def c22(ctx, scheme, shape, good):
    S = ctx.S
    i = spec.make(scheme, shape)
    shown = {"uri": i.uri}
    if not good:
        ctx.attempt("length", lambda: ctx.refused(
            "length", S.call(i.st, S.cls(scheme), [i.uri]), i.vars,
            f"{scheme} identity with one character too many", None, shown))
        return
    sp = spec.SCHEMES[scheme]
    ctx.attempt("generic parser", lambda: same_identity(
        ctx, "generic parser", S.call(i.st, S.fn("epc_pure_identity_to_scheme"), [i.uri]), scheme,
        i.uri, i.vars, "generic parser", shown))
    for o in built(ctx, "accepted", scheme, i):
        ctx.good("accepted")
        if sp.key:
            ctx.attempt("key", lambda o=o: ctx.text(
                "key", S.method(o.st, o.val, "gs1_key"), lambda b: b.val, mk_str(sp.key(i)), i.vars,
                "GS1 key", None, shown))
        ctx.attempt("element string", lambda o=o: ctx.text(
            "element string", S.method(o.st, o.val, "gs1_element_string"), lambda b: b.val,
            mk_str(sp.element(i)), i.vars, "element string", None, shown))
        for name, c in sp.codings.items():
            if name not in SEVEN:
                continue
            kw, fb, ft, fv = keywords(ctx, scheme, name)
            ctx.attempt("bits", lambda o=o, c=c, kw=kw, fb=fb, fv=fv: ctx.text(
                "bits", S.method(o.st, o.val, "binary", kw=kw), lambda b: b.val,
                bit_text(c, fb, i), i.vars + fv, f"{c.label} bits", None, shown))


Prop("C22", c22_tasks, c22,
     "identities whose text is spelled with lower case escapes or escapes of plain characters are "
     "accepted up to the length limit in characters, and give the key, element string and bits of "
     "the characters the escapes stand for")


# -- C23 whatever is decoded encodes to the same bits -------------------------------------


def run(name, n):
    if n == 0:
        return [], []
    v = IVar(name, 0, 2**n - 1)
    return [Num(Lin(0, (), ((v, 1),)), 2, n)], [v]


def codes(name, n, w, zero=True):
    segs, vs = [], []
    for k in range(n):
        s, v = varied(f"{name}{k}", [format(j, f"0{w}b") for j in range(0 if zero else 1, 2**w)])
        segs.append(s)
        vs.extend(v)
    return segs, vs


SERIAL = {"SGTIN_96": 38, "SGLN_96": 41, "GRAI_96": 38, "GDTI_96": 41, "ITIP_110": 38, "SGCN_96": 41}
TEXT_BITS = {"SGTIN_198": 140, "SGLN_195": 140, "GRAI_170": 112, "GDTI_174": 119, "ITIP_212": 140}


def loose(scheme, coding, arg):
    """(segments after the filter, variables): any content of the fields of the coding."""
    out, vs = [], []

    def add(pair):
        out.extend(pair[0])
        vs.extend(pair[1])

    def text(bits, n):
        add(codes("char", n, 7))
        out.append("0" * (bits - 7 * n))

    if scheme == "GID":
        for name, w in (("manager", 28), ("klass", 24), ("serial", 36)):
            add(run(name, w))
    elif scheme == "USDOD":
        add(codes("byte", 6, 8))
        add(run("serial", 36))
    elif scheme == "ADI":
        add(codes("cage", 6, 6))
        add(codes("part", arg["n"], 6, False))
        out.append("000000")
        add(codes("serial", arg["m"], 6, False))
        out.append("000000")
    else:
        L = arg["L"]
        out.append(format(12 - L, "03b"))
        add(run("prefix", spec.M_BITS[L]))
        if coding == "CPI_VAR":
            add(codes("ref", arg["n"], 6, False))
            out.append("000000")
            add(run("serial", 40))
        elif coding == "CPI_96":
            add(run("reference", spec.N_CPI96[L]))
            add(run("serial", 31))
        elif coding == "GIAI_96":
            add(run("reference", spec.N_GIAI96[L]))
        elif coding == "GIAI_202":
            text(spec.N_GIAI202[L], arg["n"])
        else:
            # a reference of no digits takes bits the decoder may ignore
            add(run("reference", N_OF[scheme][L]) if K_OF[scheme][L] else (
                ["0" * N_OF[scheme][L]], []))
            if scheme == "ITIP":
                add(run("piece", 7))
                add(run("total", 7))
            if coding in SERIAL:
                add(run("serial", SERIAL[coding]))
            elif coding in TEXT_BITS:
                text(TEXT_BITS[coding], arg["n"])
            else:
                out.append("0" * 24)
    return out, vs


def c23_tasks(thorough):
    out = []
    for s in spec.TAGGED:
        for c in spec.SCHEMES[s].codings:
            if s in ("GID", "USDOD"):
                out.append((s, c, {}))
            elif s == "ADI":
                ks = (0, 1, 2, 3, 8, 32, 33) if not thorough else range(34)
                for n in ks:
                    for m in (1, 2, 30, 31) if not thorough else range(1, 32):
                        if n < 4 or m < 3 or thorough:
                            out.append((s, c, {"n": n, "m": m}))
            else:
                for L in spec.PREFIXES:
                    if c == "CPI_VAR":
                        most = 30 - L
                        for n in sorted({1, 2, 3, most // 2, most, most + 1}):
                            out.append((s, c, {"L": L, "n": n}))
                    elif c in TEXT_BITS or c == "GIAI_202":
                        most = (TEXT_BITS.get(c) or spec.N_GIAI202[L]) // 7
                        for n in sorted({1, 2, 3, most}) if not thorough else range(1, most + 1):
                            out.append((s, c, {"L": L, "n": n}))
                    else:
                        out.append((s, c, {"L": L}))
    return out


def c23(ctx, scheme, coding, arg):
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    c = sp.codings[coding]
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    segs, vs = loose(scheme, coding, arg)
    bits = mk_str([c.header] + fb + segs)
    names = vs + fv
    rule = "bits kept"
    shown = {"binary": bits, "coding": coding}
    st = St()
    size = total(st, spec.segs(bits))

    def step():
        bad = False
        outs = S.method(st, S.cls(scheme), "from_binary", [bits])
        taken = 0
        for o in outs:
            if o.exc is not None:
                continue  # other properties say what must be refused, and how
            taken += 1
            for b in S.method(o.st, o.val, "binary", kw=kw):
                sh = dict(shown, uri=S.uri(o.st, o.val))
                if b.exc is not None:
                    ctx.fail(rule, b.st, names, f"decoded identity raises {b.exc.name} when encoded",
                             b.where, shown=sh)
                    bad = True
                    continue
                asg = S.differ(b.st, b.val, bits, ctx.rng, names)
                if asg is not None:
                    ctx.fail(rule, b.st, names, "decoded identity encodes to other bits", where(ctx),
                             asg, dict(sh, got=b.val))
                    bad = True
        if not outs:
            raise Undecided("no outcome")
        if not bad:
            ctx.good(rule if taken else "nothing accepted")

    ctx.attempt(rule, step)


Prop("C23", c23_tasks, c23,
     "for arbitrary contents of all fields of a coding, whatever the decoder accepts is encoded with "
     "the same coding and filter to exactly those bits")


# -- C24 arguments of the tag forms ----------------------------------------------------------


def c24_tasks(thorough):
    out = []
    for s in spec.TAGGED:
        cs = list(spec.SCHEMES[s].codings)
        for c in cs:
            shapes = spec.encodable(s, c, thorough)
            if len(cs) == 1:
                for sh, lim in few(shapes, 24 if not thorough else 200):
                    out.append(("default", s, c, sh, lim))
            for sh, lim in few(shapes, 6 if not thorough else 60):
                out.append(("position", s, c, sh, lim))
    return out


def parameters(S, scheme):
    """Names of the positional parameters of the encoder, as the source declares them."""
    f = S.I.class_attr(St(), S.cls(scheme), "binary")
    node = getattr(f, "node", None)
    if node is None:
        raise Undecided("encoder is not a plain function")
    return [a.arg for a in node.args.posonlyargs + node.args.args][1:]


def c24(ctx, what, scheme, coding, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    names = i.vars + fv
    c = spec.SCHEMES[scheme].codings[coding]
    bits = bit_text(c, fb, i)
    want = {
        "tag_uri": lambda: tag_text(c, ft, i.body),
        "binary": lambda: bits,
        "hex": lambda: hex_text(i.st, bits),
        "base64": lambda: base64_text(i.st, bits),
    }
    args = []
    if what == "default":
        kw.pop("binary_coding_scheme")
    else:
        want.pop("tag_uri")
        order = parameters(S, scheme)
        if sorted(order) != sorted(kw):
            raise Undecided("encoder declares other parameters")
        args, kw = [kw[n] for n in order], {}
    shown = {"uri": i.uri, "coding": coding, "arguments": what}
    for o in built(ctx, what, scheme, i, names):
        for m, w in want.items():
            ctx.attempt(f"{m}, {what}", lambda o=o, m=m, w=w: ctx.text(
                f"{m}, {what}", S.method(o.st, o.val, m, args, kw), lambda b: b.val, w(), names,
                f"{m}, arguments by {what}", None, shown))


Prop("C24", c24_tasks, c24,
     "tag URI, bits, hexadecimal and base64 form of a scheme with a single coding are those of that "
     "coding when the coding is left out; bits, hexadecimal and base64 form take the same arguments "
     "by position")


# -- C25 representations of other schemes -----------------------------------------------------


def c25_tasks(thorough):
    out = []
    for a in spec.SCHEMES:
        shapes = few([x for x in spec.valid(a, thorough)], 3 if not thorough else 20)
        for sh, lim in shapes:
            for b in spec.SCHEMES:
                if a != b:
                    out.append((a, b, None, sh, lim))
        for c in spec.SCHEMES[a].codings:
            for sh, lim in few(spec.encodable(a, c, thorough), 2 if not thorough else 10):
                for b in spec.TAGGED:
                    if a != b:
                        out.append((a, b, c, sh, lim))
    return out


def c25(ctx, a, b, coding, shape, limits):
    S = ctx.S
    sp, other = spec.SCHEMES[a], spec.SCHEMES[b]
    i = spec.make(a, shape, limits)
    cls = S.cls(b)

    def no(rule, fn, text, names, *more):
        ctx.attempt(rule, lambda: ctx.refused(
            rule, S.call(i.st, cls, [text()]) if fn is None else
            S.method(i.st, cls, fn, [text(), *more]), names, f"{rule} of {a} given to {b}", None,
            {"text": text()}, lambda o: S.uri(o.st, o.val)))

    if coding is None:
        no("pure identity", None, lambda: i.uri, i.vars)
        no("pure identity", "from_epc_uri", lambda: i.uri, i.vars)
        if sp.element and other.element:
            no("element string", "from_gs1_element_string", lambda: mk_str(sp.element(i)), i.vars,
               i.n("cp"))
        return
    c = sp.codings[coding]
    f, fb, ft = S.filter(a)
    names = i.vars + ([f.var] if isinstance(f, Fin) else [])
    bits = bit_text(c, fb, i)
    no("tag URI", "from_tag_uri", lambda: tag_text(c, ft, i.body), names)
    no("bits", "from_binary", lambda: bits, names)
    no("hexadecimal", "from_hex", lambda: hex_text(i.st, bits), names)
    no("base64", "from_base64", lambda: base64_text(i.st, bits), names)


Prop("C25", c25_tasks, c25,
     "every representation of an identity of one scheme is refused by the class of every other scheme")


# -- C26 accepted element strings are given back ------------------------------------------------

CHECK_AT = {  # position of the check digit in the element string
    "SGTIN": 17, "LGTIN": 17, "UPUI": 17, "ITIP": 19, "SSCC": 21, "GSRN": 23, "GSRNP": 23,
    "GSIN": 21, "PGLN": 17, "SGLN": 17, "GRAI": 19, "GDTI": 17, "SGCN": 17,
}


def wide(name, n):
    """Cells over all characters considered, permitted or not."""
    return F.cells(name, "A" * n)


WINDOW = 8  # arbitrary characters in a row


def c26_tasks(thorough):
    out = []
    for s, t in ELEMENT_RUNS.items():
        for L in spec.PREFIXES:
            lens = (1, 2, 3, 20) if not thorough else range(1, 31)
            if len([x for x in t if not isinstance(x, str)]) < 2 and s not in ("GIAI", "GINC"):
                lens = (0,)
            for n in lens:
                out.append((s, L, n))
    for s in spec.TAGGED:
        for c in spec.SCHEMES[s].codings:
            shapes = spec.encodable(s, c, thorough)
            for sh, lim in few(shapes, 8 if not thorough else 80):
                for part in [*sh, "filter"] if spec.SCHEMES[s].filter_bits else sh:
                    n = len(sh.get(part, "d"))
                    for at in sorted({0, (n - WINDOW) // 2, n - WINDOW}) if n > WINDOW else [0]:
                        out.append((s, c, dict(sh, wide=part, at=at)))
    return out


def tag_kept(ctx, scheme, coding, shape):
    """Arbitrary characters in one component of a tag URI."""
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    segs, vs = [], []
    for k, name in enumerate(sp.parts):
        codes, at = shape[name], shape["at"]
        if shape["wide"] == name:
            codes = codes[:at] + "A" * len(codes[at:at + WINDOW]) + codes[at + WINDOW:]
        s, v = F.cells(name, codes)
        segs += (["."] if k else []) + s
        vs += v
    flt = []
    if sp.filter_bits:
        f, v = F.cells("filter", "A" if shape["wide"] == "filter" else "d")
        flt = f + ["."]
        vs += v
    text = mk_str(["urn:epc:tag:" + sp.codings[coding].label + ":"] + flt + segs)
    want = mk_str([sp.prefix] + segs)
    rule = "components kept"
    shown = {"tag": text}

    def step():
        bad = False
        outs = S.method(St(), S.cls(scheme), "from_tag_uri", [text])
        taken = 0
        for o in outs:
            if o.exc is not None:
                continue
            taken += 1
            asg = S.differ(o.st, S.uri(o.st, o.val), want, ctx.rng, vs)
            if asg is not None:
                ctx.fail(rule, o.st, vs, "accepted tag URI gives another identity", where(ctx), asg,
                         dict(shown, got=S.uri(o.st, o.val)))
                bad = True
        if not outs:
            raise Undecided("no outcome")
        if not bad:
            ctx.good(rule if taken else "nothing accepted")

    ctx.attempt(rule, step)


def c26(ctx, scheme, L, n):
    S = ctx.S
    if isinstance(L, str):
        return tag_kept(ctx, scheme, L, n)
    segs, vs, k = [], [], 0
    for it in ELEMENT_RUNS[scheme]:
        if isinstance(it, str):
            segs.append(it)
            continue
        name, most = it
        if scheme in ("GIAI", "GINC"):
            size = L + n if name == "k" else 0
        elif scheme == "CPI":
            size = {"k": L, "p": n, "s": 3}[name]
        else:
            size = most if name == "k" else n
        s, v = wide(name, size)
        segs += s
        vs += v
    text = mk_str(segs)
    st = St()
    size = total(st, spec.segs(text))
    at = CHECK_AT.get(scheme, size)
    pre = len(spec.SCHEMES[scheme].prefix)
    shown = {"element": text, "company_prefix_length": str(L)}

    def parts(s, x):
        for s1, a in slice_str(s, x, 0, at):
            if at >= size:
                yield s1, a, ""
            else:
                for s2, b in slice_str(s1, x, at + 1, None):
                    yield s2, a, b

    def step():
        bad = False
        outs = S.method(st, S.cls(scheme), "from_gs1_element_string", [text, L])
        taken = 0
        for o in outs:
            if o.exc is not None:
                continue
            taken += 1
            uri = S.uri(o.st, o.val)
            cut = slice_str(o.st, uri, pre, pre + L)
            for s1, cp in cut:
                if digits_value(s1, spec.segs(cp), spec.DIGITS) is None:
                    ctx.fail("prefix length", s1, vs, "company prefix is not as long as asked",
                             where(ctx), shown=dict(shown, uri=uri))
                    bad = True
                for s2, after in slice_str(s1, uri, pre + L, pre + L + 1):
                    asg = S.differ(s2, after, ".", ctx.rng, vs)
                    if asg is not None:
                        ctx.fail("prefix length", s2, vs, "company prefix is longer than asked",
                                 where(ctx), asg, dict(shown, uri=uri))
                        bad = True
            for b in S.method(o.st, o.val, "gs1_element_string"):
                sh = dict(shown, uri=uri)
                if b.exc is not None:
                    ctx.fail("text kept", b.st, vs, f"accepted element string raises {b.exc.name} "
                             "when given back", b.where, shown=sh)
                    bad = True
                    continue
                for s1, x1, x2 in parts(b.st, b.val):
                    for s2, y1, y2 in parts(s1, text):
                        asg = S.differ(s2, x1, y1, ctx.rng, vs)
                        if asg is None:
                            asg = S.differ(s2, x2, y2, ctx.rng, vs)
                        if asg is not None:
                            ctx.fail("text kept", s2, vs, "accepted element string is given back "
                                     "differently", where(ctx), asg, dict(sh, got=b.val))
                            bad = True
        if not outs:
            raise Undecided("no outcome")
        if not bad:
            ctx.good("text kept" if taken else "nothing accepted")

    ctx.attempt("text kept", step)


Prop("C26", c26_tasks, c26,
     "for arbitrary characters in an element string, whatever is accepted with a company prefix length "
     "has a company prefix of that many digits and the same element string but for the check digit; "
     "for arbitrary characters in a tag URI, whatever is accepted has exactly its components")


# -- C27 building a serialised GTIN from malformed parts ------------------------------


def c27_tasks(thorough):
    out = []
    for L in spec.PREFIXES:
        for k in range(14):
            out.append(("GTIN character", (("g", "d" * k + "n" + "d" * (13 - k)),), ("7",), L))
        for n in (8, 12, 13):
            for k in (0, n - 2, n - 1):
                out.append(("GTIN character", (("g", "d" * k + "n" + "d" * (n - 1 - k)),), ("7",), L))
        for n in (15, 16, 17, 28) if not thorough else range(15, 30):
            out.append(("GTIN length", (("g", "d" * n),), ("7",), L))
        for n in (1, 2, 10, 20) if not thorough else range(1, 21):
            for k in sorted({0, n // 2, n - 1}):
                for code in "B%^":
                    out.append(("serial character", (("g", "d" * 14),), (
                        ("s", "g" * k), ("x", code), ("t", "g" * (n - 1 - k))), L))
        for n in (0, 21, 22, 40):
            out.append(("serial length", (("g", "d" * 14),), (("s", "g" * n),), L))
    for L in (0, 1, 2, 3, 4, 5, 13, 14, 15, 20):
        for n in (8, 12, 13, 14):
            out.append(("prefix length", (("g", "d" * n),), (("s", "ggg"),), L))
    return out


def c27(ctx, kind, gtin, serial, L):
    S = ctx.S
    st, g, vs = F.build(gtin)
    _, s, more = F.build(serial)
    rule = f"malformed {kind}"
    shown = {"gtin": g, "serial": s, "company_prefix_length": str(L)}
    ctx.attempt(rule, lambda: ctx.refused(
        rule, S.method(st, S.cls("SGTIN"), "from_gtin_plus_serial", [g, s, L]), vs + more,
        f"serialised GTIN from malformed parts ({kind})", None, shown,
        lambda o: S.uri(o.st, o.val)))


Prop("C27", c27_tasks, c27,
     "a GTIN with a character that is no digit or with more than 14 digits, a malformed serial, or a "
     "company prefix length outside 6 to 12 builds no serialised GTIN identity")
