"""Obligations C10 to C20."""

import ast

from . import families as F
from . import rx, spec
from .dom import Fin, IVar, Lin, Num, St, Undecided, Var, as_lin, lin_mul, mk_str, mk_tab
from .heap import PatternV, Ref
from .props import (
    Prop, bit_text, built, c08_tasks, coding_tasks, family, few, identity_tasks, keywords,
    same_identity, tag_text, unknown, weak, where, _unique,
)
from .strs import digits_value, slice_str, str_len

# -- C10 refusing what a coding cannot hold ---------------------------------------


def c10(ctx, scheme, coding, shape, limits, why):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    names = i.vars + fv
    shown = {"uri": i.uri, "coding": coding}
    for o in built(ctx, "unrepresentable identity", scheme, i, names):
        for m in ("binary", "tag_uri", "hex", "base64"):
            ctx.attempt(f"{m} refuses", lambda o=o: ctx.refused(
                f"{m} refuses", S.method(o.st, o.val, m, kw=kw), names,
                f"{m} of an identity the coding cannot hold ({why})", None, shown, lambda x: x.val))


def c10_tasks(thorough):
    return [(s, c, sh, lim, why) for s in spec.TAGGED for c in spec.SCHEMES[s].codings
            for sh, lim, why in spec.unencodable(s, c, thorough)]


Prop("C10", c10_tasks, c10,
     "identities a coding cannot represent (letters, leading zeros, too many digits, values beyond the "
     "field) are refused by binary, tag_uri, hex and base64 of that coding")


# -- C11 hexadecimal and base64 ------------------------------------------------------


def words(st, bits_text):
    """(value, bytes) of a bit text padded on the right to 16 bit words."""
    n = str_len(st, bits_text)
    if not isinstance(n, int):
        raise Undecided("length of the bits depends on the case")
    pad = -n % 16
    v = digits_value(st, spec.segs(bits_text), "01")
    if v is None:
        raise Undecided("bits of unknown value")
    return lin_mul(as_lin(v), 2**pad), (n + pad) // 8


def number_text(v, base, width, upper=False):
    if not v.t and not v.a:
        digs = "0123456789abcdefghijklmnopqrstuvwxyz"
        if base == 64:
            digs = ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
        out, x = "", v.c
        for _ in range(width):
            out = digs[x % base] + out
            x //= base
        return out.upper() if upper else out
    return Num(v, base, width, upper)


def hex_text(st, bits_text, upper=True):
    v, nb = words(st, bits_text)
    return mk_str([number_text(v, 16, 2 * nb, upper)])


def base64_text(st, bits_text):
    v, nb = words(st, bits_text)
    digits = -(-8 * nb // 6)
    v = lin_mul(v, 2 ** (6 * digits - 8 * nb))
    return mk_str([number_text(v, 64, digits), "=" * (-digits % 4)])


def c11(ctx, scheme, coding, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    names = i.vars + fv
    shown = {"uri": i.uri, "coding": coding}
    for o in built(ctx, "hexadecimal text", scheme, i, names):
        def step(o=o):
            for b in S.method(o.st, o.val, "binary", kw=kw):
                if b.exc is not None:
                    ctx.fail("hexadecimal text", b.st, names,
                             f"encodable identity raises {b.exc.name}", b.where, shown=shown)
                    continue
                for rule, m, want in (("hexadecimal text", "hex", hex_text(b.st, b.val)),
                                      ("base64 text", "base64", base64_text(b.st, b.val))):
                    sh = dict(shown, binary=b.val)
                    ctx.attempt(rule, lambda: ctx.text(
                        rule, S.method(b.st, o.val, m, kw=kw), lambda x: x.val, want, names,
                        f"{m} against the bits padded to 16 bit words", None, sh))
                    ctx.attempt(rule + " read back", lambda: same_identity(
                        ctx, rule + " read back", S.method(b.st, S.cls(scheme), "from_" + m, [want]),
                        scheme, i.uri, names, f"decoding the {m} text", dict(sh, text=want)))
                low = hex_text(b.st, b.val, False)
                ctx.attempt("lower case hexadecimal", lambda: same_identity(
                    ctx, "lower case hexadecimal", S.method(
                        b.st, S.cls(scheme), "from_hex", [low]),
                    scheme, i.uri, names, "decoding lower case hexadecimal",
                    dict(shown, text=low)))
                if spec.SCHEMES[scheme].codings[coding].size:
                    tail, tv = F.cells("tail", "t" * 6)
                else:
                    tail, tv = ["0" * 18], []
                longer = mk_str(spec.segs(b.val) + tail)
                for m, text in (("hex", hex_text), ("base64", base64_text)):
                    def more(m=m, text=text):
                        want = text(b.st, longer)
                        same_identity(
                            ctx, f"{m} of a longer memory", S.method(
                                b.st, S.cls(scheme), "from_" + m, [want]), scheme, i.uri,
                            names + tv, f"decoding {m} with words of the tag memory following",
                            dict(shown, text=want))

                    ctx.attempt(f"{m} of a longer memory", more)

        ctx.attempt("hexadecimal text", step)


def c11_tasks(thorough):
    out = []
    for s in spec.TAGGED:
        for c in spec.SCHEMES[s].codings:
            v = [(s, c, sh, lim) for sh, lim in spec.encodable(s, c, thorough)]
            out.extend(v if thorough else few(v, 16))
    return out


Prop("C11", c11_tasks, c11,
     "hex() is the bits padded with zeros to whole 16 bit words in upper case hexadecimal, base64() "
     "the same bytes in base64; from_hex (either case) and from_base64 give the identity back, also when "
     "further words of the memory follow")


# -- C12 generic parsers ------------------------------------------------------------


def c12(ctx, scheme, coding, shape, limits):
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    i = spec.make(scheme, shape, limits)
    names = list(i.vars)
    shown = {"uri": i.uri}

    def identity(rule, fn, args, extra=(), sh=None):
        ctx.attempt(rule, lambda: same_identity(
            ctx, rule, S.call(i.st, S.fn(fn), args), scheme, i.uri, names + list(extra),
            f"{fn}", dict(shown, **(sh or {}))))

    def refused(rule, fn, args):
        ctx.attempt(rule, lambda: ctx.refused(
            rule, S.call(i.st, S.fn(fn), args), names, f"{fn} of a scheme without that form",
            None, shown))

    if coding is None:
        identity("pure identity", "epc_pure_identity_to_scheme", [i.uri])
        if sp.key:
            identity("keyed identity", "epc_pure_identity_to_gs1_keyed", [i.uri])
            ctx.attempt("key text", lambda: ctx.text(
                "key text", S.call(i.st, S.fn("epc_pure_identity_to_gs1_key"), [i.uri]),
                lambda o: o.val, mk_str(sp.key(i)), names, "key through the generic parser", None,
                shown))
        else:
            refused("no key", "epc_pure_identity_to_gs1_keyed", [i.uri])
            refused("no key", "epc_pure_identity_to_gs1_key", [i.uri])
        if sp.element:
            e = mk_str(sp.element(i))
            identity("element identity", "epc_pure_identity_to_gs1_element", [i.uri])
            ctx.attempt("element text", lambda: ctx.text(
                "element text", S.call(i.st, S.fn("epc_pure_identity_to_gs1_element_string"),
                                       [i.uri]),
                lambda o: o.val, e, names, "element string through the generic parser", None, shown))
            identity("element string", "gs1_element_string_to_gs1_element", [e, i.n("cp")],
                     sh={"element": e})
        else:
            refused("no element string", "epc_pure_identity_to_gs1_element", [i.uri])
            refused("no element string", "epc_pure_identity_to_gs1_element_string", [i.uri])
        if sp.codings:
            identity("tag encodable identity", "epc_pure_identity_to_tag_encodable", [i.uri])
        else:
            refused("not tag encodable", "epc_pure_identity_to_tag_encodable", [i.uri])
        return
    c = sp.codings[coding]
    a, fb, ft = S.filter(scheme)
    fv = [a.var] if isinstance(a, Fin) else []
    b = bit_text(c, fb, i)
    for rule, fn, text in (
        ("tag URI", "tag_uri_to_tag_encodable", lambda: tag_text(c, ft, i.body)),
        ("binary", "binary_to_tag_encodable", lambda: b),
        ("hexadecimal", "hex_to_tag_encodable", lambda: hex_text(i.st, b)),
        ("base64", "base64_to_tag_encodable", lambda: base64_text(i.st, b)),
    ):
        try:
            t = text()
        except Undecided as e:
            ctx.skip(rule, e)
            continue
        identity(rule, fn, [t], fv, {"text": t})


def c12_tasks(thorough):
    out = []
    for s in spec.SCHEMES:
        v = [(s, None, sh, lim) for sh, lim in spec.valid(s, thorough)]
        out.extend(few(v, 60 if thorough else 12))
        for c in spec.SCHEMES[s].codings:
            v = [(s, c, sh, lim) for sh, lim in spec.encodable(s, c, thorough)]
            out.extend(few(v, 60 if thorough else 12))
    return out


Prop("C12", c12_tasks, c12,
     "the generic parsers turn a pure identity, element string, tag URI, binary, hexadecimal or base64 "
     "text into the class of its scheme with the same identity, and refuse schemes without that form")


# -- C13 one key from every representation -----------------------------------------


def c13(ctx, scheme, coding, shape, limits):
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    i = spec.make(scheme, shape, limits)
    names = list(i.vars)
    want = mk_str(sp.key(i))
    f = S.fn("get_gs1_key")

    def key(rule, text, args=(), kw=None, extra=()):
        ctx.attempt(rule, lambda: ctx.text(
            rule, S.call(i.st, f, [text, *args], kw), lambda o: o.val, want, names + list(extra),
            f"key from {rule}", None, {"uri": i.uri, "text": text}))

    if coding is None:
        L = i.n("cp")
        key("pure identity", i.uri)
        key("pure identity with prefix length", i.uri, [L])
        e = mk_str(sp.element(i))
        key("element string", e, [L])
        key("element string, keyword", e, (), {"company_prefix_length": L})
        ctx.attempt("element string without prefix length", lambda: ctx.refused(
            "element string without prefix length", S.call(i.st, f, [e]), names,
            "element string without prefix length", None, {"text": e}))
        if scheme not in ("LGTIN",):
            p = mk_str([sp.prefix.replace(":id:", ":idpat:"), *spec.segs(i.body)])
            key("id pattern", p)
        return
    c = sp.codings[coding]
    a, fb, ft = S.filter(scheme)
    fv = [a.var] if isinstance(a, Fin) else []
    b = bit_text(c, fb, i)
    key("tag URI", tag_text(c, ft, i.body), extra=fv)
    key("binary", b, extra=fv)
    try:
        key("hexadecimal", hex_text(i.st, b), extra=fv)
        key("lower case hexadecimal", hex_text(i.st, b, False), extra=fv)
    except Undecided as e:
        ctx.skip("hexadecimal", e)


def c13_tasks(thorough):
    return [t for t in c12_tasks(thorough) if t[0] in spec.KEYED]


Prop("C13", c13_tasks, c13,
     "get_gs1_key returns the key of the identity for its pure identity URI, element string with "
     "prefix length, id pattern, tag URI, binary and hexadecimal text")


# -- C15 equality --------------------------------------------------------------------


def truth(ctx, st, a, op, b):
    """Outcomes (state, bool) of a comparison in the program."""
    I = ctx.S.I
    keep = I.collect
    I.collect = [[]]
    I.depth = 0
    try:
        r = I.compare(st.clone(), op, a, b)
        if I.collect[0]:
            raise Undecided("comparison raises")
    finally:
        I.collect = keep
    out = []
    for s, v in r:
        if not isinstance(v, bool):
            for s2, t in I.truth(s, v):
                out.append((s2, t))
        else:
            out.append((s, v))
    return out


def judge(ctx, rule, st, a, b, same, names, what, shown):
    bad = False
    for op, want in ((ast.Eq(), same), (ast.NotEq(), not same)):
        for s, v in truth(ctx, st, a, op, b):
            if v is not want:
                ctx.fail(rule, s, names, f"{what}: {'==' if isinstance(op, ast.Eq) else '!='} is {v}",
                         shown=shown)
                bad = True
    if not bad:
        ctx.good(rule)


def c15(ctx, scheme, shape, limits):
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    i = spec.make(scheme, shape, limits)
    for o in built(ctx, "equality", scheme, i):
        for p in S.call(o.st, S.cls(scheme), [i.uri]):
            if p.exc is None:
                ctx.attempt("equal identities", lambda: judge(
                    ctx, "equal identities", p.st, o.val, p.val, True, i.vars,
                    "two objects of one identity", {"uri": i.uri}))
                ctx.attempt("other kinds", lambda: [judge(
                    ctx, "other kinds", p.st, o.val, x, False, i.vars,
                    f"identity against {type(x).__name__}", {"uri": i.uri})
                    for x in (None, 5, i.uri, "")])
        # one character differs
        for part in sp.parts:
            for k, code in enumerate(shape[part]):
                if k not in (0, len(shape[part]) // 2, len(shape[part]) - 1):
                    continue
                chars = spec.CLASSES[code]
                name = f"{part}{k}"
                v = next((v for v in i.vars if v.name == name), None)
                esc = spec.ESCAPES.get(code, {})
                for c in sorted({chars[0], chars[-1], chars[len(chars) // 2]}
                                | ({"a"} & set(chars))):
                    st = o.st.clone()
                    if v is not None:
                        st.dom[v] = st.mask(v) & ~(1 << v.values.index(c))
                        if not st.dom[v] or not st.feasible():
                            continue
                    elif len(chars) < 2 or spec.PIN.get(name, c) == c:
                        continue
                    parts = {n: list(i.parts[n]) for n in sp.parts}
                    parts[part][k] = esc.get(c, c)
                    other = mk_str([sp.prefix, *spec.join([parts[n] for n in sp.parts], ".")])
                    for p in S.call(st, S.cls(scheme), [other]):
                        if p.exc is None:
                            ctx.attempt("different identities", lambda: judge(
                                ctx, "different identities", p.st, o.val, p.val, False, i.vars,
                                "objects of different identities", {"uri": i.uri, "other": other}))
        # one character more
        for part in sp.parts:
            if shape[part] and shape[part][-1] in "gpa" and not limits:
                parts = {n: list(i.parts[n]) for n in sp.parts}
                parts[part].append("0")
                other = mk_str([sp.prefix, *spec.join([parts[n] for n in sp.parts], ".")])
                for p in S.call(o.st, S.cls(scheme), [other]):
                    if p.exc is None:
                        ctx.attempt("different lengths", lambda: judge(
                            ctx, "different lengths", p.st, o.val, p.val, False, i.vars,
                            "objects of different identities", {"uri": i.uri, "other": other}))


def c15_cross(ctx, scheme, other):
    """Identities of different schemes are different."""
    S = ctx.S
    i = spec.make(scheme, F.ordered(scheme, F.typical(scheme)))
    j = spec.make(other, F.ordered(other, F.typical(other)))
    for o in built(ctx, "different schemes", scheme, i):
        for p in S.call(o.st, S.cls(other), [j.uri]):
            if p.exc is None:
                ctx.attempt("different schemes", lambda: judge(
                    ctx, "different schemes", p.st, o.val, p.val, False, i.vars + j.vars,
                    "identities of different schemes", {"uri": i.uri, "other": j.uri}))


def c15_any(ctx, *task):
    return c15(ctx, *task) if len(task) == 3 else c15_cross(ctx, *task)


def c15_tasks(thorough):
    out = []
    for s in spec.SCHEMES:
        v = [(s, sh, lim) for sh, lim in spec.valid(s, thorough)]
        out.extend(few(v, 24 if thorough else 7))
    names = list(spec.SCHEMES)
    for a in names:
        for b in names:
            if a != b:
                out.append((a, b))
    return out


Prop("C15", c15_tasks, c15_any,
     "two objects compare equal exactly when their identity texts are equal, != is the opposite, and "
     "identities differ from other schemes and from values of other types")


# -- C16 id patterns ------------------------------------------------------------------


def c16(ctx, scheme, L, stars, inside=None):
    """Wildcards for some components of an id pattern, or for one character."""
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    sh = F.ordered(scheme, F.typical(scheme, L))
    i = spec.make(scheme, sh)
    parts = [["*"] if p in stars else list(spec.segs(mk_str(i.parts[p]))) for p in sp.parts]
    if inside is not None:
        parts[0] = parts[0][:inside] + ["*"] + parts[0][inside + 1:]
    text = mk_str(["urn:epc:idpat:" + scheme.lower() + ":"] + spec.join(parts, "."))
    shown = {"pattern": text}
    f = S.fn("get_gs1_key")
    if stars == ("serial",) and inside is None and scheme in ("SGTIN", "SGLN"):
        ctx.attempt("wildcard serial", lambda: ctx.text(
            "wildcard serial", S.call(i.st, f, [text]), lambda o: o.val, mk_str(sp.key(i)), i.vars,
            "key of an id pattern with any serial", None, shown))
    else:
        ctx.attempt("wildcard key", lambda: ctx.refused(
            "wildcard key", S.call(i.st, f, [text]), i.vars,
            "id pattern that fixes no key", None, shown, lambda o: o.val))


def c16_tasks(thorough):
    out = []
    for s in spec.KEYED:
        if s == "LGTIN":
            continue
        ps = tuple(spec.SCHEMES[s].parts)
        for L in spec.PREFIXES:
            for stars in subsets(ps):
                if stars == ps[-1:] and s in ("GRAI", "GDTI", "GIAI", "GINC"):
                    continue  # "*" is itself a permitted serial character there
                if stars:
                    out.append((s, L, stars))
            for k in (0, 1, L - 1):
                out.append((s, L, (), k))
                if s in ("SGTIN", "SGLN"):
                    out.append((s, L, ps[-1:], k))
    for s in ("UPUI", "ITIP", "CPI", "GID", "USDOD", "ADI"):
        out.extend((s, 7, stars) for stars in subsets(spec.SCHEMES[s].parts))
    return out


def subsets(items):
    out = [()]
    for it in items:
        out += [o + (it,) for o in out]
    return out


Prop("C16", c16_tasks, c16,
     "an id pattern whose wildcards leave the key fixed gives that key; one whose wildcards cover part "
     "of the key, or whose scheme has no key, is refused")


# -- C18 shorter GTIN forms ---------------------------------------------------------


GTINS = {"GTIN8": 8, "GTIN12": 12, "GTIN13": 13, "GTIN14": 14}


def c18(ctx, scheme, L, form, lead):
    """GTIN whose first `lead` digits are zero and whose next is not."""
    S = ctx.S
    sh = F.ordered(scheme, F.typical(scheme, L))
    order = [("item", 0)] + [("cp", k) for k in range(L)] + [
        ("item", k) for k in range(1, len(sh["item"]))]
    need = 14 - GTINS[form]
    codes = {p: list(sh[p]) for p in ("cp", "item")}
    for k, (p, at) in enumerate(order[:need]):
        codes[p][at] = "0" if k < lead else "D" if k == lead else "d"
    sh["cp"], sh["item"] = "".join(codes["cp"]), "".join(codes["item"])
    i = spec.make(scheme, sh)
    enum = S.I.class_attr(St(), S.cls(scheme), "GTIN_TYPE") or gtin_enum(S, scheme)
    member = S.member(enum, form)
    g = spec.SCHEMES[scheme].key(i)
    shown = {"uri": i.uri, "form": form}
    for o in built(ctx, "shorter GTIN", scheme, i):
        for m in ("gtin", "gs1_key"):
            r = lambda: S.method(o.st, o.val, m, kw={"gtin_type": member})  # noqa: B023, E731
            if lead >= need:
                ctx.attempt("shorter GTIN", lambda: ctx.text(
                    "shorter GTIN", r(), lambda x: x.val, mk_str(g[need:]), i.vars,
                    f"{form} of a GTIN with enough leading zeros", None, shown))
            else:
                ctx.attempt("GTIN too long", lambda: ctx.refused(
                    "GTIN too long", r(), i.vars, f"{form} of a longer GTIN", None, shown,
                    lambda x: x.val))
        if lead >= need and scheme == "SGTIN":
            sh2 = dict(shown, gtin=mk_str(g[need:]))
            ctx.attempt("from a shorter GTIN", lambda: same_identity(
                ctx, "from a shorter GTIN", S.method(
                    i.st, S.cls(scheme), "from_gtin_plus_serial",
                    [mk_str(g[need:]), mk_str(i.parts["serial"]), L]),
                scheme, i.uri, i.vars, f"building from a {form} and a serial", sh2))
        calls = [("get_gs1_key", [i.uri]), ("epc_pure_identity_to_gs1_key", [i.uri]),
                 ("get_gs1_key", [mk_str(spec.SCHEMES[scheme].element(i)), L])]
        c = spec.SCHEMES[scheme].codings.get("SGTIN_198")
        if c is not None:
            a, fb, ft = S.filter(scheme)
            calls.append(("get_gs1_key", [tag_text(c, ft, i.body)]))
            calls.append(("get_gs1_key", [bit_text(c, fb, i)]))
        for fn, args in calls:
            r = lambda: S.call(o.st, S.fn(fn), args, {"gtin_type": member})  # noqa: E731
            if lead >= need:
                ctx.attempt("shorter GTIN", lambda: ctx.text(
                    "shorter GTIN", r(), lambda x: x.val, mk_str(g[need:]), i.vars,
                    f"{form} through {fn}", None, shown))
            else:
                ctx.attempt("GTIN too long", lambda: ctx.refused(
                    "GTIN too long", r(), i.vars, f"{form} of a longer GTIN through {fn}", None,
                    shown, lambda x: x.val))


def gtin_enum(S, scheme):
    for mod in (f"epcpy.epc_schemes.{scheme.lower()}", "epcpy.epc_schemes.sgtin", "epcpy.epc_schemes"):
        e = S.I.get_global(f"{mod}.GTIN_TYPE")
        if e is not None:
            return e
    from .an import Broken

    raise Broken("GTIN types not found")


def c18_tasks(thorough):
    return [(s, L, f, k) for s in ("SGTIN", "LGTIN") for L in spec.PREFIXES for f, n in GTINS.items()
            for k in range(0, 14 - n + 1)]


Prop("C18", c18_tasks, c18,
     "a shorter GTIN form is the GTIN without its leading zeros, and is refused when a dropped digit is "
     "not zero")
