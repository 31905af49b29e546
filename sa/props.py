"""Obligations, property by property.

Each property has ``tasks(thorough)``, a list of picklable tuples, and
``run(ctx, *task)``, which analyses the program on one family and records
verdicts.
"""

from . import families as F
from . import rx, spec
from .an import Broken, assignment
from .core import Ctx  # noqa: F401 - re-exported for the runner
from .dom import AStr, Fin, IVar, Lin, Num, St, Undecided, Var, as_lin, lin_add, lin_mod, lin_mul, mk_str
from .heap import ClassV, PatternV, Ref
from .strs import digits_value, is_str, slice_str

PROPS = {}


class Prop:
    def __init__(self, pid, tasks, run, rule, assume=(), post=None):
        self.pid = pid
        self.tasks = tasks
        self.run = run
        self.rule = rule
        self.assume = list(assume)
        self.post = post
        PROPS[pid] = self


# -- shared steps ------------------------------------------------------------


def fvars(arg):
    return [arg.var] if isinstance(arg, Fin) else []


def built(ctx, rule, scheme, i, names=None):
    """Outcomes of constructing a valid identity; refusals are violations."""
    outs = ctx.S.call(i.st, ctx.S.cls(scheme), [i.uri])
    good = []
    for o in outs:
        if o.exc is not None:
            ctx.fail(rule, o.st, names or i.vars, f"valid {scheme} identity raises {o.exc.name}",
                     o.where, shown={"uri": i.uri})
        else:
            good.append(o)
    return good


def keywords(ctx, scheme, coding):
    """(keyword arguments, filter bits, filter text, variables)"""
    a, fb, ft = ctx.S.filter(scheme)
    kw = {"binary_coding_scheme": ctx.S.coding(scheme, coding)}
    if a is not None:
        kw["filter_value"] = a
    return kw, fb, ft, fvars(a)


def tag_text(c, ft, body):
    return mk_str(["urn:epc:tag:" + c.label + ":"] + ft + (["."] if ft else []) + spec.segs(body))


def bit_text(c, fb, i):
    return mk_str([c.header] + fb + c.bits(i))


def same_identity(ctx, rule, outs, scheme, uri, names, what, shown):
    """Outcomes are instances of the scheme carrying exactly this URI."""
    S = ctx.S
    cls = S.cls(scheme)

    def get(o):
        c = S.classof(o.st, o.val)
        if c is not cls:
            return None
        return S.uri(o.st, o.val)

    return ctx.text(rule, outs, get, uri, names, what, where(ctx), shown)


def where(ctx):
    return ctx.S.entry


def coding_tasks(thorough, schemes=None):
    out = []
    for s in schemes or spec.TAGGED:
        for c in spec.SCHEMES[s].codings:
            for sh, lim in spec.encodable(s, c, thorough):
                out.append((s, c, sh, lim))
    return out


def identity_tasks(schemes):
    def f(thorough):
        return [(s, sh, lim) for s in schemes for sh, lim in spec.valid(s, thorough)]

    return f


def few(items, n):
    """At most n items, evenly picked, ends included."""
    if len(items) <= n:
        return list(items)
    return [items[round(k * (len(items) - 1) / (n - 1))] for k in range(n)]


# -- C01 binary round trip ------------------------------------------------------


TAILS = (1, 6, 16, 32, 160)  # bits that follow; each family is taken with two of these


def c01(ctx, scheme, coding, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    names = i.vars + fv
    shown = {"uri": i.uri, "coding": coding}
    for o in built(ctx, "binary round trip", scheme, i, names):
        def step(o=o):
            for b in S.method(o.st, o.val, "binary", kw=kw):
                if b.exc is not None:
                    ctx.fail("binary round trip", b.st, names,
                             f"encodable identity raises {b.exc.name}", b.where, shown=shown)
                    continue
                sh = dict(shown, binary=b.val)
                same_identity(ctx, "binary round trip", S.method(b.st, S.cls(scheme),
                              "from_binary", [b.val]), scheme, i.uri, names,
                              "decoding the encoded identity", sh)
                fixed = spec.SCHEMES[scheme].codings[coding].size
                w = sum(map(len, shape.values()))
                for n in sorted({TAILS[w % 5], TAILS[(w + 2) % 5]}) if fixed else (1, 14, 48):
                    tail, tv = F.cells("tail", "t" * n) if fixed else (["0" * n], [])
                    t = mk_str(spec.segs(b.val) + tail)
                    same_identity(ctx, "bits after the tag", S.method(
                        b.st, S.cls(scheme), "from_binary", [t]), scheme, i.uri, names + tv,
                        f"decoding with {n} further bits of memory following", dict(sh, binary=t))

        ctx.attempt("binary round trip", step)


Prop("C01", coding_tasks, c01,
     "binary(filter, coding) of every identity the coding can hold decodes with from_binary to the "
     "same class and the same identity text, for every filter value, also when further bits follow")


# -- C02 bit layout -----------------------------------------------------------


def c02(ctx, scheme, coding, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    c = spec.SCHEMES[scheme].codings[coding]
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    names = i.vars + fv
    want = bit_text(c, fb, i)
    shown = {"uri": i.uri, "coding": coding}
    for o in built(ctx, "bit layout", scheme, i, names):
        ctx.attempt("bit layout", lambda o=o: ctx.text(
            "bit layout", S.method(o.st, o.val, "binary", kw=kw), lambda b: b.val, want, names,
            "encoded bits against the layout of the standard", None, shown))
    ctx.attempt("bits read back", lambda: same_identity(
        ctx, "bits read back", S.method(i.st, S.cls(scheme), "from_binary", [want]), scheme, i.uri,
        names, "decoding the bits the standard prescribes", dict(shown, binary=want)))


Prop("C02", coding_tasks, c02,
     "binary(filter, coding) equals header, filter, partition and fields as laid out by the Tag Data "
     "Standard, and from_binary reads exactly that layout")


# -- C03 tag URI -----------------------------------------------------------------


def c03(ctx, scheme, coding, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    c = spec.SCHEMES[scheme].codings[coding]
    kw, fb, ft, fv = keywords(ctx, scheme, coding)
    names = i.vars + fv
    want = tag_text(c, ft, i.body)
    shown = {"uri": i.uri, "coding": coding}
    for o in built(ctx, "tag URI text", scheme, i, names):
        ctx.attempt("tag URI text", lambda o=o: ctx.text(
            "tag URI text", S.method(o.st, o.val, "tag_uri", kw=kw), lambda b: b.val, want, names,
            "tag URI against the text of the standard", None, shown))
    ctx.attempt("tag URI read back", lambda: same_identity(
        ctx, "tag URI read back", S.method(i.st, S.cls(scheme), "from_tag_uri", [want]), scheme,
        i.uri, names, "reading the tag URI", dict(shown, tag=want)))


Prop("C03", coding_tasks, c03,
     "tag_uri(filter, coding) is urn:epc:tag:<coding>:<filter>.<components> and from_tag_uri of that "
     "text gives the same identity")


# -- C04 GS1 key, C06 check digit ---------------------------------------------------


def c04(ctx, scheme, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    want = mk_str(spec.SCHEMES[scheme].key(i))
    shown = {"uri": i.uri}
    for o in built(ctx, "key content", scheme, i):
        ctx.attempt("key content", lambda o=o: ctx.text(
            "key content", S.method(o.st, o.val, "gs1_key"), lambda b: b.val, want, i.vars,
            "GS1 key", None, shown))
        if scheme in ("SGTIN", "LGTIN"):
            ctx.attempt("key content", lambda o=o: ctx.text(
                "key content", S.method(o.st, o.val, "gtin"), lambda b: b.val, want, i.vars,
                "GTIN", None, shown))


Prop("C04", identity_tasks(spec.KEYED), c04,
     "gs1_key() of every valid identity is the digits of company prefix and reference in GS1 order, "
     "the check digit and, for serialised keys, the unescaped serial")


CHECKED = {  # scheme -> (digits in the key, digits in the element string from, to)
    "SGTIN": (14, 4, 18), "LGTIN": (14, 4, 18), "UPUI": (None, 4, 18), "ITIP": (None, 6, 20),
    "SSCC": (18, 4, 22), "GSRN": (18, 6, 24), "GSRNP": (18, 6, 24), "GSIN": (17, 5, 22),
    "PGLN": (13, 5, 18), "SGLN": (13, 5, 18), "GRAI": (13, 7, 20), "GDTI": (13, 5, 18),
    "SGCN": (13, 5, 18),
}


def modulo(ctx, rule, outs, lo, hi, names, what, shown):
    """The digits lo..hi of every outcome satisfy the GS1 modulo 10 check."""
    bad = False
    for o in outs:
        if o.exc is not None:
            ctx.fail(rule, o.st, names, f"{what}: raises {o.exc.name}", o.where, shown=shown)
            bad = True
            continue
        sums = [(o.st, Lin(0))]
        for k in range(lo, hi):
            more = []
            for s0, total in sums:
                for st, ch in slice_str(s0, o.val, k, k + 1):
                    if not len(spec.segs(ch)):
                        ctx.fail(rule, st, names, f"{what}: too few digits", where(ctx),
                                 shown=dict(shown, got=o.val))
                        bad = True
                        continue
                    d = digits_value(st, spec.segs(ch), spec.DIGITS)
                    if d is None:
                        raise Undecided("not a digit")
                    more.append((st, lin_add(
                        total, lin_mul(as_lin(d), 1 if (hi - 1 - k) % 2 == 0 else 3))))
            sums = more
            if len(sums) > 40:
                raise Undecided("digits depend on too many cases")
        for st, total in sums:
            r = as_lin(lin_mod(st, total, 10))
            if r.t or r.a or r.c:
                asg = ctx.S.differ(st, mk_str([Num(r, 10, 1)]) if (r.t or r.a) else str(r.c), "0",
                                   ctx.rng, names)
                if asg is not None:
                    ctx.fail(rule, st, names, f"{what}: check digit does not validate", where(ctx),
                             asg, dict(shown, got=o.val))
                    bad = True
    if not bad:
        ctx.good(rule)


def c06(ctx, scheme, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    n, lo, hi = CHECKED[scheme]
    shown = {"uri": i.uri}
    for o in built(ctx, "check digit", scheme, i):
        if n:
            ctx.attempt("check digit of the key", lambda o=o: modulo(
                ctx, "check digit of the key", S.method(o.st, o.val, "gs1_key"), 0, n, i.vars,
                "GS1 key", shown))
        ctx.attempt("check digit of the element string", lambda o=o: modulo(
            ctx, "check digit of the element string",
            S.method(o.st, o.val, "gs1_element_string"), lo, hi, i.vars, "element string", shown))


def c06_tasks(thorough):
    out = []
    for s in CHECKED:
        vs = spec.valid(s, thorough)
        seen = {}
        for sh, lim in vs:
            seen.setdefault(len(sh["cp"]), []).append((s, sh, lim))
        for k, v in seen.items():
            out.extend(v if thorough else few(v, 3))
    return out


Prop("C06", c06_tasks, c06,
     "the GS1 digits of gs1_key() and gs1_element_string() satisfy the modulo 10 check, weights 3 and "
     "1 from the right")


# -- C05 element strings ------------------------------------------------------------


def c05(ctx, scheme, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    want = mk_str(spec.SCHEMES[scheme].element(i))
    shown = {"uri": i.uri}
    for o in built(ctx, "element string content", scheme, i):
        ctx.attempt("element string content", lambda o=o: ctx.text(
            "element string content", S.method(o.st, o.val, "gs1_element_string"), lambda b: b.val,
            want, i.vars, "element string", None, shown))
    sh = dict(shown, element=want, company_prefix_length=str(i.n("cp")))
    ctx.attempt("element string read back", lambda: same_identity(
        ctx, "element string read back", S.method(
            i.st, S.cls(scheme), "from_gs1_element_string", [want, i.n("cp")]),
        scheme, i.uri, i.vars, "reading the element string", sh))
    if scheme == "SGTIN":
        g = mk_str(spec.SCHEMES[scheme].key(i))
        s = mk_str(i.parts["serial"])
        ctx.attempt("GTIN and serial", lambda: same_identity(
            ctx, "GTIN and serial", S.method(
                i.st, S.cls(scheme), "from_gtin_plus_serial", [g, s, i.n("cp")]),
            scheme, i.uri, i.vars, "building from GTIN and serial", dict(shown, gtin=g, serial=s)))


Prop("C05", identity_tasks(spec.ELEMENTS), c05,
     "gs1_element_string() is the application identifiers, key digits and unescaped text of the GS1 "
     "General Specifications, and from_gs1_element_string with the prefix length gives the identity "
     "back")


# -- C07 valid identities ------------------------------------------------------------


def c07(ctx, scheme, shape, limits):
    S = ctx.S
    i = spec.make(scheme, shape, limits)
    shown = {"uri": i.uri}
    for rule, f in (
        ("constructor", lambda: S.call(i.st, S.cls(scheme), [i.uri])),
        ("from_epc_uri", lambda: S.method(i.st, S.cls(scheme), "from_epc_uri", [i.uri])),
        ("generic parser", lambda: S.call(i.st, S.fn("epc_pure_identity_to_scheme"), [i.uri])),
    ):
        ctx.attempt(rule, lambda: same_identity(
            ctx, rule, f(), scheme, i.uri, i.vars, f"valid identity through {rule}", shown))


Prop("C07", identity_tasks(list(spec.SCHEMES)), c07,
     "every identity of the forms of the Tag Data Standard is accepted by the class, by from_epc_uri "
     "and by the generic parser, and its text is kept unchanged")


# -- C08 malformed identities ------------------------------------------------------


def family(template, limits, plain=False):
    """State, text and variables of a template with numeric limits."""
    from .dom import assume_range

    st, text, vs = F.build(template, plain)
    for name, lo, hi in limits:
        segs = []
        for it in template:
            if not isinstance(it, str) and it[0] == name:
                segs = _component(template, text, name)
        lin = as_lin(digits_value(st, segs, spec.DIGITS))
        st = assume_range(st, lin, lo, hi)
        if st is None:
            raise ValueError("empty family")
    return st, text, vs


def _component(template, text, name):
    """Segments of one component, sharing the variables of the text."""
    byname = {}
    for t in spec.segs(text):
        v = getattr(t, "var", None)
        if v is not None:
            byname[v.name] = t
    for it in template:
        if not isinstance(it, str) and it[0] == name:
            out = []
            for k, code in enumerate(it[1]):
                n = f"{name}{k}"
                if n in byname:
                    out.append(byname[n])
                else:
                    out.append(spec.PIN.get(n, code))
            return out
    raise KeyError(name)


def c08_tasks(thorough):
    out = []
    for s in spec.SCHEMES:
        for kind, t, lim in F.bad_identities(s, thorough):
            out.append((s, kind, t, lim))
        out.append((s, "any other text", (), ()))
    return _unique(out)


def _unique(tasks):
    seen, out = set(), []
    for t in tasks:
        k = repr(t)
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


COARSE = {  # languages containing every identity of a scheme; all else is refused
    "digits": "[0-9]",
    "text": "(%[0-9A-Fa-f]{2}|[!'()*+,\\-.0-9:;=A-Z_a-z])",
}


def coarse(scheme):
    d, t = COARSE["digits"], COARSE["text"]
    pre = spec.SCHEMES[scheme].prefix
    if scheme in ("SGLN", "GRAI", "GDTI"):
        body = f"{d}{{6,12}}\\.{d}{{0,6}}\\.{t}+"
    elif scheme in ("SGTIN", "LGTIN", "UPUI"):
        body = f"{d}{{6,12}}\\.{d}{{1,7}}\\.{t}+"
    elif scheme == "ITIP":
        body = f"{d}{{6,12}}\\.{d}{{1,7}}\\.{d}{{2}}\\.{d}{{2}}\\.{t}+"
    elif scheme == "SGCN":
        body = f"{d}{{6,12}}\\.{d}{{0,6}}\\.{d}{{1,12}}"
    elif scheme in ("SSCC", "GSRN", "GSRNP"):
        body = f"{d}{{6,12}}\\.{d}{{5,11}}"
    elif scheme == "GSIN":
        body = f"{d}{{6,12}}\\.{d}{{4,10}}"
    elif scheme == "PGLN":
        body = f"{d}{{6,12}}\\.{d}{{0,6}}"
    elif scheme in ("GIAI", "GINC"):
        body = f"{d}{{6,12}}\\.{t}+"
    elif scheme == "CPI":
        body = f"{d}{{6,12}}\\.([0-9A-Z\\-]|%2[3F])+\\.(0|[1-9]{d}{{0,11}})"
    elif scheme == "GID":
        body = f"(0|[1-9]{d}{{0,8}})\\.(0|[1-9]{d}{{0,7}})\\.(0|[1-9]{d}{{0,10}})"
    elif scheme == "USDOD":
        body = f"[0-9A-HJ-NP-Z]{{5,6}}\\.(0|[1-9]{d}{{0,10}})"
    elif scheme == "ADI":
        body = "[0-9A-HJ-NP-Z]{5,6}\\.([A-Z0-9\\-]|%2F){0,32}\\.(%23)?([A-Z0-9\\-]|%2F){1,30}"
    elif scheme == "BIC":
        body = "[A-HJ-NP-Z]{3}[JUZ][0-9]{7}"
    else:
        body = "[0-9]{7}"
    return pre + body


def weak(scheme):
    """A language the syntax test alone is expected to stay inside."""
    d, t = COARSE["digits"], COARSE["text"]
    pre = spec.SCHEMES[scheme].prefix
    n = "(0|[1-9][0-9]*)"
    body = {
        3: f"{d}*\\.{d}*\\.{t}*",
        5: f"{d}*\\.{d}*\\.{d}*\\.{d}*\\.{t}*",
        2: f"{d}*\\.{t}*",
    }.get(len(spec.SCHEMES[scheme].parts))
    if scheme == "CPI":
        body = f"{d}*\\.([0-9A-Z\\-]|%2[3F])*\\.{n}"
    elif scheme == "GID":
        body = f"{n}\\.{n}\\.{n}"
    elif scheme == "USDOD":
        body = f"[0-9A-HJ-NP-Z]{{5,6}}\\.{n}"
    elif scheme == "ADI":
        body = "[0-9A-HJ-NP-Z]{5,6}\\.([A-Z0-9\\-]|%2F)*\\.(%23)?([A-Z0-9\\-]|%2F)+"
    elif scheme in ("SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"):
        body = f"{d}*\\.{d}*"
    elif scheme == "SGCN":
        body = f"{d}*\\.{d}*\\.{d}*"
    elif scheme in ("BIC", "IMOVN"):
        return coarse(scheme)
    return pre + body


def unknown(name, *cons):
    """An arbitrary text constrained by patterns, or its pinned member."""
    if "text" in spec.PIN:
        return spec.PIN["text"]
    return mk_str([F.opaque(name, *cons)])


def c08(ctx, scheme, kind, template, limits):
    S = ctx.S
    if kind == "any other text":
        text = unknown("text", (rx.prog(weak(scheme)), False))
        if isinstance(text, str) and rx.prog(weak(scheme)).fullmatch(text):
            return
        ctx.attempt("unlike any identity", lambda: ctx.refused(
            "unlike any identity", S.call(St(), S.cls(scheme), [text]), [],
            "text that has not the syntax of the scheme", shown={"text": text}))
        return
    st, text, vs = family(template, limits)
    shown = {"text": text}
    ctx.attempt(kind, lambda: ctx.refused(
        kind, S.call(st, S.cls(scheme), [text]), vs, f"malformed {scheme} identity ({kind})",
        where(ctx), shown))
    if kind != "prefix":
        ctx.attempt(kind + ", generic parser", lambda: ctx.refused(
            kind + ", generic parser", S.call(st, S.fn("epc_pure_identity_to_scheme"), [text]), vs,
            f"malformed {scheme} identity ({kind}) through the generic parser", where(ctx), shown))


Prop("C08", c08_tasks, c08,
     "texts outside the identity syntax of the Tag Data Standard (lengths, characters, escapes, "
     "components, prefixes, surroundings, value ranges) are refused by the class and the generic parser")
