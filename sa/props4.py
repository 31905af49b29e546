"""Obligations on effects (C14) and on pattern matching cost (C19)."""

from . import families as F
from . import rx, spec
from .dom import Fin, St, Undecided, mk_str, mk_tab, Var
from .an import Out
from .heap import Ref
from .props import Prop, bit_text, keywords, tag_text
from .props2 import base64_text, gtin_enum, hex_text
from .props3 import sample
from .strs import is_str, same_text

# -- C14 earlier and concurrent calls ----------------------------------------------


def pair(scheme, coding, part, last=False):
    """Two identities that differ in the first or last character of one component only."""
    sh = sample(scheme, coding) if coding else F.ordered(scheme, F.typical(scheme))
    i = spec.make(scheme, sh)
    if part is None:
        return i, i, i.st
    st = i.st.clone()
    j = spec.make(scheme, sh)
    k = len(sh[part]) - 1 if last or (sh[part][0] in "D" and len(sh[part]) > 1) else 0
    name = f"{part}{k}"
    chars = spec.CLASSES[sh[part][k]]
    v = next((x for x in i.vars if x.name == name), None)
    if v is not None:
        c = chars[len(chars) // 2]
        st.dom[v] = v.full & ~(1 << v.values.index(c))
    else:
        c = next((x for x in chars[::-1] if x != spec.PIN.get(name, chars[0])), None)
        if c is None:
            raise Undecided("component is fixed")
    esc = spec.ESCAPES.get(sh[part][k], {})
    j.st = st
    j.vars = i.vars
    for n in i.parts:
        j.parts[n], j.plain[n] = list(i.parts[n]), list(i.plain[n])
    j.parts[part][k] = esc.get(c, c)
    j.plain[part][k] = c
    sp = spec.SCHEMES[scheme]
    j.body = mk_str(spec.join([j.parts[n] for n in sp.parts], "."))
    j.uri = mk_str([sp.prefix, *spec.segs(j.body)])
    return i, j, st


def operations(ctx, scheme, coding, i, st):
    """(name, function of a state giving outcomes) for one identity."""
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    cls = S.cls(scheme)
    ops = [("constructor", lambda s: S.call(s, cls, [i.uri])),
           ("epc_pure_identity_to_scheme",
            lambda s: S.call(s, S.fn("epc_pure_identity_to_scheme"), [i.uri]))]
    if sp.key:
        ops.append(("get_gs1_key", lambda s: S.call(s, S.fn("get_gs1_key"), [i.uri])))
    if sp.element:
        e = mk_str(sp.element(i))
        ops.append(("from_gs1_element_string",
                    lambda s: S.method(s, cls, "from_gs1_element_string", [e, i.n("cp")])))
        ops.append(("gs1_element_string_to_gs1_element", lambda s: S.call(
            s, S.fn("gs1_element_string_to_gs1_element"), [e, i.n("cp")])))
    if coding:
        c = sp.codings[coding]
        a, fb, ft = S.filter(scheme, next(iter(sp.filters)) if sp.filters else None)
        t, b = tag_text(c, ft, i.body), bit_text(c, fb, i)
        h, d = hex_text(st, b), base64_text(st, b)
        for n, x in (("from_tag_uri", t), ("from_binary", b), ("from_hex", h), ("from_base64", d)):
            ops.append((n, lambda s, n=n, x=x: S.method(s, cls, n, [x])))
        for n, x in (("tag_uri_to_tag_encodable", t), ("binary_to_tag_encodable", b),
                     ("hex_to_tag_encodable", h), ("base64_to_tag_encodable", d)):
            ops.append((n, lambda s, n=n, x=x: S.call(s, S.fn(n), [x])))
    bad = mk_str(spec.segs(i.uri) + ["\n"])
    ops.append(("refused constructor", lambda s: S.call(s, cls, [bad])))
    return ops


def methods(ctx, scheme, pins):
    """(name, keyword arguments) of the instance methods."""
    S = ctx.S
    sp = spec.SCHEMES[scheme]
    out = []
    if sp.key:
        out.append(("gs1_key", {}))
    if scheme in ("SGTIN", "LGTIN"):
        enum = gtin_enum(S, scheme)
        for n in ("GTIN14", "GTIN13", "GTIN12"):
            out.append(("gtin", {"gtin_type": S.member(enum, n)}))
            out.append(("gs1_key", {"gtin_type": S.member(enum, n)}))
    if sp.element:
        out.append(("gs1_element_string", {}))
    for c in sp.codings:
        for pin in pins:
            a, fb, ft = S.filter(scheme, pin)
            kw = {"binary_coding_scheme": S.coding(scheme, c)}
            if a is not None:
                kw["filter_value"] = a
            for m in ("tag_uri", "binary", "hex", "base64"):
                out.append((m, kw))
    return out


def value(ctx, o):
    """Comparable result of an outcome: text, class and text, or error."""
    if o.exc is not None:
        return ("raises", o.exc.name)
    if is_str(o.val):
        return ("text", o.val)
    if isinstance(o.val, Ref):
        return (ctx.S.classof(o.st, o.val), ctx.S.uri(o.st, o.val))
    return ("value", o.val)


def same_result(ctx, rule, before, call, later, names, what, shown):
    """Every later outcome equals what the call gives without history."""
    bad = False
    for o in later:
        y = value(ctx, o)
        # the same cases as the later outcome, but with the heap as it was
        st = St(dict(o.st.dom), o.st.cons, dict(before.heap),
                tuple(dict(f) for f in before.frames), before.writes)
        for f in call(st):
            bad |= compare(ctx, rule, f, o, value(ctx, f), y, names, what, shown)
    if not bad:
        ctx.good(rule)


def compare(ctx, rule, f, o, x, y, names, what, shown):
    """True (and a report) when the two results differ somewhere in the cases of f."""
    if x[0] != y[0] or (x[0] == "raises" and x != y):
        ctx.fail(rule, f.st, names, f"{what}: {result(x)} becomes {result(y)}", o.where,
                 shown=shown)
        return True
    if x[0] == "raises":
        return False
    if is_str(x[1]):
        asg = ctx.S.differ(f.st, y[1], x[1], ctx.rng, names)
        if asg is not None:
            ctx.fail(rule, f.st, names, f"{what}: other text", None, asg,
                     dict(shown, got=y[1], expected=x[1]))
            return True
    elif x[1] != y[1]:
        raise Undecided("results of unknown kind")
    return False


def result(x):
    return f"error {x[1]}" if x[0] == "raises" else "a value"


def written(ctx, before, after):
    """{object: {key: value}} of shared objects that changed."""
    I = ctx.S.I
    out = {}
    for id_, o in after.heap.items():
        old = before.heap.get(id_) or I.base.get(id_)
        if old is None or o is old or not isinstance(o.data, dict):
            continue
        ch = {k: v for k, v in o.data.items() if old.data.get(k) is not v}
        if ch:
            out[id_] = ch
    return out


def c14(ctx, scheme, coding, part, last):
    S = ctx.S
    i, j, st = pair(scheme, coding, part, last)
    names = i.vars
    shown = {"uri": i.uri, "earlier": j.uri}
    # calls that create objects
    first = operations(ctx, scheme, coding, j, st)
    second = operations(ctx, scheme, coding, i, st)
    for n2, f2 in first:
        def step(n2=n2, f2=f2):
            for o in f2(st):
                touched = written(ctx, st, o.st)
                if not o.st.writes and not touched:
                    ctx.good("no shared state written")
                    continue
                if part is None:
                    strangers(ctx, scheme, o, n2, shown)
                for n1, f1 in second:
                    ctx.attempt("result after an earlier call", lambda: same_result(
                        ctx, "result after an earlier call", st, f1, f1(o.st), names,
                        f"{n1} after {n2}", shown))
                    ctx.attempt("result during a concurrent call", lambda: same_result(
                        ctx, "result during a concurrent call", st, f1,
                        overlapped(S, touched, lambda: f1(o.st)), names,
                        f"{n1} while {n2} runs", shown))

        ctx.attempt("shared state", step)
    # methods of one object, or of two objects that differ in one component
    pins = list(spec.SCHEMES[scheme].filters or {None: 0})[:2]
    cls = S.cls(scheme)
    for b in S.call(st, cls, [i.uri]):
        if b.exc is not None:
            continue
        if part is None:
            histories(ctx, scheme, pins, b, b, names, shown)
            continue
        for c in S.call(b.st, cls, [j.uri]):
            if c.exc is None:
                b2 = Out(c.st, val=b.val)
                histories(ctx, scheme, pins, b2, c, names, shown)


def strangers(ctx, scheme, o, n2, shown):
    """Calls of the other schemes after a call that wrote shared state."""
    for other, sp in spec.SCHEMES.items():
        if other == scheme:
            continue
        coding = next(iter(sp.codings), None)
        i = spec.make(other, sample(other, coding) if coding
                      else F.ordered(other, F.typical(other)))
        before = St(dict(i.st.dom), i.st.cons)
        st = St({**o.st.dom, **i.st.dom}, o.st.cons + i.st.cons, dict(o.st.heap),
                o.st.frames, o.st.writes)
        for n1, f1 in operations(ctx, other, coding, i, i.st):
            if n1 in ("constructor", "from_gs1_element_string", "from_binary", "refused constructor"):
                def again(s, f1=f1):
                    return f1(s)

                ctx.attempt("result after a call of another scheme", lambda: same_result(
                    ctx, "result after a call of another scheme", before, again, again(st),
                    i.vars, f"{other} {n1} after {scheme} {n2}", {"uri": i.uri, "earlier": shown["uri"]}))


def histories(ctx, scheme, pins, b, c, names, shown):
    """Methods of the object b after and during methods of the object c."""
    S = ctx.S
    own = b.val == c.val
    who = "the same object" if own else "another object"
    ms = methods(ctx, scheme, pins)
    for m2, kw2 in ms:
        def step(m2=m2, kw2=kw2):
            for o in S.method(b.st, c.val, m2, kw=kw2):
                touched = written(ctx, b.st, o.st)
                if not own:
                    touched.pop(getattr(c.val, "id", None), None)
                if not touched and o.st.writes == b.st.writes:
                    ctx.good("object left unchanged" if own else "no shared state written")
                    continue
                for m1, kw1 in ms:
                    def again(s, m1=m1, kw1=kw1):
                        return S.method(s, b.val, m1, kw=kw1)

                    ctx.attempt("result after an earlier method", lambda: same_result(
                        ctx, "result after an earlier method", b.st, again, again(o.st), names,
                        f"{m1} after {m2} of {who}", shown))
                    ctx.attempt("result during a concurrent method", lambda: same_result(
                        ctx, "result during a concurrent method", b.st, again,
                        overlapped(S, touched, lambda: again(o.st)),
                        names, f"{m1} while {m2} runs on {who}", shown))
                if o.exc is None and own:
                    ctx.attempt("identity kept", lambda: kept(ctx, b, o, names, m2, shown))

        ctx.attempt("object state", step)


def kept(ctx, b, o, names, m, shown):
    asg = ctx.S.differ(o.st, ctx.S.uri(o.st, b.val), ctx.S.uri(b.st, b.val), ctx.rng, names)
    if asg is not None:
        ctx.fail("identity kept", o.st, names, f"{m} changes the identity text", None, asg, shown)
    else:
        ctx.good("identity kept")


def overlapped(S, touched, f):
    """Run with every shared store overwritten by the other caller's value."""
    S.I.interfere = touched
    try:
        return f()
    finally:
        S.I.interfere = None


def c14_tasks(thorough):
    out = []
    for s, sp in spec.SCHEMES.items():
        for c in list(sp.codings) or [None]:
            out.append((s, c, None, False))
            for part in sp.parts:
                out.append((s, c, part, False))
                out.append((s, c, part, True))
    return out


Prop("C14", c14_tasks, c14,
     "no call stores anything that changes the outcome of another call: shared objects and the object "
     "itself are unchanged, or every other call gives the same result after it and while it runs")


# -- C19 patterns ------------------------------------------------------------------------


def c19(ctx, scheme, coding):
    """Analyse the calls of a scheme so that every pattern they use is seen."""
    S = ctx.S
    i, j, st = pair(scheme, coding, None)
    for n, f in operations(ctx, scheme, coding, i, st):
        ctx.attempt("calls", lambda: f(st))
    for b in S.call(st, S.cls(scheme), [i.uri]):
        if b.exc is None:
            for m, kw in methods(ctx, scheme, [None] if not spec.SCHEMES[scheme].filters else
                                 list(spec.SCHEMES[scheme].filters)[:1]):
                ctx.attempt("calls", lambda: S.method(b.st, b.val, m, kw=kw))


def c19_post(S, results, thorough):
    pats = dict(S.I.lib.patterns)
    for r in results:
        for k, w in r.get("patterns", ()):
            pats.setdefault(tuple(k), w)
    out = {"ok": {}, "fails": [], "undecided": [], "errors": []}
    # the rule has to recognise a known bad pattern and pass a known good one
    if not rx.exponential(rx.prog("([a-z]+)*x")) or rx.exponential(rx.prog("[a-z]+x")):
        out["errors"].append("ambiguity rule does not recognise its own example")
    if len(pats) < 40:
        out["errors"].append(f"only {len(pats)} patterns found")
    for (p, flags), w in sorted(pats.items()):
        try:
            bad = rx.exponential(rx.prog(p, flags))
        except (Undecided, RecursionError) as e:
            out["undecided"].append(("linear matching", p[:60], str(e), w))
            continue
        if bad:
            out["fails"].append({
                "rule": "exponential matching", "instance": p[:200], "where": w,
                "message": "pattern can be matched against one text in exponentially many ways",
                "cells": {}, "shown": {"prefix": bad[0], "pump": bad[1]},
            })
        else:
            out["ok"]["matching is not exponential"] = out["ok"].get(
                "matching is not exponential", 0) + 1
    return out


def c19_tasks(thorough):
    return [(s, c) for s, sp in spec.SCHEMES.items() for c in (list(sp.codings) or [None])]


Prop("C19", c19_tasks, c19,
     "no pattern the program matches input against is exponentially ambiguous (two different ways to "
     "read one text from a state back to itself)", post=c19_post)
