"""Entry point of a check: analyse, judge, write the evidence."""

import json
import os
import sys
import time
from collections import Counter

from . import core, props, props2, props3, props4, props5  # noqa: F401
from .an import Broken, Session
from .dom import Undecided

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOX = 60  # seconds after which no more families of the thorough tier are begun in the quick one
FLOOR = 0.25  # share of obligations that has to be decided for an answer


def known(pid):
    """Recorded defects of a property: list of (rule, instance text, line)."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("KNOWN-FINDING: property=" + pid + " "):
                continue
            out.append(line)
    return out


def main(a):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    if pid not in props.PROPS:
        print(f"ANALYSIS-BROKEN property={pid} unknown property")
        return 2
    p = props.PROPS[pid]
    sys.setrecursionlimit(20000)
    ev = {
        "property": pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "other",
    }
    thorough = ev["tier"] == "thorough"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", pid + ".json")
    try:
        S = Session(a.root)
    except (Broken, Undecided, OSError, SyntaxError) as e:
        print(f"ANALYSIS-BROKEN property={pid} {type(e).__name__}: {e}")
        write(path, ev, {"explanation": f"analysis could not start: {e}", "obligations": 0}, t0)
        return 2
    tasks = p.tasks(thorough)
    if a.only:
        tasks = [t for t in tasks if a.only in "/".join(core._short(x) for x in t)]
    if a.every:
        tasks = tasks[:: a.every]
    budget = 480 if not thorough else 6600
    extra = []
    if not (thorough or a.only or a.every):
        seen = {repr(t) for t in tasks}
        extra = [t for t in p.tasks(True) if repr(t) not in seen]
    results = core.run_all(S, p.run, tasks, seed, budget, 60 if not thorough else 300, a.procs,
                           extra, BOX)

    ok, rules_u = Counter(), Counter()
    und, fails, errors, functions = [], [], [], set()
    lax = 0  # undecided outcomes among the families beyond the tier
    parts = 0  # parts that hold of families undecided as a whole
    for r in results:
        parts += r.get("parts", 0)
        ok.update(r["ok"])
        for u in r["undecided"]:
            rules_u[u[0]] += 1
            und.append(u)
            lax += bool(r.get("more"))
        for f in r["fails"]:
            fails.append(f)
        if r.get("error"):
            errors.append(r["error"])
        functions.update(r.get("functions", ()))
        if a.verbose and (r.get("fault") or r["undecided"]):
            print("--", r["task"], r["undecided"][:3], r.get("fault", ""))
    if p.post is not None:
        extra = p.post(S, results, thorough)
        ok.update(extra.get("ok", {}))
        fails.extend(extra.get("fails", []))
        und.extend(extra.get("undecided", []))
        errors.extend(extra.get("errors", []))
    decided = sum(ok.values()) + len(fails)
    total = decided + len(und)
    why = Counter(f"{u[2][:120]} at {u[3][0]}:{u[3][1]}" if u[3] and u[3][0] else u[2][:120]
                  for u in und)
    slow = sorted(results, key=lambda r: -r.get("secs", 0))[:3]
    cov = {
        "explanation": (
            "Abstract interpretation of the repository source (parsed, never imported or run); one "
            "obligation is one rule on one input family (all texts of given component lengths and "
            "character classes). Rule: " + p.rule + "."
        ),
        "families": len(results),
        "families_beyond_the_tier": sum(1 for r in results if r.get("more")),
        "obligations": total,
        "decided_held": sum(ok.values()),
        "undecided": len(und),
        "parts_held_of_undecided_families": parts,
        "held_by_rule": dict(ok),
        "undecided_reasons": dict(why.most_common(8)),
        "functions_analysed": len(functions),
        "modules_analysed": sum(1 for m in S.I.modules if m.split(".")[0] == "epcpy"),
        "samples": [r["task"] for r in results[:2]],
        "slowest_families": [[core._short(x) for x in r["task"]] + [round(r.get("secs", 0), 2)]
                             for r in slow],
    }
    print(f"property={pid} tier={ev['tier']} families={len(results)} obligations={total} "
          f"held={sum(ok.values())} undecided={len(und)} functions={len(functions)} "
          f"wall={time.time() - t0:.1f}s")
    for w, n in why.most_common(6):
        print(f"  undecided x{n}: {w}")
    code = 0
    if fails:
        fresh = []
        rec = known(pid)
        for f in fails:
            hit = next((k for k in rec if f"rule={f['rule']!r}" in k
                        and k.split("instance=", 1)[-1].strip() in f["instance"]), None)
            if hit:
                print(hit)
            else:
                fresh.append(f)
        if fresh:
            replay = os.path.join(HERE, "evidence", pid + ".violation.json")
            with open(replay, "w") as fh:
                json.dump(fresh[:50], fh, indent=1, ensure_ascii=True, default=str)
            seen = set()
            for f in fresh:
                if (f["rule"], f["where"][0] if f["where"] else "") in seen:
                    continue
                seen.add((f["rule"], f["where"][0] if f["where"] else ""))
                w = f["where"] or ("", 0)
                print(ascii(f"{w[0]}:{w[1]}: [{f['rule']}] {f['message']} | family {f['instance']} | "
                            f"case {f['shown']}"))
                if len(seen) > 10:
                    break
            print(f"VIOLATION property={pid} replay={replay}")
            ev["violations"] = len(fresh)
            code = 1
    if code == 0 and errors:
        print(f"ANALYSIS-BROKEN property={pid} {errors[0]}")
        code = 2
    elif code == 0 and not (a.only or a.every) and (
            decided + parts == 0 or decided + parts < FLOOR * (total - lax)):
        print(f"ANALYSIS-BROKEN property={pid} only {decided} of {total} obligations decided")
        code = 2
    write(path, ev, cov, t0, p.assume)
    return code


def write(path, ev, cov, t0, assume=()):
    ev = dict(ev)
    ev["coverage"] = cov
    ev["assumptions"] = [
        "the analyser's model of the Python built-ins, re, binascii/base64 and enum is right",
        "arguments have the documented types",
    ] + list(assume)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, default=str)
