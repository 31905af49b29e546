"""Obligations: running them, confirming failures, collecting verdicts."""

import itertools
import multiprocessing
import os
import random
import signal
import time
import traceback

from . import spec
from .an import Broken, Session, assignment, render, show
from .dom import IVar, Undecided
from .heap import JOIN_LISTS
from .strs import OpqSplit

CLS_LIMIT = 25  # undecided instances kept for the evidence file


class Slow(Exception):
    pass


class Ctx:
    """Verdicts of one task."""

    def __init__(self, S, seed, task):
        self.S = S
        self.rng = random.Random(seed)
        self.task = task
        self.ok = {}
        self.undecided = []
        self.fails = []
        self.texts = []  # members of an unknown text to look at separately

    # -- verdicts ---------------------------------------------------------
    def good(self, rule):
        self.ok[rule] = self.ok.get(rule, 0) + 1

    def skip(self, rule, why):
        self.undecided.append((rule, self.label(), str(why), self.S.I.where))

    def label(self):
        return "/".join(_short(x) for x in self.task)

    def fail(self, rule, st, names, msg, where=None, asg=None, shown=None):
        """A state in which the rule is broken; needs a member to be reported."""
        if asg is None:
            asg = assignment(st, names, self.rng)
            for k in range(60):
                if asg is not None:
                    break
                asg = assignment(st, names, self.rng, ("random", "low", "high", "rare")[k % 4])
        if asg is None:
            self.skip(rule, f"no member found of the case: {msg}")
            return
        txt = {k: render(v, asg) for k, v in (shown or {}).items()}
        self.fails.append({
            "rule": rule,
            "instance": self.label(),
            "where": where or self.S.entry,
            "message": msg,
            "cells": show(asg),
            "shown": txt,
        })

    def attempt(self, rule, fn):
        """Run one obligation; an undecided analysis is recorded, not judged."""
        before = list(self.fails)
        try:
            return fn()
        except OpqSplit as e:
            self.texts.extend(w for _, w in e.parts if w is not None)
            self.skip(rule, e)
            return None
        except Undecided as e:
            if not JOIN_LISTS[0] or "joined list" not in str(e):
                self.skip(rule, e)
                return None
        # the list is looked at piece by piece: keep lists of different lengths apart
        self.fails[:] = before
        JOIN_LISTS[0] = False
        try:
            return self.attempt(rule, fn)
        finally:
            JOIN_LISTS[0] = True

    # -- common judgements ---------------------------------------------------
    def text(self, rule, outs, get, want, names, what, entry=None, shown=None):
        """Every outcome is normal and its text is the wanted one."""
        bad = False
        for o in outs:
            sh = dict(shown or {})
            if o.exc is not None:
                self.fail(rule, o.st, names, f"{what}: raises {o.exc.name}", o.where, shown=sh)
                bad = True
                continue
            got = get(o)
            w = want(o) if callable(want) else want
            asg = self.S.differ(o.st, got, w, self.rng, names)
            if asg is not None:
                sh["got"] = got
                sh["expected"] = w
                self.fail(rule, o.st, names, f"{what}: wrong text", entry, asg, sh)
                bad = True
        if not outs:
            raise Undecided("no outcome")
        if not bad:
            self.good(rule)
        return not bad

    def refused(self, rule, outs, names, what, entry=None, shown=None, get=None):
        """Every outcome is the documented conversion error."""
        bad = False
        for o in outs:
            if o.exc is not None and self.S.is_convert(o.exc):
                continue
            sh = dict(shown or {})
            if o.exc is None:
                if get is not None:
                    sh["got"] = get(o)
                self.fail(rule, o.st, names, f"{what}: accepted", entry, shown=sh)
            else:
                self.fail(rule, o.st, names, f"{what}: raises {o.exc.name}", o.where, shown=sh)
            bad = True
        if not outs:
            raise Undecided("no outcome")
        if not bad:
            self.good(rule)
        return not bad

    def only_convert(self, rule, outs, names, what, shown=None):
        """No exception other than the documented one."""
        bad = False
        for o in outs:
            if o.exc is not None and not self.S.is_convert(o.exc):
                self.fail(rule, o.st, names, f"{what}: raises {o.exc.name}", o.where, shown=shown)
                bad = True
        if not outs:
            raise Undecided("no outcome")
        if not bad:
            self.good(rule)
        return not bad


def _short(x):
    if isinstance(x, dict):
        return ",".join(f"{k}={_run(v)}" for k, v in x.items())
    return str(x)


def _run(v):
    if not isinstance(v, str):
        return str(v)
    out = []
    k = 0
    while k < len(v):
        j = k
        while j < len(v) and v[j] == v[k]:
            j += 1
        out.append(v[k] + (str(j - k) if j - k > 1 else ""))
        k = j
    return "".join(out)


_S = None
_RUN = None
_SEED = 1
_LIMIT = 60
_DEADLINE = None
_BOX = 0.0
ENOUGH = 24  # violated families after which the verdict is settled


def _alarm(*_):
    raise Slow()


def one(S, run, seed, task):
    ctx = Ctx(S, seed, task)
    try:
        run(ctx, *task)
    except Undecided as e:
        if JOIN_LISTS[0] and "joined list" in str(e):
            # as in Ctx.attempt
            JOIN_LISTS[0] = False
            try:
                return one(S, run, seed, task)
            finally:
                JOIN_LISTS[0] = True
        ctx.skip("task", e)
    return ctx


def narrowed(cells):
    """Pin all cells of a failing case except the first company prefix digit."""
    keep = {"cp0", "filter"}
    return {k: v for k, v in cells.items() if k not in keep and isinstance(v, str)}


def confirm(S, run, seed, task, ctx, base):
    """The failing cases that fail again when pinned to one member."""
    confirmed = []
    seen = set()
    for f in ctx.fails[:12]:
        if f["rule"] in seen:
            continue
        spec.PIN = {**base, **narrowed(f["cells"])}
        try:
            c2 = one(S, run, seed, task)
            hit = [g for g in c2.fails if g["rule"] == f["rule"]]
        except Slow:
            hit = []
        finally:
            spec.PIN = {}
        if hit:
            seen.add(f["rule"])
            confirmed.append(hit[0])
        else:
            ctx.skip(f["rule"], "case not confirmed on the narrowed partition: "
                     + f["message"] + " " + str(f["shown"])[:300])
    return confirmed


def parts_of(S, run, seed, task, times, secs):
    """(failing cases, parts held): small parts of a family that is undecided as a whole."""
    held = 0
    for k in range(times):
        pins = spec.PIN = spec.Thin(f"{seed}.{k}")
        signal.alarm(secs)
        try:
            ctx = one(S, run, seed, task)
            if not pins:
                return [], held
            if ctx.fails:
                bad = confirm(S, run, seed, task, ctx, dict(pins))
                if bad:
                    return bad, held
            elif ctx.ok and not ctx.undecided:
                held += 1
        except Exception:  # noqa: BLE001 - no verdict on this part
            pass
        finally:
            signal.alarm(0)
            spec.PIN = {}
    return [], held


def execute(task):
    S, run, seed = _S, _RUN, _SEED
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    if _DEADLINE is not None and t0 > _DEADLINE:
        res = {"task": task, "ok": {}, "fails": [], "late": 1,
               "undecided": [("task", str(task)[:200], "not reached", ("", 0))]}
        if t0 < _DEADLINE + 60:
            res["fails"], res["parts"] = parts_of(S, run, seed, task, 1, 3)
        res["secs"] = time.time() - t0
        return res
    signal.alarm(_LIMIT)
    res = {"task": task, "ok": {}, "undecided": [], "fails": [], "error": None}
    try:
        ctx = one(S, run, seed, task)
        if ctx.texts:
            for w in ctx.texts:
                spec.PIN = {"text": w}
                try:
                    c2 = one(S, run, seed, task)
                finally:
                    spec.PIN = {}
                if c2.fails:
                    ctx.fails.extend(c2.fails)
        elif ctx.fails:
            signal.alarm(_LIMIT)
            ctx.fails = confirm(S, run, seed, task, ctx, {})
        res.update(ok=ctx.ok, undecided=ctx.undecided, fails=ctx.fails)
    except Slow:
        res["undecided"] = [("task", str(task)[:200], f"time limit of {_LIMIT}s", ("", 0))]
    except Broken as e:
        res["error"] = f"{e}"
    except RecursionError:
        res["undecided"] = [("task", str(task)[:200], "recursion in the analyser", ("", 0))]
    except MemoryError:
        res["undecided"] = [("task", str(task)[:200], "memory limit", ("", 0))]
    except Exception as e:  # noqa: BLE001 - an analyser fault is not a verdict
        res["undecided"] = [("task", str(task)[:200],
                             f"analyser fault {type(e).__name__}: {e}", S.I.where)]
        res["fault"] = traceback.format_exc(limit=-6)
    finally:
        signal.alarm(0)
        spec.PIN = {}
    if res["undecided"] and not res["fails"]:
        res["fails"], res["parts"] = parts_of(S, run, seed, task, 3, 8)
    res["secs"] = time.time() - t0
    res["functions"] = sorted(S.I.functions)
    S.I.functions = set()
    res["patterns"] = sorted(S.I.lib.patterns.items())
    return res


def weight(task):
    n = 0
    for x in task:
        if isinstance(x, dict):
            n += sum(len(v) for v in x.values() if isinstance(v, str))
    return n


def more(task):
    """A family beyond the tier, as long as there is time for those."""
    if time.time() > _BOX:
        return None
    return dict(execute(task), more=1)


def spread_out(tasks, seed):
    """Every kind of family early on, in an order drawn from the seed."""
    groups = {}
    for t in tasks:
        groups.setdefault(tuple(x for x in t if isinstance(x, str)), []).append(t)
    rnd = random.Random(seed)
    out = []
    for g in groups.values():
        rnd.shuffle(g)
        out.extend((k, t) for k, t in enumerate(g))
    return [t for k, t in sorted(out, key=lambda x: x[0])]


def run_all(S, run, tasks, seed, budget, limit=60, procs=None, extra=(), box=0):
    """Analyse every task in forked workers; list of result dictionaries.

    Those of `extra` follow while less than `box` seconds have passed.
    """
    global _S, _RUN, _SEED, _LIMIT, _DEADLINE, _BOX
    _S, _RUN, _SEED, _LIMIT = S, run, seed, limit
    _DEADLINE = time.time() + budget
    _BOX = time.time() + box
    tasks = sorted(tasks, key=weight, reverse=True)
    extra = spread_out(extra, seed)
    procs = procs or min(8, os.cpu_count() or 1)
    if procs == 1 or len(tasks) < 3:
        return [execute(t) for t in tasks] + [r for r in map(more, extra) if r is not None]
    import gc

    gc.freeze()
    mp = multiprocessing.get_context("fork")
    out, bad = [], 0
    with mp.Pool(procs, initializer=_limits) as pool:
        for r in itertools.chain(pool.imap_unordered(execute, tasks, chunksize=1),
                                 pool.imap_unordered(more, extra, chunksize=1)):
            if r is None:
                continue
            out.append(r)
            bad += bool(r["fails"])
            if bad >= ENOUGH:
                break
    return out


def _limits():
    import resource

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        cap = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (cap, cap))
    except (ValueError, OSError):
        pass


def session(root):
    return Session(root)


__all__ = ["Ctx", "run_all", "session", "IVar"]
