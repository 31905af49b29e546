"""Regular expressions as automata.

A pattern is parsed with the standard library's own parser and compiled to a
prioritised program (Pike style) which serves two purposes: a lazily built DFA
for language questions and a thread simulation for capture groups.  Patterns
are never handed to the matching engine of the `re` module.
"""
from __future__ import annotations

import re
import re._constants as sc
import re._parser as sp
import warnings


from .dom import Undecided


class Unsupported(Undecided):
    pass


# Representatives for characters outside ASCII: one per behaviour class of the
# str predicates and of the regex categories.
NON_ASCII = (
    "é",  # lower case letter
    "É",  # upper case letter
    "ß",  # letter whose upper case has two characters
    "٠",  # decimal digit
    "²",  # digit, not decimal
    "½",  # numeric, not digit
    "一",  # numeric letter
    " ",  # white space
    " ",  # line separator
    "€",  # symbol
    "Ａ",  # full width A
    "\U0001f600",
    "\ud800",  # lone surrogate
)
UNIVERSE = tuple(chr(i) for i in range(128)) + NON_ASCII


class CharSet:
    """Predicate on one character built from a parsed set."""

    __slots__ = ("items", "negate", "icase", "ascii", "cache", "key")

    def __init__(self, items, negate, icase, ascii_):
        self.items = items
        self.negate = negate
        self.icase = icase
        self.ascii = ascii_
        self.cache = {}
        self.key = (repr(items), negate, icase, ascii_)

    def _raw(self, c):
        o = ord(c)
        for it in self.items:
            k = it[0]
            if k is sc.LITERAL:
                if it[1] == o:
                    return True
            elif k is sc.RANGE:
                if it[1][0] <= o <= it[1][1]:
                    return True
            elif k is sc.CATEGORY:
                if self._cat(it[1], c):
                    return True
            elif k is sc.NOT_LITERAL:
                if it[1] != o:
                    return True
            elif k == "ANY":
                if c != "\n":
                    return True
            elif k == "ANYALL":
                return True
            else:
                raise Unsupported(f"set item {it!r}")
        return False

    def _cat(self, cat, c):
        a = self.ascii
        small = ord(c) < 128
        if cat in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
            r = c.isdecimal() and (small or not a)
            return r if cat is sc.CATEGORY_DIGIT else not r
        if cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
            r = c.isspace() and (small or not a)
            return r if cat is sc.CATEGORY_SPACE else not r
        if cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
            r = (c.isalnum() and (small or not a)) or c == "_"
            return r if cat is sc.CATEGORY_WORD else not r
        raise Unsupported(f"category {cat}")

    def __call__(self, c):
        r = self.cache.get(c)
        if r is None:
            r = self._raw(c)
            if not r and self.icase:
                for v in {c.lower(), c.upper(), c.swapcase()}:
                    if len(v) == 1 and self._raw(v):
                        r = True
                        break
            if self.negate:
                r = not r
            self.cache[c] = r
        return r


# instructions
CHAR, SPLIT, JMP, SAVE, ASSERT, MATCH = range(6)


class Prog:
    """Compiled pattern."""

    def __init__(self, pattern: str, flags: int = 0):
        self.pattern = pattern
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = sp.parse(pattern, flags)
        self.tree = tree
        self.flags = tree.state.flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.code = []
        self._emit_seq(tree, self.flags)
        self.code.append((MATCH,))
        self._clos = {}
        self._trans = {}
        self._start = None

    # -- compilation -----------------------------------------------------
    def _set(self, items, negate, flags):
        return CharSet(
            items, negate, bool(flags & re.IGNORECASE), bool(flags & re.ASCII)
        )

    def _emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def _emit_seq(self, seq, flags):
        for op, av in seq:
            self._emit_op(op, av, flags)

    def _emit_op(self, op, av, flags):
        code = self.code
        if op is sc.LITERAL:
            self._emit(CHAR, self._set([(sc.LITERAL, av)], False, flags))
        elif op is sc.NOT_LITERAL:
            self._emit(CHAR, self._set([(sc.LITERAL, av)], True, flags))
        elif op is sc.ANY:
            k = "ANYALL" if flags & re.DOTALL else "ANY"
            self._emit(CHAR, self._set([(k, None)], False, flags))
        elif op is sc.IN:
            items = list(av)
            neg = False
            if items and items[0][0] is sc.NEGATE:
                neg = True
                items = items[1:]
            self._emit(CHAR, self._set(items, neg, flags))
        elif op is sc.BRANCH:
            _, alts = av
            jumps = []
            for k, alt in enumerate(alts):
                if k < len(alts) - 1:
                    sp_ = self._emit(SPLIT, 0, 0)
                    self._emit_seq(alt, flags)
                    jumps.append(self._emit(JMP, 0))
                    code[sp_] = (SPLIT, sp_ + 1, len(code))
                else:
                    self._emit_seq(alt, flags)
            for j in jumps:
                code[j] = (JMP, len(code))
        elif op is sc.SUBPATTERN:
            group, add, dele, sub = av
            fl = (flags | add) & ~dele
            if group is not None:
                self._emit(SAVE, 2 * group)
            self._emit_seq(sub, fl)
            if group is not None:
                self._emit(SAVE, 2 * group + 1)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            if op is getattr(sc, "POSSESSIVE_REPEAT", None):
                raise Unsupported("possessive repeat")
            lo, hi, sub = av
            greedy = op is sc.MAX_REPEAT
            for _ in range(lo):
                self._emit_seq(sub, flags)
            if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT:
                l1 = self._emit(SPLIT, 0, 0)
                self._emit_seq(sub, flags)
                self._emit(JMP, l1)
                end = len(code)
                code[l1] = (SPLIT, l1 + 1, end) if greedy else (SPLIT, end, l1 + 1)
            else:
                splits = []
                for _ in range(hi - lo):
                    splits.append(self._emit(SPLIT, 0, 0))
                    self._emit_seq(sub, flags)
                end = len(code)
                for s in splits:
                    code[s] = (SPLIT, s + 1, end) if greedy else (SPLIT, end, s + 1)
        elif op is sc.AT:
            self._emit(ASSERT, av, flags)
        else:
            raise Unsupported(f"regex operator {op}")

    # -- closure ----------------------------------------------------------
    def closure(self, pcs, at_start=False, at_end=False):
        """Epsilon closure: frozenset of CHAR / MATCH / pending ASSERT pcs."""
        key = (pcs, at_start, at_end)
        r = self._clos.get(key)
        if r is not None:
            return r
        out = set()
        seen = set()
        stack = list(pcs)
        while stack:
            pc = stack.pop()
            if pc in seen:
                continue
            seen.add(pc)
            if isinstance(pc, tuple):  # ("nl", pc): only valid at the very end
                if at_end:
                    stack.append(pc[1])
                else:
                    out.add(pc)
                continue
            ins = self.code[pc]
            k = ins[0]
            if k == JMP:
                stack.append(ins[1])
            elif k == SPLIT:
                stack.append(ins[1])
                stack.append(ins[2])
            elif k == SAVE:
                stack.append(pc + 1)
            elif k == ASSERT:
                a = ins[1]
                if a in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    if ins[2] & re.MULTILINE and a is sc.AT_BEGINNING:
                        raise Unsupported("multiline")
                    if at_start:
                        stack.append(pc + 1)
                elif a in (sc.AT_END, sc.AT_END_STRING):
                    if ins[2] & re.MULTILINE and a is sc.AT_END:
                        raise Unsupported("multiline")
                    if at_end:
                        stack.append(pc + 1)
                    else:
                        out.add(pc)
                else:
                    raise Unsupported(f"assertion {a}")
            else:
                out.add(pc)
        r = frozenset(out)
        self._clos[key] = r
        return r

    @property
    def start(self):
        if self._start is None:
            self._start = self.closure(frozenset([0]), at_start=True)
        return self._start

    def step(self, state, c):
        key = (state, c)
        r = self._trans.get(key)
        if r is None:
            nxt = set()
            for pc in state:
                if isinstance(pc, tuple):
                    continue
                ins = self.code[pc]
                if ins[0] == CHAR:
                    if ins[1](c):
                        nxt.add(pc + 1)
                elif ins[0] == ASSERT and ins[1] is sc.AT_END and c == "\n":
                    # the assertion holds before a final newline, which must
                    # then be consumed by what follows
                    for q in self.closure(frozenset([pc + 1]), at_end=True):
                        if not isinstance(q, tuple) and self.code[q][0] == CHAR:
                            if self.code[q][1](c):
                                nxt.add(("nl", q + 1))
            r = self.closure(frozenset(nxt))
            self._trans[key] = r
        return r

    def run(self, state, s):
        for c in s:
            state = self.step(state, c)
            if not state:
                break
        return state

    def accepts(self, state):
        """Full match at end of string in this DFA state."""
        for pc in self.closure(state, at_end=True):
            if not isinstance(pc, tuple) and self.code[pc][0] == MATCH:
                return True
        return False

    def has_match(self, state):
        """A match ends here regardless of what follows."""
        return any(
            not isinstance(pc, tuple) and self.code[pc][0] == MATCH for pc in state
        )

    def fullmatch(self, s):
        return self.accepts(self.run(self.start, s))

    # -- prioritised threads ----------------------------------------------
    def add_thread(self, lst, seen, pc, caps, pos, at_start, at_end):
        stack = [(pc, caps)]
        while stack:
            pc, caps = stack.pop()
            if pc in seen:
                continue
            seen.add(pc)
            ins = self.code[pc]
            k = ins[0]
            if k == JMP:
                stack.append((ins[1], caps))
            elif k == SPLIT:
                stack.append((ins[2], caps))
                stack.append((ins[1], caps))
            elif k == SAVE:
                c = list(caps)
                c[ins[1]] = pos
                stack.append((pc + 1, tuple(c)))
            elif k == ASSERT:
                a = ins[1]
                if a in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    if at_start:
                        stack.append((pc + 1, caps))
                elif a in (sc.AT_END, sc.AT_END_STRING):
                    if at_end is None:
                        raise Unsupported("end assertion at unknown position")
                    if at_end or (a is sc.AT_END and at_end == "nl"):
                        stack.append((pc + 1, caps))
                else:
                    raise Unsupported(f"assertion {a}")
            else:
                lst.append((pc, caps))


_progs = {}


def prog(pattern: str, flags: int = 0) -> Prog:
    key = (pattern, int(flags))
    p = _progs.get(key)
    if p is None:
        p = _progs[key] = Prog(pattern, int(flags))
    return p


# -- whole language questions --------------------------------------------


def _classes(progs, universe=UNIVERSE):
    """One representative per class of characters the programs distinguish."""
    sets = []
    seen = set()
    for p in progs:
        for ins in p.code:
            if ins[0] == CHAR and ins[1].key not in seen:
                seen.add(ins[1].key)
                sets.append(ins[1])
    reps = {}
    for c in universe:
        sig = tuple(s(c) for s in sets) + (c == "\n",)
        reps.setdefault(sig, c)
    return list(reps.values())


def included(p: Prog, q: Prog):
    """None when L(p) is included in L(q), else a string of p outside q."""
    return _product(p, q, lambda a, b: a and not b)


def intersect(p: Prog, q: Prog):
    """None when disjoint, else a common string."""
    return _product(p, q, lambda a, b: a and b)


def _product(p, q, bad):
    chars = _classes([p, q])
    start = (p.start, q.start)
    seen = {start: None}
    todo = [start]
    while todo:
        nxt = []
        for st in todo:
            a, b = st
            if bad(p.accepts(a), q.accepts(b)):
                out = []
                while seen[st] is not None:
                    st, c = seen[st]
                    out.append(c)
                return "".join(reversed(out))
            if not a:
                continue
            for c in chars:
                n = (p.step(a, c), q.step(b, c))
                if not n[0]:
                    continue
                if n not in seen:
                    seen[n] = (st, c)
                    nxt.append(n)
        todo = nxt
    return None


def exponential(p: Prog):
    """A (prefix, pump) pair when the pattern is exponentially ambiguous.

    Exponential degree of ambiguity (EDA): some useful state q has two distinct
    paths from q to q over the same word.  Decided on the square of the
    epsilon-free automaton whose transitions count distinct epsilon paths.
    """
    code = p.code
    n = len(code)
    # epsilon paths from a pc to CHAR pcs, with multiplicity capped at 2
    memo = {}

    def eps(pc):
        """dict target -> number of distinct epsilon paths, plus empty-loop flag"""
        if pc in memo:
            return memo[pc]
        res = {}
        loop = False

        def walk(pc, onpath):
            nonlocal loop
            if pc in onpath:
                loop = True
                return
            ins = code[pc]
            k = ins[0]
            if k in (CHAR, MATCH):
                res[pc] = min(2, res.get(pc, 0) + 1)
                return
            onpath = onpath | {pc}
            if k == JMP:
                walk(ins[1], onpath)
            elif k == SPLIT:
                walk(ins[1], onpath)
                walk(ins[2], onpath)
            else:
                walk(pc + 1, onpath)

        walk(pc, frozenset())
        memo[pc] = res
        return res

    chars = _classes([p])
    states = [pc for pc in range(n) if code[pc][0] == CHAR]
    succ = {pc: eps(pc + 1) for pc in states}
    sat = {pc: [c for c in chars if code[pc][1](c)] for pc in states}
    start = eps(0)
    # reachable states
    reach = set(start)
    todo = list(reach)
    while todo:
        q = todo.pop()
        if code[q][0] != CHAR or not sat[q]:
            continue
        for t in succ[q]:
            if t not in reach:
                reach.add(t)
                todo.append(t)
    # co-reachable
    core = {pc for pc in reach if code[pc][0] == MATCH}
    changed = True
    while changed:
        changed = False
        for q in reach:
            if q not in core and code[q][0] == CHAR and sat[q]:
                if any(t in core for t in succ[q]):
                    core.add(q)
                    changed = True
    use = [q for q in reach if q in core and code[q][0] == CHAR and sat[q]]
    useset = set(use)
    # strongly connected components of the automaton
    g = {q: [t for t in succ[q] if t in useset] for q in use}
    for comp in components(g):
        comp = set(comp)
        if len(comp) == 1:
            q = next(iter(comp))
            if q not in g[q]:
                continue
        # direct double epsilon path inside the component
        for q in comp:
            for t, m in succ[q].items():
                if t in comp and m >= 2:
                    return _witness(p, q, chars, sat, succ)
        # product: pairs on the same character
        pg = {}
        for a in comp:
            for b in comp:
                common = [c for c in sat[a] if c in sat[b]]
                if not common:
                    continue
                for ta in succ[a]:
                    if ta not in comp:
                        continue
                    for tb in succ[b]:
                        if tb in comp:
                            pg.setdefault((a, b), []).append((ta, tb))
                            pg.setdefault((ta, tb), [])
        for scc in components(pg):
            diag = [x for x in scc if x[0] == x[1]]
            if diag and any(x[0] != x[1] for x in scc):
                return _witness(p, diag[0][0], chars, sat, succ)
    return None


def components(g):
    """Strongly connected components of an adjacency mapping."""
    index, low, onstack, stack, out = {}, {}, set(), [], []
    for root in g:
        if root in index:
            continue
        work = [(root, iter(g[root]))]
        index[root] = low[root] = len(index)
        stack.append(root)
        onstack.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    onstack.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in onstack:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        onstack.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


def _witness(p, q, chars, sat, succ):
    """A string leading to state q followed by one of its characters."""
    # breadth first over DFA states until q is active
    seen = {p.start: ""}
    todo = [p.start]
    while todo:
        nxt = []
        for s in todo:
            if q in s:
                return seen[s], sat[q][0]
            for c in chars:
                t = p.step(s, c)
                if t and t not in seen:
                    seen[t] = seen[s] + c
                    nxt.append(t)
        todo = nxt
    return "", sat[q][0]
