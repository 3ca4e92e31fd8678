"""The serialized automata of the generated lexer and parser against the grammar files.

Lexer: every reachable pair (set of ATN configurations, set of states of the
reference NFA) over a partition of all of Unicode, per mode.  Both sides must
accept the same token, with the same type and mode change, in each pair: then
they accept the same longest match of every text, of any length.

Parser: every rule as a regular language over token types and rule names, the
same way.  A left recursive rule is read as `base tail*` (its precedence
predicates hold in `rule(0)`, which is the only way the grammar calls it).
"""
import collections
import os

EPS, RANGE, RULE, PRED, ATOM, ACTION, SET, NOT_SET, WILD, PREC = range(1, 11)
MAXCP = 0x10FFFF


def spans(tr):
    """The code points or token types a transition takes: [(lo, hi)]."""
    k = tr.serializationType
    if k == ATOM:
        return [(tr.label_, tr.label_)]
    if k == WILD:
        return [(0, MAXCP)]
    out = [(r.start, r.stop - 1) for r in (tr.label.intervals or [])]
    if k == NOT_SET:
        inv, at = [], 0
        for lo, hi in sorted(out):
            if lo > at:
                inv.append((at, lo - 1))
            at = max(at, hi + 1)
        if at <= MAXCP:
            inv.append((at, MAXCP))
        return inv
    return out


def is_stop(state):
    return type(state).__name__ == "RuleStopState"


def partition(spanlists):
    """Representatives: one code point of every class no span tells apart."""
    cuts = {0}
    for sp in spanlists:
        for lo, hi in sp:
            cuts.add(lo)
            cuts.add(hi + 1)
    return sorted(c for c in cuts if 0 <= c <= MAXCP)


# ---------------------------------------------------------------- lexer


def atn_closure(configs, lexer_actions):
    """Configurations (state, return stack, rule, actions) after following epsilons."""
    out, work = set(), list(configs)
    while work:
        c = work.pop()
        if c in out:
            continue
        out.add(c)
        st, stack, rule, acts = c
        if is_stop(st):
            if stack:
                work.append((stack[-1], stack[:-1], rule, acts))
            continue
        for tr in st.transitions:
            k = tr.serializationType
            if k == RULE:
                if len(stack) > 50:
                    raise ValueError("recursive lexer rule")
                work.append((tr.target, stack + (tr.followState,), rule, acts))
            elif k == ACTION:
                a = acts
                if not stack and tr.actionIndex >= 0:
                    a = acts + (tr.actionIndex,)
                work.append((tr.target, stack, rule, a))
            elif k in (EPS, PRED, PREC):
                if k != EPS:
                    raise ValueError("predicate in the lexer")
                work.append((tr.target, stack, rule, acts))
    return frozenset(out)


def action_text(a, names, modes):
    n = type(a).__name__
    if n == "LexerTypeAction":
        return ("type", names(a.type))
    if n == "LexerModeAction":
        return ("mode", modes[a.mode])
    if n == "LexerPushModeAction":
        return ("pushMode", modes[a.mode])
    if n == "LexerPopModeAction":
        return ("popMode", None)
    return (n, None)


def check_lexer(lexer_cls, ref):
    """-> (problems, stats).  ref: refgrammar.Lexer."""
    atn = lexer_cls.atn
    sym = lexer_cls.symbolicNames

    def tname(t):
        return sym[t] if 0 <= t < len(sym) else str(t)

    modes = list(lexer_cls.modeNames)
    problems, stats = [], collections.Counter()
    if modes != list(ref.start):
        problems.append(("modes", f"modes {modes}, the grammar has {list(ref.start)}"))
    all_spans = [spans(tr) for st in atn.states if st for tr in st.transitions
                 if tr.serializationType in (RANGE, ATOM, SET, NOT_SET, WILD)]
    all_spans = [[(max(lo, 0), hi) for lo, hi in sp if hi >= 0] for sp in all_spans]
    all_spans += [[(lo, hi)] for _, tr in ref.nfa for lo, hi, _ in tr]
    reps = partition(all_spans)
    stats["classes"] = len(reps)

    def atn_verdict(configs):
        best = None
        for st, stack, rule, acts in configs:
            if is_stop(st) and not stack and (best is None or rule < best[0]):
                best = (rule, acts)
        if best is None:
            return None
        rule, acts = best
        cmds = [action_text(atn.lexerActions[i], tname, modes) for i in acts]
        typ = tname(atn.ruleToTokenType[atn_rule[rule]])
        for c, a in cmds:
            if c == "type":
                typ = a
        return typ, tuple(c for c in cmds if c[0] != "type")

    for mi, mode in enumerate(modes):
        if mode not in ref.start:
            continue
        start = atn.modeToStartState[mi]
        atn_rule = {}
        init = []
        for i, tr in enumerate(start.transitions):
            atn_rule[i] = tr.target.ruleIndex
            init.append((tr.target, (), i, ()))
        a0 = atn_closure(init, atn.lexerActions)
        r0 = ref.closure([ref.start[mode]])
        seen = {(a0, r0): ""}
        work = collections.deque(seen)
        while work:
            a, r = work.popleft()
            text = seen[a, r]
            stats["states"] += 1
            got = atn_verdict(a)
            b = ref.best(r)
            want = None
            if b is not None:
                _, typ, cmds = ref.tokens[mode][b]
                want = typ, tuple(c for c in cmds if c[0] != "type")
            if got != want:
                problems.append((f"lexer:{mode}:{text!r}", f"mode {mode}, after {text!r}: the shipped lexer has {got}, the grammar file {want}"))
                if len(problems) > 20:
                    return problems, stats
                continue
            moves = [(sp, (tr.target, stack, rule, acts)) for st, stack, rule, acts in a if not is_stop(st) for tr in st.transitions
                     if tr.serializationType in (RANGE, ATOM, SET, NOT_SET, WILD) for sp in [spans(tr)]]
            for cp in reps:
                na = atn_closure([c for sp, c in moves if any(lo <= cp <= hi for lo, hi in sp)], None)
                nr = ref.closure({t for x in r for lo, hi, t in ref.nfa[x][1] if lo <= cp <= hi})
                if not na and not nr:
                    continue
                stats["transitions"] += 1
                if (na, nr) not in seen:
                    seen[na, nr] = text + chr(cp)
                    work.append((na, nr))
    return problems, stats


# ---------------------------------------------------------------- parser


def rule_nfa(ref, name):
    """Reference NFA over symbols for one rule: (eps, moves, start, accept)."""
    eps, mv = collections.defaultdict(list), collections.defaultdict(list)
    n = [0]

    def new():
        n[0] += 1
        return n[0]

    def build(e):
        k = e[0]
        s, t = new(), new()
        if k == "ref":
            mv[s].append((e[1], t))
        elif k == "lit":
            mv[s].append((ref.literals[e[1]], t))
        elif k == "seq":
            cur = s
            for x in e[1]:
                a, b = build(x)
                eps[cur].append(a)
                cur = b
            eps[cur].append(t)
        elif k == "alt":
            for x in e[1]:
                a, b = build(x)
                eps[s].append(a)
                eps[b].append(t)
        else:
            a, b = build(e[1])
            eps[s].append(a)
            eps[b].append(t)
            if k in ("star", "plus"):
                eps[b].append(a)
            if k in ("star", "opt"):
                eps[s].append(t)
        return s, t

    base, tails = ref.rules[name]
    e = base if not tails else ("seq", [base, ("star", tails)])
    s, t = build(e)
    return eps, mv, s, t


def check_parser(parser_cls, ref):
    atn = parser_cls.atn
    rules = list(parser_cls.ruleNames)
    sym = parser_cls.symbolicNames
    problems, stats = [], collections.Counter()
    if sorted(rules) != sorted(ref.rules):
        return [("rules", f"rules {sorted(rules)}, the grammar file has {sorted(ref.rules)}")], stats

    def labels(tr):
        k = tr.serializationType
        if k == RULE:
            return [rules[tr.ruleIndex]]
        if k in (ATOM, RANGE, SET, NOT_SET, WILD):
            out = []
            for lo, hi in spans(tr):
                for t in range(lo, min(hi, len(sym)) + 1):
                    out.append("EOF" if t == -1 else sym[t] if 0 <= t < len(sym) else str(t))
            return out
        return None

    def aclose(states, own):
        out, work = set(), list(states)
        while work:
            s = work.pop()
            if s in out:
                continue
            out.add(s)
            if is_stop(s):
                continue
            for tr in s.transitions:
                if tr.serializationType in (EPS, ACTION, PRED, PREC):
                    work.append(tr.target)
        return frozenset(out)

    for i, name in enumerate(rules):
        eps, mv, s, t = rule_nfa(ref, name)

        def rclose(states):
            out, work = set(), list(states)
            while work:
                x = work.pop()
                if x not in out:
                    out.add(x)
                    work += eps[x]
            return frozenset(out)

        a0, r0 = aclose([atn.ruleToStartState[i]], i), rclose([s])
        seen = {(a0, r0): ()}
        work = collections.deque(seen)
        while work:
            a, r = work.popleft()
            path = seen[a, r]
            stats["states"] += 1
            got, want = any(is_stop(x) for x in a), t in r
            if got != want:
                problems.append((f"parser:{name}:{path}", f"rule {name} after {' '.join(path)!r}: the shipped parser {'may' if got else 'cannot'} end, by the grammar file it {'may' if want else 'cannot'}"))
                continue
            na, nr = collections.defaultdict(set), collections.defaultdict(set)
            for st in a:
                if is_stop(st):
                    continue
                for tr in st.transitions:
                    for lab in labels(tr) or ():
                        na[lab].add(tr.followState if tr.serializationType == RULE else tr.target)
            for x in r:
                for lab, y in mv[x]:
                    nr[lab].add(y)
            for lab in sorted(set(na) | set(nr)):
                stats["transitions"] += 1
                if (lab in na) != (lab in nr):
                    problems.append((f"parser:{name}:{path + (lab,)}", f"rule {name} after {' '.join(path)!r}: {lab} is possible in the {'shipped parser' if lab in na else 'grammar file'} only"))
                    continue
                nxt = aclose(na[lab], i), rclose(nr[lab])
                if nxt not in seen:
                    seen[nxt] = path + (lab,)
                    work.append(nxt)
    return problems, stats
