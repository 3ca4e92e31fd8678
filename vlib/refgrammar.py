"""An interpreter of the grammar files: the reference for the unit language.

Lexer: ANTLR semantics (modes, longest match, first rule wins a tie, fragments,
`type`, `mode`, `pushMode` commands), as an NFA simulation per mode.
Parser: for every rule and start token the list of ends it can reach, each with
its first derivation in the order of alternatives (loops and options enter
first) -- the derivation ALL(*) selects.  The rule `product` is left recursive:
`p: a | p x | p y` is read as `a (x | y)*`.

No part of ANTLR and nothing of /repo but the grammar text is used.
"""
import functools
import re
import sys
import unicodedata
from decimal import Decimal
from fractions import Fraction

# ---------------------------------------------------------------- g4 reading

_TOK = re.compile(
    r"""\s+|//[^\n]*|/\*.*?\*/|(?P<str>'(?:\\.|[^'\\])*')|(?P<set>\[(?:\\.|[^\]\\])*\])|(?P<arrow>->)|(?P<range>\.\.)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<p>[:;|()*+?.,={}~])""",
    re.S,
)


def _unescape(s):
    def f(m):
        g = m.group(0)
        if g[1] == "u":
            return chr(int(g[2:], 16))
        return {"n": "\n", "t": "\t", "r": "\r"}.get(g[1], g[1])

    return re.sub(r"\\u[0-9A-Fa-f]{4}|\\.", f, s)


def g4_tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise ValueError(f"g4: cannot read {text[pos:pos + 40]!r}")
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


def expand_jinja(text):
    """The two `for` loops of the lexer template, as compile.py renders them."""
    tokens, mode = {}, "DEFAULT_MODE"
    for line in text.split("\n"):
        m = re.match(r"mode ([A-Z_]+)\;", line)
        if m:
            mode = m.group(1)
        m = re.match(r"([A-Z_]+) ?\:.*", line)
        if m:
            tokens.setdefault(mode, []).append(m.group(1))

    def loop(m):
        names = tokens[m.group(1)]
        if m.group(2):
            skip = re.findall(r"'([A-Z_]+)'", m.group(2))
            names = [n for n in names if n not in skip]
        return "\n".join(re.sub(r"\{\{\s*TOKEN\s*\}\}", n, m.group(3)) for n in names)

    return re.sub(
        r"\{%-?\s*for TOKEN in tokens\['(\w+)'\](?:\s*if TOKEN not in (\[.*?\]))?\s*-?%\}(.*?)\{%-?\s*endfor\s*-?%\}",
        loop, text, flags=re.S,
    )


class _P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "arrow"):
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ValueError(f"g4: expected {v!r}, got {x!r}")

    def alts(self):
        out = [self.seq()]
        while self.accept("|"):
            out.append(self.seq())
        return ("alt", out) if len(out) > 1 else out[0]

    def seq(self):
        out = []
        while True:
            k, v = self.peek()
            if k == "eof" or (k == "p" and v in "|);") or k == "arrow":
                return ("seq", out)
            out.append(self.item())

    def item(self):
        k, v = self.next()
        if k == "str":
            s = _unescape(v[1:-1])
            if self.peek()[0] == "range":
                self.next()
                hi = _unescape(self.next()[1][1:-1])
                e = ("chars", ((ord(s), ord(hi)),))
            else:
                e = ("lit", s)
        elif k == "set":
            body, rs, i = _unescape(v[1:-1]), [], 0
            while i < len(body):
                if i + 2 < len(body) and body[i + 1] == "-":
                    rs.append((ord(body[i]), ord(body[i + 2])))
                    i += 3
                else:
                    rs.append((ord(body[i]),) * 2)
                    i += 1
            e = ("chars", tuple(rs))
        elif k == "id":
            e = ("ref", v)
        elif v == ".":
            e = ("chars", ((0, 0x10FFFF),))
        elif v == "(":
            e = self.alts()
            self.expect(")")
        else:
            raise ValueError(f"g4: unexpected {v!r}")
        while self.peek()[0] == "p" and self.peek()[1] in "*+?":
            e = ({"*": "star", "+": "plus", "?": "opt"}[self.next()[1]], e)
        return e


def read_g4(text):
    """-> list of (mode, fragment?, name, expr, commands) in order."""
    p = _P(g4_tokens(text))
    rules, mode = [], "DEFAULT_MODE"
    while p.peek()[0] != "eof":
        k, v = p.next()
        if v in ("lexer", "parser") or v == "grammar":
            while p.next()[1] != ";":
                pass
            continue
        if v == "options":
            while p.next()[1] != "}":
                pass
            continue
        if v == "mode":
            mode = p.next()[1]
            p.expect(";")
            continue
        frag = v == "fragment"
        if frag:
            v = p.next()[1]
        p.expect(":")
        e = p.alts()
        cmds = []
        if p.accept("->"):
            while True:
                c = p.next()[1]
                arg = None
                if p.accept("("):
                    arg = p.next()[1]
                    p.expect(")")
                cmds.append((c, arg))
                if not p.accept(","):
                    break
        p.expect(";")
        rules.append((mode, frag, v, e, cmds))
    return rules


# ---------------------------------------------------------------- the lexer


class Lexer:
    def __init__(self, text):
        rules = read_g4(expand_jinja(text))
        self.exprs = {r[2]: r[3] for r in rules}
        self.tokens = {}  # mode -> [(name, type, commands)]
        self.nfa = []  # state -> (eps list, [(lo, hi, target)])
        self.accept = {}  # state -> (priority in its mode)
        self.start = {}
        for mode, frag, name, e, cmds in rules:
            lst = self.tokens.setdefault(mode, [])
            if mode not in self.start:
                self.start[mode] = self._new()
            if frag:
                continue
            typ = next((a for c, a in cmds if c == "type"), name)
            s, t = self._build(e)
            self.nfa[self.start[mode]][0].append(s)
            self.accept[t] = len(lst)
            lst.append((name, typ, cmds))
        self._closure = {}
        self._dfa = {}

    def _new(self):
        self.nfa.append(([], []))
        return len(self.nfa) - 1

    def _build(self, e):
        k = e[0]
        s, t = self._new(), self._new()
        if k == "lit":
            cur = s
            for ch in e[1]:
                n = self._new()
                self.nfa[cur][1].append((ord(ch), ord(ch), n))
                cur = n
            self.nfa[cur][0].append(t)
        elif k == "chars":
            for lo, hi in e[1]:
                self.nfa[s][1].append((lo, hi, t))
        elif k == "ref":
            a, b = self._build(self.exprs[e[1]])
            self.nfa[s][0].append(a)
            self.nfa[b][0].append(t)
        elif k == "seq":
            cur = s
            for x in e[1]:
                a, b = self._build(x)
                self.nfa[cur][0].append(a)
                cur = b
            self.nfa[cur][0].append(t)
        elif k == "alt":
            for x in e[1]:
                a, b = self._build(x)
                self.nfa[s][0].append(a)
                self.nfa[b][0].append(t)
        else:  # star, plus, opt
            a, b = self._build(e[1])
            self.nfa[s][0].append(a)
            self.nfa[b][0].append(t)
            if k in ("star", "plus"):
                self.nfa[b][0].append(a)
            if k in ("star", "opt"):
                self.nfa[s][0].append(t)
        return s, t

    def closure(self, states):
        out, work = set(), list(states)
        while work:
            x = work.pop()
            if x not in out:
                out.add(x)
                work += self.nfa[x][0]
        return frozenset(out)

    def step(self, cur, ch):
        key = (cur, ch)
        r = self._dfa.get(key)
        if r is None:
            o = ord(ch)
            r = self.closure({t for x in cur for lo, hi, t in self.nfa[x][1] if lo <= o <= hi})
            self._dfa[key] = r
        return r

    def best(self, cur):
        return min((self.accept[x] for x in cur if x in self.accept), default=None)

    def tokenize(self, s):
        """-> [(type, text)], ending in ('EOF', '').  Characters no rule matches are kept as errors."""
        out, stack, mode, pos = [], [], "DEFAULT_MODE", 0
        while pos < len(s):
            cur = self._closure.get(mode)
            if cur is None:
                cur = self._closure[mode] = self.closure([self.start[mode]])
            end, rule, i = None, None, pos
            while i < len(s) and cur:
                cur = self.step(cur, s[i])
                i += 1
                b = self.best(cur) if cur else None
                if b is not None:
                    end, rule = i, b
            if end is None:
                # ANTLR reports a token recognition error and skips the character.
                out.append(("<skipped>", s[pos]))
                pos += 1
                continue
            name, typ, cmds = self.tokens[mode][rule]
            out.append((typ, s[pos:end]))
            pos = end
            for c, a in cmds:
                if c == "mode":
                    mode = a
                elif c == "pushMode":
                    stack.append(mode)
                    mode = a
                elif c == "popMode":
                    mode = stack.pop()
                elif c != "type":
                    raise ValueError(c)
        out.append(("EOF", ""))
        return out

    def literal_types(self):
        """'(' -> OPEN_PAREN etc., for literals used in the parser grammar."""
        out = {}
        for name, typ, cmds in self.tokens["DEFAULT_MODE"]:
            e = self.exprs[name]
            while e[0] == "seq" and len(e[1]) == 1:
                e = e[1][0]
            if e[0] == "lit":
                out.setdefault(e[1], typ)
        return out


# ---------------------------------------------------------------- the parser


class Parser:
    def __init__(self, text, literals):
        self.rules, self.literals = {}, literals
        for _, _, name, e, _ in read_g4(text):
            alts = e[1] if e[0] == "alt" else [e]
            base, tails = [], []
            for a in alts:
                if a[1] and a[1][0] == ("ref", name):
                    tails.append(("seq", a[1][1:]))
                else:
                    base.append(a)
            self.rules[name] = (("alt", base), ("alt", tails) if tails else None)

    def parse(self, toks, rule="unit_spec"):
        """-> the tree (rule, children) or None; leaves are (type, text)."""
        self.toks, self.memo, self.far = toks, {}, 0  # far: how far any derivation gets
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(max(old, 50000))  # (for this parser alone, never while code under test runs)
        try:
            for end, tree in self._rule(rule, 0):
                if end == len(toks):
                    return tree
            return None
        finally:
            sys.setrecursionlimit(old)

    def _rule(self, name, pos):
        key = (name, pos)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []  # (no hidden left recursion in this grammar)
        base, tails = self.rules[name]
        first = self._dedupe((e, (name, ch)) for e, ch in self._expr(base, pos))
        if tails:
            out = []

            def grow(e, tree):
                for e2, ch in self._dedupe(self._expr(tails, e)):
                    grow(e2, (name, (tree,) + ch))
                out.append((e, tree))

            for e, tree in first:
                grow(e, tree)
            first = self._dedupe(out)
        self.memo[key] = first
        return first

    @staticmethod
    def _dedupe(it):
        seen, out = set(), []
        for e, x in it:
            if e not in seen:
                seen.add(e)
                out.append((e, x))
        return out

    def _expr(self, e, pos):
        k = e[0]
        if k == "alt":
            return self._dedupe(x for a in e[1] for x in self._expr(a, pos))
        if k == "seq":
            cur = [(pos, ())]
            for part in e[1]:
                cur = self._dedupe(
                    (e2, ch + c2) for p, ch in cur for e2, c2 in self._expr(part, p)
                )
            return cur
        if k == "ref":
            n = e[1]
            if n == "EOF" or n not in self.rules:
                self.far = max(self.far, pos)
                if pos < len(self.toks) and self.toks[pos][0] == n:
                    return [(pos + 1, (self.toks[pos],))]
                return []
            return [(p, (t,)) for p, t in self._rule(n, pos)]
        if k == "lit":
            return self._expr(("ref", self.literals[e[1]]), pos)
        if k == "opt":
            return self._dedupe(list(self._expr(e[1], pos)) + [(pos, ())])
        if k in ("star", "plus"):
            out = []

            def grow(p, ch, n):
                for e2, c2 in self._expr(e[1], p):
                    if e2 > p:
                        grow(e2, ch + c2, n + 1)
                if n or k == "star":
                    out.append((p, ch))

            grow(pos, (), 0)
            return self._dedupe(out)
        raise ValueError(k)


# ---------------------------------------------------------------- meaning of a tree


class Malformed(Exception):
    """Derivable, but an exponent that is no number (a run like ⁻⁻²)."""


def unicode_exponent(s):
    t = unicodedata.normalize("NFKC", s).replace("\u2212", "-")
    if not re.fullmatch(r"[+-]?[0-9]+", t):
        raise Malformed(s)
    return int(t)


def text_of(t):
    if len(t) == 2 and isinstance(t[1], str):
        return t[1]
    return "".join(text_of(c) for c in t[1])


def to_ast(tree):
    """Parse tree -> expression:

    ('num', Decimal|int) ('id', name) ('mul', a, b) ('div', a, b)
    ('pow', a, int) ('log', f, a) ('shift', a, ('num', n) | ('ts', text)) ('empty',)
    """
    name, ch = tree
    if isinstance(ch, str):
        if name in ("INT", "SIGNED_INT"):
            try:
                return ("num", int(ch))
            except ValueError:  # Python limits the digits of an integer
                return ("num", Decimal(ch))
        if name == "FLOAT":
            return ("num", Decimal(ch))
        if name == "ID":
            return ("id", ch)
        if name == "UNICODE_EXPONENT":
            return ("num", unicode_exponent(ch))
        raise ValueError(tree)
    if name == "unit_spec":
        return to_ast(ch[0]) if len(ch) > 1 else ("empty",)
    if name == "timestamp":
        return ("ts", text_of(tree))
    if name == "product":
        parts = [c for c in ch if isinstance(c[1], tuple)]
        if len(parts) == 1:
            return to_ast(parts[0])
        op = "div" if any(c[0] == "DIVIDE" for c in ch) else "mul"
        return (op, to_ast(parts[0]), to_ast(parts[1]))
    if name == "power":
        base = to_ast(ch[0])
        if len(ch) == 1:
            return base
        return ("pow", base, to_ast(ch[-1])[1])
    if name == "logarithm":
        if ch[0][0] == "LOG":
            f = ch[0][1].split("(")[0].strip()
            return ("log", f, to_ast(ch[1]))
        return to_ast(ch[0])
    if name == "shift_spec":
        parts = [c for c in ch if isinstance(c[1], tuple)]
        if len(parts) == 1:
            return to_ast(parts[0])
        return ("shift", to_ast(parts[0]), to_ast(parts[1]))
    parts = [c for c in ch if c[0] not in ("OPEN_PAREN", "CLOSE_PAREN")]
    if len(parts) == 1:
        return to_ast(parts[0])
    raise ValueError(tree)


class Grammar:
    def __init__(self, lexer_text, parser_text):
        self.lexer = Lexer(lexer_text)
        self.parser = Parser(parser_text, self.lexer.literal_types())

    def tokens(self, s):
        return self.lexer.tokenize(s.strip())

    def tree(self, s):
        toks = self.tokens(s)
        if any(t[0] == "<skipped>" for t in toks):
            # The lexer drops it (reporting on stderr); the parser never sees it.
            toks = [t for t in toks if t[0] != "<skipped>"]
        return self.parser.parse(toks)

    def first_bad(self, s):
        """For a text that is no unit: (where, token) of the first token that continues none."""
        s = s.strip()
        toks = self.tokens(s)
        real = [t for t in toks if t[0] != "<skipped>"]
        if self.parser.parse(real) is not None:
            return None
        off, k = 0, 0
        for t in toks:
            if t[0] != "<skipped>":
                if k == self.parser.far:
                    return off, t
                k += 1
            off += len(t[1])
        raise AssertionError("no token fails")

    def ast(self, s):
        """-> expression, or None if the string is no unit."""
        t = self.tree(s)
        if t is None:
            return None
        try:
            return to_ast(t)
        except Malformed:
            return None


@functools.lru_cache(None)
def load(where):
    import pathlib

    d = pathlib.Path(where)
    return Grammar(
        (d / "udunits2Lexer.g4.jinja").read_text(encoding="utf-8"),
        (d / "udunits2Parser.g4").read_text(encoding="utf-8"),
    )


def frozen():
    from . import boot
    import os

    return load(os.path.join(boot.VERIF, "model"))


# ---------------------------------------------------------------- the code's trees


def from_code(node):
    """The code's expression graph, in the same form (public attributes only)."""
    k = type(node).__name__
    if k == "Number":
        return ("num", node.content)
    if k == "Identifier":
        return ("id", node.content)
    if k == "Unhandled":
        return ("empty",) if node.content == "" else ("ts", node.content)
    if k == "Multiply":
        return ("mul", from_code(node.lhs), from_code(node.rhs))
    if k == "Divide":
        return ("div", from_code(node.lhs), from_code(node.rhs))
    if k == "Raise":
        r = from_code(node.rhs)
        return ("pow", from_code(node.lhs), r[1] if r[0] == "num" else r)
    if k == "Shift":
        return ("shift", from_code(node.unit), from_code(node.shift_from))
    if k == "Logarithm":
        return ("log", node.function, from_code(node.term))
    return ("?" + k, str(node))


def same(a, b):
    """Same tree; numbers with the same exact value (and not a float or text)."""
    if a[0] != b[0] or len(a) != len(b):
        return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if not same(x, y):
                return False
        elif isinstance(x, (int, Decimal)) and not isinstance(x, bool):
            if not isinstance(y, (int, Decimal)) or isinstance(y, bool):
                return False
            if x != y:  # exact, also between int and Decimal
                return False
        elif x != y:
            return False
    return True
