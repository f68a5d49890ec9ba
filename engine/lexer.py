"""Mechanical extraction of the lexer: its rules and their actions.

The rules are the lines of TARGETlex.l that flex's output refers to (#line of
each action); their patterns are read into automata.  The text of each action is
taken from flex's output and becomes a function of its own; it returns the
token, or NO_TOKEN where the scanner goes on.  Dropped are flex's tables and
buffers and the positions of tokens (YY_USER_ACTION).
"""
import re, os
from ir import Unsupported

NO_TOKEN = -7777
ALL = frozenset(range(256))
ESC = {"n": 10, "t": 9, "r": 13, "f": 12, "v": 11, "a": 7, "b": 8}


# ---- patterns ---------------------------------------------------------------------------------
class Pattern:
    """flex's regular expressions: ("set", bytes) ("cat", ..) ("alt", ..) ("rep", x, lo, hi)"""

    def __init__(self, s, defs):
        self.s, self.i, self.defs = s, 0, defs

    def parse(self):
        r = self.alt()
        if self.i != len(self.s):
            raise Unsupported("pattern %r at %d" % (self.s, self.i))
        return r

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def alt(self):
        xs = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def cat(self):
        xs = []
        while self.peek() and self.peek() not in "|)":
            xs.append(self.post())
        return xs[0] if len(xs) == 1 else ("cat", xs)

    def post(self):
        x = self.atom()
        while True:
            c = self.peek()
            m = re.match(r"\{(\d+)(?:(,)(\d*))?\}", self.s[self.i:])
            if c and c in "?*+":
                self.i += 1
                x = ("rep", x, 1 if c == "+" else 0, 1 if c == "?" else None)
            elif m:
                self.i += m.end()
                lo = int(m.group(1))
                x = ("rep", x, lo, lo if not m.group(2) else int(m.group(3)) if m.group(3) else None)
            else:
                return x

    def escape(self):
        """after a backslash"""
        c = self.peek()
        self.i += 1
        m = re.match(r"[0-7]{1,3}", self.s[self.i - 1:])
        if m:
            self.i += m.end() - 1
            return int(m.group(0), 8) & 255
        m = re.match(r"x[0-9a-fA-F]{1,2}", self.s[self.i - 1:])
        if m:
            self.i += m.end() - 1
            return int(m.group(0)[1:], 16)
        return ESC.get(c, ord(c))

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '"':
            xs = []
            while self.peek() != '"':
                if not self.peek():
                    raise Unsupported("pattern %r" % self.s)
                c = self.peek()
                self.i += 1
                xs.append(("set", frozenset([self.escape() if c == "\\" else ord(c)])))
            self.i += 1
            return ("cat", xs)
        if c == "[":
            if self.s.startswith("[:", self.i) :
                raise Unsupported("pattern %r" % self.s)
            neg = self.peek() == "^"
            self.i += neg
            out, first = set(), True
            while self.peek() != "]" or first:
                first = False
                if not self.peek():
                    raise Unsupported("pattern %r" % self.s)
                def one():
                    c = self.peek()
                    self.i += 1
                    return self.escape() if c == "\\" else ord(c)
                if self.s.startswith("[:", self.i):
                    m = re.match(r"\[:(\w+):\]", self.s[self.i:])
                    self.i += m.end()
                    f = {"alpha": str.isalpha, "digit": str.isdigit, "alnum": str.isalnum, "space": str.isspace}.get(m.group(1))
                    if f is None:
                        raise Unsupported("pattern %r" % self.s)
                    out |= {b for b in range(128) if f(chr(b)) and not 28 <= b < 32}
                    continue
                lo = one()
                if self.peek() == "-" and self.s[self.i + 1:self.i + 2] not in ("]", ""):
                    self.i += 1
                    out |= set(range(lo, one() + 1))
                else:
                    out.add(lo)
            self.i += 1
            return ("set", ALL - out if neg else frozenset(out))
        if c == "(":
            if self.s.startswith("?", self.i):
                raise Unsupported("pattern %r" % self.s)
            x = self.alt()
            if self.peek() != ")":
                raise Unsupported("pattern %r" % self.s)
            self.i += 1
            return x
        if c == "{":
            m = re.match(r"([A-Za-z_][\w-]*)\}", self.s[self.i:])
            if not m or m.group(1) not in self.defs:
                raise Unsupported("pattern %r" % self.s)
            self.i += m.end()
            return Pattern(self.defs[m.group(1)], self.defs).parse()
        if c == ".":
            return ("set", ALL - {10})
        if c == "\\":
            return ("set", frozenset([self.escape()]))
        if c in "/^$<>":
            if c in "<>" :
                return ("set", frozenset([ord(c)]))
            raise Unsupported("pattern %r" % self.s)
        return ("set", frozenset([ord(c)]))


class Automaton:
    """all rules of a start condition; states are sets of (position) numbers"""

    def __init__(self, rules):
        self.eps, self.move, self.final = [], [], {}
        starts = []
        for k, r in enumerate(rules):
            s, e = self.build(r)
            starts.append(s)
            self.final[e] = k
        self.start = self.close(starts)
        self.cache = {}

    def new(self):
        self.eps.append([])
        self.move.append(None)
        return len(self.eps) - 1

    def build(self, r):
        if r[0] == "set":
            s, e = self.new(), self.new()
            self.move[s] = (r[1], e)
            return s, e
        if r[0] == "cat":
            s = e = self.new()
            for x in r[1]:
                a, b = self.build(x)
                self.eps[e].append(a)
                e = b
            return s, e
        if r[0] == "alt":
            s, e = self.new(), self.new()
            for x in r[1]:
                a, b = self.build(x)
                self.eps[s].append(a)
                self.eps[b].append(e)
            return s, e
        _, x, lo, hi = r
        s = e = self.new()
        for _ in range(lo):
            a, b = self.build(x)
            self.eps[e].append(a)
            e = b
        if hi is None:
            a, b = self.build(x)
            f = self.new()
            self.eps[e] += [a, f]
            self.eps[b] += [a, f]
            return s, f
        f = self.new()
        self.eps[e].append(f)
        for _ in range(hi - lo):
            a, b = self.build(x)
            self.eps[e].append(a)
            e = b
            self.eps[e].append(f)
        return s, f

    def close(self, xs):
        seen, todo = set(xs), list(xs)
        while todo:
            for y in self.eps[todo.pop()]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)

    def sets(self, q):
        return [self.move[x][0] for x in q if self.move[x]]

    def step(self, q, b):
        k = (q, b)
        if k not in self.cache:
            self.cache[k] = self.close([self.move[x][1] for x in q if self.move[x] and b in self.move[x][0]])
        return self.cache[k]

    def label(self, q):
        """the rule that the text belongs to: the first one"""
        ks = [self.final[x] for x in q if x in self.final]
        return min(ks) if ks else None


def compare(a, la, b, lb, limit=200000):
    """a shortest text whose rules have different labels in the two, or None"""
    todo, seen = [(a.start, b.start, b"")], {(a.start, b.start)}
    n = 0
    while todo:
        nxt = []
        for p, q, w in todo:
            n += 1
            if n > limit:
                raise Unsupported("lexer automata too large")
            x = la[a.label(p)] if a.label(p) is not None and w else None
            y = lb[b.label(q)] if b.label(q) is not None and w else None
            if x != y:
                return w, x, y
            # bytes that no set tells apart are tried once
            cls = {}
            sets = a.sets(p) + b.sets(q)
            if not sets:
                continue
            for c in range(256):
                cls.setdefault(tuple(c in s for s in sets), c)
            for sig, c in cls.items():
                if not any(sig):
                    continue
                t = (a.step(p, c), b.step(q, c))
                if t not in seen:
                    seen.add(t)
                    nxt.append(t + (w + bytes([c]),))
        todo = nxt
    return None


# ---- the rules --------------------------------------------------------------------------------
class Rule:
    pass


class Lexer:
    def __init__(self, tree, target):
        self.target = target
        src = tree.src
        lines = open(os.path.join(src, target + "lex.l"), encoding="latin1").read().split("\n")
        text = open(os.path.join(src, target + "lex.c"), encoding="latin1").read()
        marks = [i for i, l in enumerate(lines) if l.startswith("%%")]
        defs, self.exclusive, code = {}, set(), False
        for l in lines[:marks[0]]:
            if l.startswith("%{"):
                code = True
            elif l.startswith("%}"):
                code = False
            elif not code and re.match(r"%[xsXS]\s", l):
                if l[1] in "sS":
                    raise Unsupported("inclusive start conditions")
                self.exclusive |= set(l.split()[1:])
            elif not code and re.match(r"[A-Za-z_][\w-]*\s", l):
                n, d = l.split(None, 1)
                defs[n] = d.strip()
        self.rules, self.conditions = [], {"INITIAL"} | self.exclusive
        out = ['#include "%slex.c"\n' % target]
        body = r"case (\d+):\n(?:/\* rule \d+ can match eol \*/\n)?YY_RULE_SETUP\n#line (\d+) \"%slex\.l\"\n(.*?)\n?\tYY_BREAK\n" % target
        seen = 0
        for m in re.finditer(body, text, re.S):
            if "ECHO;" in m.group(3) and int(m.group(2)) - 1 >= (marks[1] if len(marks) > 1 else len(lines)):
                self.default = int(m.group(1))
                continue
            r = Rule()
            r.number, line = int(m.group(1)), lines[int(m.group(2)) - 1]
            seen += 1
            if r.number != seen:
                raise Unsupported("rules aren't numbered in order")
            r.where = {"INITIAL"}
            c = re.match(r"<([\w,*]+)>", line)
            if c:
                r.where = self.conditions if c.group(1) == "*" else set(c.group(1).split(","))
                line = line[c.end():]
            r.pattern = self.split(line)
            r.regex = Pattern(r.pattern, defs).parse()
            r.fn = "bicv_%s_lex_%d" % (target, r.number)
            act = m.group(3)
            if re.search(r"\b(REJECT|yymore|yyless|unput|input)\b", act):
                raise Unsupported("action of rule %d" % r.number)
            out.append("int %s(void)\n{\n%s\n    ;\n    return %d;\n}\n" % (r.fn, act, NO_TOKEN))
            self.rules.append(r)
        if not self.rules or len(re.findall(r"^YY_RULE_SETUP$", text, re.M)) != len(self.rules) + 1:
            raise Unsupported("%d rules" % len(self.rules))
        self.file = target + "lexactions.c"
        open(os.path.join(src, self.file), "w", encoding="latin1").write("\n".join(out))

    def split(self, line):
        """the pattern: up to the first white space outside of quotes and brackets"""
        i, q, br = 0, False, False
        while i < len(line):
            c = line[i]
            if c == "\\":
                i += 2
                continue
            if q:
                q = c != '"'
            elif br:
                if c == "]" and i > br:
                    br = False
            elif c == '"':
                q = True
            elif c == "[":
                br = i + 1 + (line[i + 1:i + 2] == "^")
            elif c in " \t":
                break
            i += 1
        return line[:i]

    def of(self, cond):
        return [r for r in self.rules if cond in r.where]
