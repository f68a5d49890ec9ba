"""Reader for the textual LLVM IR that clang produces from the repository's C.

Only the (small) subset that occurs is understood; anything else raises
Unsupported, which makes a check fail with "no answer" rather than pass.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<comment>;[^\n]*)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
  | (?P<attr>\#[0-9]+)
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<float>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?)
  | (?P<num>-?[0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
  | (?P<punct>[=,(){}\[\]<>*:])
  | (?P<bar>\|)
''', re.X)


def tokenize(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported("token: " + s[pos:pos + 60])
        k = m.lastgroup
        if k not in ("ws", "comment"):
            out.append((k, m.group()))
        pos = m.end()
    return out


# ---- types ---------------------------------------------------------------
# ('int',n) ('ptr',) ('void',) ('fp',bits) ('struct',name) ('array',n,t)
# ('lit',(types)) ('func',)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture",
               "readonly", "writeonly", "readnone", "returned", "immarg", "inreg",
               "dso_local", "tail", "notail", "musttail", "inbounds", "volatile",
               "nsw", "nuw", "exact", "fast", "noreturn", "nounwind"}


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported("expected %s got %r near %r" % (v, self.peek(), self.t[max(0, self.i - 6):self.i + 4]))

    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                ty = PTR
            elif v == "void":
                ty = VOID
            elif v == "float":
                ty = ('fp', 32)
            elif v == "double":
                ty = ('fp', 64)
            elif v == "x86_fp80":
                ty = ('fp', 80)
            elif v == "label":
                ty = ('label',)
            elif v == "metadata":
                ty = ('metadata',)
            elif re.match(r'i[0-9]+$', v):
                ty = ('int', int(v[1:]))
            elif v == "opaque":
                ty = ('opaque',)
            else:
                raise Unsupported("type " + v)
        elif k == "local":
            ty = ('struct', v[1:].strip('"'))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            ty = ('array', n, e)
        elif v == "<":
            if self.accept("{"):
                ts = self.typelist("}")
                self.expect(">")
                return ('lit', tuple(ts))
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect(">")
            ty = ('vec', n, e)
        elif v == "{":
            ts = self.typelist("}")
            ty = ('lit', tuple(ts))
        else:
            raise Unsupported("type tok %r" % (v,))
        # function type
        while self.peek()[1] == "(" and self.peek()[0] == "punct":
            depth = 0
            while True:
                x = self.next()[1]
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
                    if depth == 0:
                        break
            ty = ('func', ty)
        return ty

    def typelist(self, end):
        ts = []
        if self.accept(end):
            return ts
        while True:
            ts.append(self.type())
            if self.accept(end):
                return ts
            self.expect(",")

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS:
                self.i += 1
            elif k == "word" and v in ("align", "dereferenceable", "dereferenceable_or_null"):
                self.i += 1
                if self.accept("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif k == "word" and v in ("byval", "sret", "elementtype"):
                self.i += 1
                self.expect("(")
                self.type()
                self.expect(")")
            else:
                return

    def typed(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)

    # values: ('loc',name) ('glob',name) ('const',int) ('null',) ('undef',)
    #         ('fconst',text) ('ce',op,...)
    def value(self, ty):
        k, v = self.next()
        if k == "local":
            return ('loc', v[1:])
        if k == "global":
            return ('glob', v[1:].strip('"'))
        if k == "num":
            if ty[0] == 'fp':
                return ('fconst', v)
            return ('const', int(v))
        if k in ("hex", "float"):
            return ('fconst', v)
        if k == "str":
            return ('cstr', v)
        if k == "word":
            if v == "true":
                return ('const', 1)
            if v == "false":
                return ('const', 0)
            if v == "null":
                return ('null',)
            if v in ("undef", "poison"):
                return ('undef',)
            if v == "zeroinitializer":
                return ('zero',)
            if v == "getelementptr":
                self.attrs()
                self.expect("(")
                st = self.type()
                self.expect(",")
                args = [self.typed()]
                while self.accept(","):
                    args.append(self.typed())
                self.expect(")")
                return ('ce', 'gep', st, args)
            if v in ("ptrtoint", "inttoptr", "trunc", "zext", "sext", "bitcast"):
                self.expect("(")
                a = self.typed()
                self.expect("to")
                t2 = self.type()
                self.expect(")")
                return ('ce', v, a, t2)
            if v in ("sub", "add", "mul"):
                self.attrs()
                self.expect("(")
                a = self.typed()
                self.expect(",")
                b = self.typed()
                self.expect(")")
                return ('ce', v, a, b)
        if v in ("[", "{", "<"):
            end = {"[": "]", "{": "}", "<": ">"}[v]
            els = []
            if self.accept(end):
                return ('agg', els)
            while True:
                els.append(self.typed())
                if self.accept(end):
                    return ('agg', els)
                self.expect(",")
        raise Unsupported("value %r" % (v,))


class Inst:
    __slots__ = ("op", "res", "ty", "a", "text")

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name, ret, params, module):
        self.name, self.ret, self.params, self.module = name, ret, params, module
        self.blocks = {}
        self.order = []
        self.entry = None
        self._loops = None

    # natural loops -------------------------------------------------------
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == "br":
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == "switch":
            return [t.a[2]] + [l for _, l in t.a[3]]
        return []

    def loops(self):
        """header -> set of blocks in the loop"""
        if self._loops is not None:
            return self._loops
        # dominators (iterative)
        order, seen = [], set()
        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            seen.add(b)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs(s))))
                        break
                else:
                    order.append(n)
                    stack.pop()
        dfs(self.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        n = stack.pop()
                        if n not in body:
                            body.add(n)
                            stack.extend(preds[n])
                elif idx[s] <= idx[b]:
                    raise Unsupported("irreducible control flow in " + self.name)
        self._loops = loops
        self.preds = preds
        return loops


class Module:
    def __init__(self, name):
        self.name = name
        self.structs = {}
        self.functions = {}
        self.globals = {}
        self.declares = set()


CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext",
         "sitofp", "uitofp", "fptosi", "fptoui"}
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl",
       "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}


def parse_inst(line, mod):
    toks = tokenize(line)
    # drop trailing metadata ", !..."
    for n, (k, v) in enumerate(toks):
        if k == "meta":
            toks = toks[:n - 1] if toks[n - 1][1] == "," else toks[:n]
            break
    p = P(toks, mod)
    res = None
    if p.peek()[0] == "local" and p.peek(1)[1] == "=":
        res = p.next()[1][1:]
        p.next()
    op = p.next()[1]
    while op in ("tail", "notail", "musttail"):
        op = p.next()[1]
    if op == "load":
        p.attrs()
        ty = p.type()
        p.expect(",")
        return Inst(op, res, ty, [p.typed()], line)
    if op == "store":
        p.attrs()
        v = p.typed()
        p.expect(",")
        return Inst(op, None, v[0], [v, p.typed()], line)
    if op == "getelementptr":
        p.attrs()
        st = p.type()
        p.expect(",")
        args = [p.typed()]
        while p.accept(","):
            args.append(p.typed())
        return Inst("gep", res, PTR, [st, args], line)
    if op == "alloca":
        ty = p.type()
        n = None
        if p.accept(","):
            if p.peek()[1] != "align":
                n = p.typed()
        return Inst(op, res, PTR, [ty, n], line)
    if op in BIN:
        p.attrs()
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Inst(op, res, ty, [a, b], line)
    if op in ("icmp", "fcmp"):
        p.attrs()
        pred = p.next()[1]
        ty = p.type()
        a = p.value(ty)
        p.expect(",")
        b = p.value(ty)
        return Inst(op, res, ty, [pred, a, b], line)
    if op in CASTS:
        p.attrs()
        a = p.typed()
        p.expect("to")
        t2 = p.type()
        return Inst(op, res, t2, [a], line)
    if op == "fneg":
        p.attrs()
        a = p.typed()
        return Inst(op, res, a[0], [a[1]], line)
    if op == "freeze":
        a = p.typed()
        return Inst(op, res, a[0], [a[1]], line)
    if op == "select":
        p.attrs()
        c = p.typed()
        p.expect(",")
        a = p.typed()
        p.expect(",")
        b = p.typed()
        return Inst(op, res, a[0], [c, a, b], line)
    if op == "phi":
        ty = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(ty)
            p.expect(",")
            inc[p.next()[1][1:]] = v
            p.expect("]")
            if not p.accept(","):
                break
        return Inst(op, res, ty, [inc], line)
    if op == "br":
        if p.accept("label"):
            return Inst(op, None, VOID, [p.next()[1][1:]], line)
        c = p.typed()
        p.expect(",")
        p.expect("label")
        a = p.next()[1][1:]
        p.expect(",")
        p.expect("label")
        b = p.next()[1][1:]
        return Inst(op, None, VOID, [c[1], a, b], line)
    if op == "switch":
        v = p.typed()
        p.expect(",")
        p.expect("label")
        d = p.next()[1][1:]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            c = p.typed()
            p.expect(",")
            p.expect("label")
            cases.append((c[1][1], p.next()[1][1:]))
        return Inst(op, None, VOID, [v[0], v[1], d, cases], line)
    if op == "ret":
        if p.accept("void"):
            return Inst(op, None, VOID, [], line)
        return Inst(op, None, VOID, [p.typed()], line)
    if op == "unreachable":
        return Inst(op, None, VOID, [], line)
    if op == "call":
        p.attrs()
        ty = p.type()
        if ty[0] == 'func':
            ty = ty[1]
        p.attrs()
        k, v = p.next()
        if k == "global":
            callee = ('glob', v[1:].strip('"'))
        elif k == "local":
            callee = ('loc', v[1:])
        elif v == "asm":
            raise Unsupported("inline asm")
        else:
            raise Unsupported("callee " + v)
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                if p.peek()[1] == "metadata":
                    raise Unsupported("metadata argument")
                args.append(p.typed())
                if p.accept(")"):
                    break
                p.expect(",")
        return Inst(op, res, ty, [callee, args], line)
    raise Unsupported("instruction: " + line.strip())


def balanced(s, i):
    """The text from i up to and including the parenthesis that closes it."""
    d, j = 1, i
    while d:
        d += {"(": 1, ")": -1}.get(s[j], 0)
        j += 1
    return s[i:j]


def parse(text, name):
    # modules' own constants have names of their own
    mine = set(re.findall(r'^(@[-a-zA-Z$._0-9]+) = private ', text, re.M))
    text = re.sub(r'@[-a-zA-Z$._0-9]+', lambda m: m.group(0) + "." + name if m.group(0) in mine else m.group(0), text)
    mod = Module(name)
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("%") and " = type " in ln:
            n, t = ln.split(" = type ", 1)
            nm = n[1:].strip('"')
            p = P(tokenize(t), mod)
            mod.structs[nm] = p.type()
        elif ln.startswith("@"):
            m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
            body = m.group(2)
            nm = m.group(1)[1:].strip('"')
            const = re.search(r'\bconstant\b', body) is not None
            ext = body.startswith("external")
            mm = re.search(r'\b(?:global|constant)\b (.*)$', body)
            ty = init = None
            if mm:
                p = P(tokenize(mm.group(1)), mod)
                ty = p.type()
                if not ext and p.peek()[0] != "eof" and p.peek()[1] != ",":
                    try:
                        init = p.value(ty)
                    except Unsupported:
                        init = None
            mod.globals[nm] = (ty, init, const, ext, body)
        elif ln.startswith("declare"):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            mod.declares.add(m.group(1).strip('"'))
        elif ln.startswith("define"):
            hdr = ln
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', hdr)
            fname = m.group(1).strip('"')
            p = P(tokenize(balanced(hdr, m.end())), mod)
            params = []
            if not p.accept(")"):
                while True:
                    if p.accept("..."):
                        params.append((('vararg',), None))
                    else:
                        ty = p.type()
                        p.attrs()
                        params.append((ty, p.next()[1][1:]))
                    if p.accept(")"):
                        break
                    p.expect(",")
            pre = hdr[len("define"):m.start()].split()
            rp = None
            for w in reversed(pre):
                try:
                    rp = P(tokenize(w), mod).type()
                    break
                except Unsupported:
                    continue
            f = Function(fname, rp, params, mod)
            i += 1
            cur = None
            first = True
            raw = {}
            while not lines[i].startswith("}"):
                s = lines[i]
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                if m:
                    cur = m.group(1).strip('"')
                    raw[cur] = []
                    f.order.append(cur)
                    if first:
                        f.entry, first = cur, False
                elif s.strip() and not s.strip().startswith(";"):
                    if cur is None:
                        cur = "0"
                        raw[cur] = []
                        f.order.append(cur)
                        f.entry, first = cur, False
                    if s.strip().startswith("switch") and "]" not in s:
                        while "]" not in lines[i]:
                            i += 1
                            s += " " + lines[i].strip()
                    raw[cur].append(s)
                i += 1
            f.raw = raw
            f.blocks = LazyBlocks(raw, mod)
            mod.functions[fname] = f
        i += 1
    return mod


class LazyBlocks(dict):
    def __init__(self, raw, mod):
        super().__init__()
        self.raw, self.mod = raw, mod

    def all(self):
        return {k: self[k] for k in self.raw}

    def __missing__(self, k):
        v = [parse_inst(s, self.mod) for s in self.raw[k]]
        self[k] = v
        return v


# ---- layout (x86-64) -------------------------------------------------------
class Layout:
    def __init__(self, mods):
        self.structs = {}
        for m in mods:
            self.structs.update(m.structs)
        self.cache = {}

    def size_align(self, t):
        if t in self.cache:
            return self.cache[t]
        k = t[0]
        if k == 'int':
            b = max(1, (t[1] + 7) // 8)
            r = (b, b)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'fp':
            r = {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        elif k == 'array':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k in ('struct', 'lit'):
            off, al = 0, 1
            for e in self.fields(t):
                s, a = self.size_align(e)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        else:
            raise Unsupported("sizeof %r" % (t,))
        self.cache[t] = r
        return r

    def fields(self, t):
        if t[0] == 'struct':
            d = self.structs[t[1]]
            if d[0] != 'lit':
                raise Unsupported("opaque struct " + t[1])
            return d[1]
        return t[1]

    def field_off(self, t, n):
        off = 0
        for i, e in enumerate(self.fields(t)):
            s, a = self.size_align(e)
            off = (off + a - 1) // a * a
            if i == n:
                return off, e
            off += s
        raise Unsupported("field")
