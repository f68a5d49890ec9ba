"""C26 (and the tokens of C25, the names of C19): what the lexer makes of a text.

Every rule's action (extracted by lexer.py) is executed and summarised as a
label: the token, the start condition that it enters, and what it does to the
token's value.  The labelled automaton of all rules of a start condition is
then compared with that of the tokens of C as bic supports them: for every text,
the label is the same (a computation over the automata; flex's longest match,
first rule, is trusted).  The functions that the actions call have contracts.
"""
import re, z3
from sym import *
from spec import *
import contracts, lexer, ir
from ir import Unsupported
from lexer import NO_TOKEN, Pattern, Automaton
from specs_scope import order, valid
from specs_main import noted, c_exit
from specs_cpp import text

LETTER = "[a-zA-Z_]"
SKIP = (None, None, None)


def extract(S, target):
    k = "lexer_" + target
    if not hasattr(S, k):
        x = lexer.Lexer(S.tree, target)
        setattr(S, k, x)
        x.mod = ir.parse(open(S.tree.ir(x.file)).read(), x.file)
        src = open("%s/%slex.c" % (S.tree.src, target), encoding="latin1").read()
        x.cond = {c: int(re.search(r"^#define %s (\d+)$" % c, src, re.M).group(1)) for c in x.conditions}
        x.tokens = S.tree.enums(target + "parser.c")
    return getattr(S, k)


def engine(S, target):
    import sym
    x = extract(S, target)
    mods = S.mods + [x.mod]
    E = sym.Engine(mods, S.meta, ir.Layout(mods))
    contracts.install(E)
    E.contracts["exit"] = c_exit
    E.contracts["vfprintf"] = noted("diagnosed")
    for f in ("llvm.va_start", "llvm.va_end"):
        E.contracts[f] = lambda E, st, a: 0
    return x, E


# ---- the actions -----------------------------------------------------------------------------------
def effects(E):
    tree = lambda E, st, a: Ptr(E.fresh("id"))
    word = lambda n: lambda E, st, a: E.fresh(n, z3.BitVecSort(n == "char" and 8 or 32))
    E.contracts["get_identifier"] = noted("identifier", tree)
    E.contracts["is_typename"] = noted("is_typename", word("is"))
    E.contracts["__gmpz_init_set_str"] = noted("integer", word("r"))
    E.contracts["__gmpz_init_set_si"] = noted("set_si")
    E.contracts["__gmpz_init_set_ui"] = noted("set_ui")
    E.contracts["__gmpf_init_set_str"] = noted("float_str", word("r"))
    E.contracts["__gmpf_init_set_d"] = noted("float_d")
    E.contracts["strtod"] = noted("strtod", lambda E, st, a: FP(64, E.fresh("d", z3.BitVecSort(64))))
    E.contracts["strtol"] = noted("strtol", lambda E, st, a: E.fresh("l", BV64))
    E.contracts["strtoul"] = E.contracts["strtol"]
    E.contracts["lex_char"] = noted("lex_char", word("char"))
    E.contracts["sl_begin"] = noted("begin")
    E.contracts["sl_append_str"] = noted("append_str")
    E.contracts["sl_append_char"] = noted("append_char")
    E.contracts["sl_end"] = noted("end", lambda E, st, a: Ptr(E.fresh("string")))
    E.contracts["handle_line_marker"] = noted("marker")
    def die(E, st, a):
        st.events.append(("lex_err",))
        return Outcome("exit", st, z3.BitVecVal(1, 32), "lex_err")
    E.contracts["lex_err"] = die


EVENTS = ("identifier", "is_typename", "integer", "set_si", "set_ui", "float_str", "float_d", "strtod", "strtol", "lex_char", "begin", "append_str",
          "append_char", "end", "marker", "lex_err", "strdup")
LOCAL = ("linenum", "colnum", "yy_start")


def summary(G, E, x, rule):
    """the label of a rule's action; a string says why there is none"""
    t = x.target
    st = G.state()
    txt = Ptr(z3.BitVec("text", 64))
    st.pc.append(txt.base != ZERO64)
    st.kind[txt.base.get_id()] = ("sym", 0, txt.base)
    st.glob[(t + "text", 0)] = txt
    out = []
    lval = None
    for p in G.paths(G.run(st, rule.fn, []), "total: %s" % rule.pattern, ok=("ret", "exit")):
        if p.out.kind == "exit":
            out.append((None, None, "diagnosed") if order(p, "lex_err") else "exits")
            continue
        v = z3.simplify(tobv(p.val, 32))
        if not z3.is_bv_value(v):
            return "no single token"
        tok = v.as_signed_long()
        tok = None if tok == NO_TOKEN else tok
        begin = p.st.glob.get(("yy_start", 0)) if any(e[1] == "yy_start" for e in order(p, "gstore")) else None
        if begin is not None:
            b = z3.simplify(tobv(begin, 32)).as_long()
            begin = [c for c, k in x.cond.items() if b == 1 + 2 * k]
            begin = begin[0] if begin else "?"
        if any(e[1] not in LOCAL + (t + "lval",) for e in order(p, "gstore")) or order(p, "store", "pstore", "append", "unlink", "retag", "free"):
            return "changes something else"
        ev = order(p, *EVENTS)
        kinds = tuple(e[0] for e in ev)
        now = p.st.glob.get((t + "lval", 0)) if any(e[1] == t + "lval" for e in order(p, "gstore")) else None
        istext = lambda q, off=0: isinstance(q, Ptr) and valid(p, q.term() == txt.term() + off)
        # (a copy of the text is as good)
        copies = [Ptr(e[1]) for e in ev if e[0] == "strdup" and istext(e[2])]
        like = lambda q: istext(q) or any(isinstance(q, Ptr) and q.base.eq(c.base) and q.off == 0 for c in copies)
        isval = lambda q: isinstance(q, Ptr) and E.glob_name(q.base) == t + "lval" and q.off == 0
        const = lambda q: z3.is_bv_value(z3.simplify(tobv(q, 32)))
        num = lambda q: z3.simplify(tobv(q, 32)).as_signed_long()
        kinds = tuple(k for k in kinds if k != "strdup")
        by = {e[0]: e for e in ev}
        eff = "?"
        if not kinds and now is None:
            eff = None
        elif not kinds and copies and isinstance(now, Ptr) and now.base.eq(copies[-1].base):
            eff = "text"
        elif kinds in (("identifier",), ("identifier", "is_typename")) and like(by["identifier"][1][0]) and isinstance(now, Ptr) and now.base.eq(by["identifier"][2].base):
            eff = "identifier"
            if len(kinds) == 2:
                if not (by["is_typename"][1][0].base.eq(now.base)):
                    return "another name is looked up"
                r = by["is_typename"][2]
                eff = "type's" if valid(p, tobv(r, 32) != 0) else "other" if valid(p, tobv(r, 32) == 0) else "?"
        elif kinds == ("integer",) and isval(by["integer"][1][0]) and like(by["integer"][1][1]) and const(by["integer"][1][2]):
            eff = ("integer", num(by["integer"][1][2]))
        elif kinds == ("lex_char", "set_si") and isval(by["set_si"][1][0]) and like(by["lex_char"][1][0]) and valid(p, tobv(by["set_si"][1][1], 64) == z3.SignExt(56, tobv(by["lex_char"][2], 8))):
            eff = "character"
        elif kinds == ("strtod", "float_d") and isval(by["float_d"][1][0]) and like(by["strtod"][1][0]) and same_fp(p, by["float_d"][1][1], by["strtod"][2]):
            eff = "double"
        elif kinds == ("begin",):
            eff = "string starts"
        elif kinds == ("append_str",) and like(by["append_str"][1][0]):
            eff = "text is appended"
        elif kinds == ("append_char",):
            c = z3.simplify(tobv(by["append_char"][1][0], 8))
            if z3.is_bv_value(c):
                eff = ("appended", c.as_long())
            elif valid(p, c == E.mem_load(p.st.mem, txt.term() + 1, 1)):
                eff = "second character is appended"
        elif kinds == ("strtol", "append_char") and istext(by["strtol"][1][0], 1) and const(by["strtol"][1][2]) and \
                valid(p, tobv(by["append_char"][1][0], 8) == z3.Extract(7, 0, tobv(by["strtol"][2], 64))):
            eff = ("coded", num(by["strtol"][1][2]))
        elif kinds == ("end",) and isinstance(now, Ptr) and now.base.eq(by["end"][2].base) and now.off == 0:
            eff = "string ends"
        elif kinds == ("marker",):
            eff = "marker"
        if eff == "?":
            return "%s" % (kinds,)
        out.append((tok, begin, eff))
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and all(isinstance(o, tuple) for o in out):
        d = {o[2]: o for o in out}
        if set(d) == {"type's", "other"}:
            return ((d["type's"][0], d["other"][0]), d["other"][1], "name")
    return "%s" % (out,)


def same_fp(p, a, b):
    return isinstance(a, FP) and isinstance(b, FP) and a.bits == b.bits and a.t.eq(b.t)


# ---- the tokens --------------------------------------------------------------------------------------
KEYWORDS = dict(auto="AUTO", case="CASE", char="CHAR", default="DEFAULT", do="DO", double="DOUBLE", extern="EXTERN", float="FLOAT", goto="GOTO",
                int="INT", _Bool="BOOL", long="LONG", register="REGISTER", short="SHORT", signed="SIGNED", sizeof="SIZEOF", static="STATIC", switch="SWITCH",
                typedef="TYPEDEF", unsigned="UNSIGNED", void="VOID")
KEYWORDS.update({"break": "BREAK", "continue": "CONTINUE", "else": "ELSE", "for": "FOR", "if": "IF", "return": "RETURN", "while": "WHILE", "<REPL>": "REPL"})
TAGGED = {"struct": "STRUCT", "union": "UNION", "enum": "ENUM"}
IGNORED = ['"_Nullable"', '"_Nonnull"', '("__")?"restrict"', '"__extension__"', '"volatile"', '("__")?"inline"("__")?', '"const"',
           r'"__asm"("__")?[ \t]*"("[^()\n]*")"', r'"__attribute__"[ \t]*"(("([^()\n]|"("([^()\n]|"("[^()\n]*")")*")")*"))"', r"\n"]
SIGNS = {"...": "ELLIPSIS", "==": "EQUATE", "!=": "NOT_EQUATE", "<=": "LESS_OR_EQUAL", ">=": "GREATER_OR_EQUAL", "+=": "ADD_ASSIGN", "-=": "SUB_ASSIGN",
         "/=": "DIV_ASSIGN", "<<=": "LSHIFT_ASSIGN", ">>=": "RSHIFT_ASSIGN", "^=": "XOR_ASSIGN", "<<": "SHIFT_LEFT", ">>": "SHIFT_RIGHT", "++": "INC",
         "--": "DEC", "->": "PTR_ACCESS", "&&": "BOOL_OP_AND", "||": "BOOL_OP_OR"}
SINGLE = "=();,':[].<>!+-*/%{}&|?^~"
NAME = LETTER + "[a-zA-Z_0-9]*"
OCTAL, DECIMAL, HEX = "0[0-7]*", "[1-9][0-9]*", "0x[0-9a-fA-F]+"
SPACES = (r"[ \t\r]", r"[ \t\r]+")


def quoted(s):
    return '"%s"' % s


def wanted(x, cond, spaces):
    """[(label, pattern)] of the tokens of a start condition, the first one counts"""
    T = x.tokens
    if cond == "INITIAL":
        w = [(SKIP, p) for p in IGNORED + [spaces]]
        w += [((T[n], None, None), quoted(k)) for k, n in KEYWORDS.items()]
        w += [((T[n], "compound_start_cond", None), quoted(k)) for k, n in TAGGED.items()]
        w += [((T[n], None, None), quoted(k)) for k, n in SIGNS.items()]
        w += [((ord(c), None, None), quoted(c)) for c in SINGLE]
        if x.target == "repl":
            w.append(((T["C_PRE_INC"], None, "text"), r'"#include"[ \t]*"<"(%s|[0-9]|\.|\/)+">"' % LETTER))
        else:
            w.append(((None, None, "marker"), r'"#"[ \t]*[0-9]+[ \t]*\"(\\.|[^\\"\n])+\"[ 1-4]*'))
        w.append((((T["TYPE_NAME"], T["IDENTIFIER"]), None, "name"), NAME))
        w += [((T["INTEGER"], None, ("integer", 8)), OCTAL), ((T["INTEGER"], None, ("integer", 10)), DECIMAL), ((T["INTEGER"], None, ("integer", 0)), HEX)]
        w.append(((T["FLOAT_CST"], None, "double"), r"[0-9]+\.[0-9]+"))
        w.append(((T["INTEGER"], None, "character"), r"L?'(\\.|[^\\'\n])+'"))
        w.append(((None, "str_lit", "string starts"), r'\"'))
    elif cond == "compound_start_cond":
        w = [(SKIP, r"\n"), (SKIP, spaces), ((ord("{"), "INITIAL", None), r"\{"), ((T["IDENTIFIER"], "INITIAL", "identifier"), NAME)]
    elif cond == "str_lit":
        w = [((None, None, "text is appended"), r'[^\\"\n]+'), ((None, None, ("appended", 10)), r"\\n"), ((None, None, ("appended", 9)), r"\\t"),
             ((None, None, ("coded", 8)), r"\\[0-7]{1,3}"), ((None, None, "second character is appended"), r'\\[\\"]'),
             ((T["CONST_STRING"], "INITIAL", "string ends"), r'\"'), ((None, None, "diagnosed"), r"\\.|\n|\\\n")]
    else:
        return None
    return w


def canonical(label, regex):
    """base 0 is the base that the digits' prefix tells"""
    if label[2] == ("integer", 0):
        a = Automaton([regex])
        for lang, base in ((OCTAL, 8), (DECIMAL, 10)):
            both = Automaton([Pattern(lang, {}).parse(), regex])
            if lexer.compare(Automaton([Pattern(lang, {}).parse()]), [1], both, [1, 1]) is None:
                return label[:2] + (("integer", base),)
    return label


def tokens(target, cond):
    def f(S):
        G = Group(S, "lexer/%s/%s" % (target, cond))
        x, G.E = engine(S, target)
        effects(G.E)
        rules, labels = x.of(cond), []
        if not G.paths_ok("there", [], rules and cond in x.cond, "no such start condition"):
            return G
        for r in rules:
            l = summary(G, G.E, x, r)
            G.paths_ok("action/%s" % r.pattern, [], isinstance(l, tuple), "not what any token's action does: %s" % (l,))
            labels.append(canonical(l, r.regex) if isinstance(l, tuple) else l)
        a = Automaton([r.regex for r in rules])
        best = None
        for sp in SPACES:
            w = wanted(x, cond, sp)
            b = Automaton([Pattern(p, {}).parse() for l, p in w])
            d = lexer.compare(a, labels, b, [l for l, p in w])
            if d is None:
                best = None
                break
            best = best or d
        G.paths_ok("tokens", [], best is None, best and "the text %r is %s, not %s" % best)
        return G
    f.group = "lexer/%s/%s" % (target, cond)
    return f


TOKENS = [tokens(t, c) for t in ("cscript", "repl") for c in ("INITIAL", "compound_start_cond", "str_lit")]


# ---- the functions that the actions call --------------------------------------------------------------
def buffer(E):
    """the contracts of realloc, malloc, memcpy and strlen: what they do is noted"""
    def c_realloc(E, st, a):
        p = contracts.new_block(E, st, a[1], "malloc")
        st.events.append(("realloc", a[0], a[1], p))
        return p
    def c_copy(E, st, a):
        v = E.load(st, a[1], ("int", 8)) if a[2] == 1 else None
        st.events.append(("copied", a[0], a[1], a[2], v))
        return a[0]
    def c_strlen(E, st, a):
        n = uf("strlen", BV64, BV64)(a[0].term())
        st.pc.append(z3.ULT(n, 1 << 59))
        st.events.append(("strlen", a[0], n))
        return n
    E.contracts["realloc"] = c_realloc
    E.contracts["memcpy"] = E.contracts["llvm.memcpy.p0.p0.i64"] = c_copy
    E.contracts["strlen"] = c_strlen


def start(G, empty=False):
    """the characters that there are"""
    st = G.state()
    b, n = z3.BitVec("buffer", 64), z3.BitVec("length", 64)
    st.kind[b.get_id()] = ("sym", 0, b)
    st.pc.append(z3.ULT(n, 1 << 59))
    st.glob[("sl_buf", 0)], st.glob[("sl_len", 0)] = Ptr(b), n
    return st, b, n


def unchanged(p, *but):
    p.require("frame", all(e[1] in but for e in order(p, "gstore")) and not order(p, "append", "unlink", "retag", "free"), "something else changes")


def grown(p, b, n, by):
    """the buffer has room for more, what it held is kept"""
    r = order(p, "realloc")
    if len(r) == 1 and valid(p, r[0][1].term() == b) and valid(p, z3.UGE(tobv(r[0][2], 64), n + by)):
        return r[0][3]


def string(name, args):
    def deco(check):
        def f_of(target):
            def f(S):
                G = Group(S, "lexer/%s/%s" % (target, name))
                x, G.E = engine(S, target)
                buffer(G.E)
                st, b, n = start(G)
                av = args(G, st)
                for p in G.paths(G.run(st, name, av), "total", ok=("ret",)):
                    unchanged(p, "sl_buf", "sl_len")
                    check(p, b, n, *av)
                return G
            f.group = "lexer/%s/%s" % (target, name)
            return f
        BUFFER.extend(f_of(t) for t in ("cscript", "repl"))
        return check
    return deco


BUFFER = []
now = lambda p, g: p.st.glob.get((g, 0))


@string("sl_begin", lambda G, st: [])
def begins(p, b, n):
    p.require("empty", valid(p, tobv(now(p, "sl_len"), 64) == 0), "a string doesn't start empty")
    p.require("buffer", valid(p, now(p, "sl_buf").term() == b) and not order(p, "realloc", "copied", "pstore"), "the buffer changes")


@string("sl_append_char", lambda G, st: [z3.BitVec("c", 8)])
def appends(p, b, n, c):
    m, cp = grown(p, b, n, 1), order(p, "copied")
    if p.require("room", m is not None and valid(p, now(p, "sl_buf").term() == m.term()), "there is no room for the character"):
        p.require("written", len(cp) == 1 and valid(p, cp[0][1].term() == m.term() + n) and cp[0][3] == 1 and cp[0][4] is not None and
                  valid(p, tobv(cp[0][4], 8) == c), "the character isn't the next one")
    p.require("length", valid(p, tobv(now(p, "sl_len"), 64) == n + 1), "the length isn't one more")


def a_text(G, st):
    s = Ptr(z3.BitVec("s", 64))
    st.kind[s.base.get_id()] = ("sym", 0, s.base)
    st.pc.append(s.base != ZERO64)
    return [s]


@string("sl_append_str", a_text)
def appends_text(p, b, n, s):
    k = uf("strlen", BV64, BV64)(s.term())
    m, cp = grown(p, b, n, k), order(p, "copied")
    if p.require("room", m is not None and valid(p, now(p, "sl_buf").term() == m.term()), "there is no room for the text"):
        p.require("written", len(cp) == 1 and valid(p, cp[0][1].term() == m.term() + n) and valid(p, cp[0][2].term() == s.term()) and
                  valid(p, tobv(cp[0][3], 64) == k), "the text doesn't follow")
    p.require("length", valid(p, tobv(now(p, "sl_len"), 64) == n + k), "the length isn't that of both")


@string("sl_end", lambda G, st: [])
def ends(p, b, n):
    m, cp, r = grown(p, b, n, 1), order(p, "copied"), p.val
    if not p.require("room", m is not None and len(cp) == 2, "the string isn't ended and copied"):
        return
    p.require("ended", valid(p, cp[0][1].term() == m.term() + n) and cp[0][3] == 1 and cp[0][4] is not None and valid(p, tobv(cp[0][4], 8) == 0),
              "no null character follows")
    size = [e[2] for e in order(p, "malloc") if isinstance(r, Ptr) and e[1].eq(r.base)]
    p.require("own", r.off == 0 and not r.base.eq(m.base) and len(size) == 1 and valid(p, z3.UGE(tobv(size[0], 64), n + 1)), "the string has no memory of its own")
    p.require("whole", valid(p, cp[1][1].term() == r.term()) and valid(p, cp[1][2].term() == m.term()) and valid(p, tobv(cp[1][3], 64) == n + 1),
              "the string isn't all of the characters")
    p.require("order", valid(p, now(p, "sl_buf").term() == m.term()), "the buffer is lost")


ESCAPES = {"n": 10, "\\": 92, "r": 13, "t": 9, "'": 39, '"': 34, "?": 63, "a": 7, "b": 8, "f": 12, "v": 11, "0": 0, "1": 1, "2": 2, "3": 3, "4": 4, "5": 5,
           "6": 6, "7": 7}


def character(target):
    def f(S):
        G = Group(S, "lexer/%s/lex_char" % target)
        x, G.E = engine(S, target)
        E = G.E
        buffer(E)
        st = G.state()
        s, = a_text(G, st)
        n = uf("strlen", BV64, BV64)(s.term())
        ch = lambda p, i: E.mem_load(st.mem, s.term() + i, 1)
        st.pc.append(z3.UGE(n, 3))
        for p in G.paths(G.run(st, "lex_char", [s]), "total", ok=("ret", "exit")):
            unchanged(p)
            if p.out.kind == "exit":
                ex = order(p, "diagnosed", "exit")
                p.require("diagnosed", [e[0] for e in ex] == ["diagnosed", "exit"] and valid(p, tobv(ex[1][1], 32) & 255 != 0), "the program isn't told to have failed")
                one = z3.And(n == 3, ch(p, 0) == 39)
                esc = z3.And(n == 4, ch(p, 0) == 39, ch(p, 1) == 92, z3.Or([ch(p, 2) == ord(k) for k in "n\\r"]))
                p.require("supported", valid(p, z3.Not(z3.Or(z3.And(one, ch(p, 1) != 92), esc))), "a character is refused")
            else:
                v = tobv(p.val, 8)
                p.require("value", valid(p, z3.Implies(z3.And(n == 3, ch(p, 0) == 39, ch(p, 1) != 92), v == ch(p, 1))), "not the character's value")
                for k, c in ESCAPES.items():
                    p.require("escape/" + k, valid(p, z3.Implies(z3.And(n == 4, ch(p, 0) == 39, ch(p, 1) == 92, ch(p, 2) == ord(k)), v == c)), "not the escape's value")
                p.require("known", valid(p, z3.Implies(z3.And(n == 4, ch(p, 0) == 39, ch(p, 1) == 92), z3.Or([ch(p, 2) == ord(k) for k in ESCAPES]))),
                          "what no escape is has a value")
                p.require("plain", valid(p, z3.And(ch(p, 0) == 39, z3.ULE(n, 4))), "what no character constant of the narrow kind is has a value")
        return G
    f.group = "lexer/%s/lex_char" % target
    return f


def error(target):
    def f(S):
        G = Group(S, "lexer/%s/lex_err" % target)
        x, G.E = engine(S, target)
        st = G.state()
        for p in G.paths(G.run(st, "lex_err", [a_text(G, st)[0]]), "ends", ok=("exit",)):
            ex = order(p, "diagnosed", "exit")
            p.require("diagnosed", [e[0] for e in ex] == ["diagnosed", "exit"], "nothing is said")
            p.require("status", valid(p, tobv(ex[-1][1], 32) & 255 != 0), "the status is a success's")
        return G
    f.group = "lexer/%s/lex_err" % target
    return f


LITERALS = BUFFER + [f(t) for f in (character, error) for t in ("cscript", "repl")]
WORDS = [r for r in TOKENS if not r.group.endswith("str_lit")]
