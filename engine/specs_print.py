"""C24: what the prompt and the inspector print.

printf's contract: it prints its format with each conversion replaced by the
argument's value.  What a function prints is the sequence of these pieces.
"""
import re, z3
from sym import *
from sym import fpcast
from ir import Unsupported
from spec import *
import contracts
from specs_main import noted, is_a, elements
from specs_scope import order, valid
from specs_cpp import text

# which conversions show a type's values, exactly or with printf's six digits
SHOWS = {"D_T_CHAR": ("d", "i", "hhd", "hhi", "hd", "hi"), "D_T_SHORT": ("hd", "hi", "d", "i"), "D_T_INT": ("d", "i"), "D_T_LONG": ("ld", "li", "lld", "lli", "jd", "zd"),
         "D_T_LONGLONG": ("lld", "lli", "ld", "li", "jd"), "D_T_UCHAR": ("u", "hhu", "d", "hu", "i"), "D_T_USHORT": ("hu", "u", "d", "i"), "D_T_UINT": ("u",),
         "D_T_ULONG": ("lu", "llu", "zu", "ju"), "D_T_ULONGLONG": ("llu", "lu", "ju", "zu"), "D_T_FLOAT": ("f",), "D_T_DOUBLE": ("f",), "D_T_LONGDOUBLE": ("Lf",), "D_T_PTR": ("p",)}
WIDTH = {"D_T_CHAR": 8, "D_T_SHORT": 16, "D_T_INT": 32, "D_T_LONG": 64, "D_T_LONGLONG": 64, "D_T_UCHAR": 8, "D_T_USHORT": 16, "D_T_UINT": 32, "D_T_ULONG": 64, "D_T_ULONGLONG": 64}
NAMES = {"D_T_CHAR": ("signed char", "char"), "D_T_SHORT": ("signed short", "short"), "D_T_INT": ("signed integer", "int", "signed int"),
         "D_T_LONG": ("signed long", "long"), "D_T_LONGLONG": ("signed long long", "long long"), "D_T_UCHAR": ("unsigned char",), "D_T_USHORT": ("unsigned short",),
         "D_T_UINT": ("unsigned integer", "unsigned int"), "D_T_ULONG": ("unsigned long",), "D_T_ULONGLONG": ("unsigned long long",),
         "D_T_FLOAT": ("float",), "D_T_DOUBLE": ("double",), "D_T_LONGDOUBLE": ("long double",), "D_T_PTR": ("pointer",)}


def printing(E):
    def fmt(kind):
        def h(E, st, a):
            s = text(E, a[0])
            if s is None:
                raise Unsupported("a format that is no literal")
            st.events.append(("print", kind, s, a[1:]))
            return E.fresh("printed", z3.BitVecSort(32))
        return h
    def plain(newline, file):
        def h(E, st, a):
            st.events.append(("print", "printf", "%s" + newline, a[:1]))
            return E.fresh("printed", z3.BitVecSort(32))
        return h
    def char(E, st, a):
        c = z3.simplify(tobv(a[0], 32))
        st.events.append(("print", "printf", "%c" if not z3.is_bv_value(c) else chr(c.as_long() & 255).replace("%", "%%"), [] if z3.is_bv_value(c) else a[:1]))
        return a[0]
    E.contracts["printf"] = fmt("printf")
    E.contracts["__gmp_printf"] = fmt("gmp")
    E.contracts["puts"] = plain("\n", False)
    E.contracts["putchar"] = char


def pieces(p):
    """the text that is printed: strings, and (conversion, argument)"""
    out = []
    def lit(s):
        if s:
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
    for e in order(p, "print", "value", "indent"):
        if e[0] != "print":
            out.append(e)
            continue
        args = list(e[3])
        for x in re.split(r"(%(?:%|[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|L|j|z|t|Z|F|Q)?[a-zA-Z]))", e[2]):
            if x == "%%":
                lit("%")
            elif x.startswith("%") and len(x) > 1:
                if not args:
                    return ["?"]
                v = args.pop(0)
                s = text(p.E, v) if x == "%s" and isinstance(v, Ptr) else None
                lit(s) if s is not None else out.append((x[1:], v))
            else:
                lit(x)
    return out


def is_str(p, x, s):
    return isinstance(x, tuple) and x[0] == "s" and isinstance(x[1], Ptr) and isinstance(s, Ptr) and valid(p, x[1].term() == s.term())


def live_var(S):
    """an object is shown with the value of its type that its bytes have"""
    G = Group(S, "pp_live_var")
    E = G.E
    printing(E)
    for n in G.M.ctypes:
        for target in ("D_T_CHAR", None) if n == "D_T_PTR" else (None,):
            st = G.state()
            v = G.node(st, "v", "T_LIVE_VAR")
            ty = G.operand(st, v, "tLV_TYPE", n)
            if n == "D_T_PTR":
                to = G.operand(st, ty, "tDTPTR_EXP")
                E.assume_tags(st, to, G.M.tagset("D_T_CHAR") if target else frozenset(range(len(G.M.names))) - G.M.tagset("D_T_CHAR"))
            name = n + ("/" + target if target else "")
            addr = E.get(st, v, "tLV_VAL").term()
            mem = st.mem
            for p in G.paths(G.run(st, "pp_live_var", [v, z3.BitVec("depth", 32)]), "total/" + name):
                G.frame(p, name="frame/" + name)
                out = pieces(p)
                if n == "D_T_VOID":
                    continue
                if not p.require("conversion/" + name, out and isinstance(out[0], tuple) and out[0][0] in SHOWS.get(n, ()), "not a conversion of this type: %s" % (out[:1],)):
                    continue
                a = out[0][1]
                if n in WIDTH:
                    w = WIDTH[n]
                    b = z3.simplify(E.mem_load(mem, addr, w // 8))
                    x = tobv(a, 32 if w < 32 else w)
                    want = b if w >= 32 else z3.ZeroExt(32 - w, b) if n.startswith("D_T_U") else z3.SignExt(32 - w, b)
                    p.require("value/" + name, x == want, "not the object's value")
                elif n == "D_T_PTR":
                    s = E.mem_load(mem, addr, 8)
                    p.require("value/" + name, isinstance(a, Ptr) and valid(p, a.term() == s), "not the object's value")
                    if target and valid(p, s != 0):
                        p.require("string/" + name, len(out) == 4 and out[1] == ' ("' and is_str(p, out[2], a) and out[3] == '")', "not the string that it points to")
                        continue
                    if target and not valid(p, s == 0):
                        p.require("null/" + name, False, "a null pointer's string is shown")
                        continue
                else:
                    bits = {"D_T_FLOAT": 32, "D_T_DOUBLE": 64, "D_T_LONGDOUBLE": 80}[n]
                    p.require("value/" + name, float_of(p, a, mem, addr, bits), "not the object's value")
                p.require("no-more/" + name, len(out) == 1, "something else is shown")
    return G


def float_of(p, a, mem, addr, bits):
    if not isinstance(a, FP):
        return False
    b = p.E.mem_load(mem, addr, {32: 4, 64: 8, 80: 10}[bits])
    if bits == 80:
        return a.bits == 80 and valid(p, z3.Extract(79, 0, a.t) == b)
    if bits == 64:
        return a.bits == 64 and valid(p, a.t == b)
    w = fpcast("fpext", FP(32, b), ("fp", 32), ("fp", 64))
    return a.bits == 64 and valid(p, a.t == w.t)


live_var.group = "pp_live_var"
VALUES = [live_var]


# ---- what else can be printed ---------------------------------------------------------------------
def on_stack(st, fn):
    f = st.frame
    while f is not None:
        if f.fn.name == fn:
            return True
        f = f.parent
    return False


def nested(E):
    """values within values: the contract of __pp_1 is that it shows the value"""
    def pp(E, st, a):
        if on_stack(st, "__pp_1") or any(e[0] == "loop" for e in st.events):
            st.events.append(("value", a[0]))
            return 0
        return Inline("__pp_1", a)
    E.contracts["__pp_1"] = pp
    E.contracts["pp_print_indent"] = noted("indent")
    E.contracts["pp_live_var"] = noted("object")


def segments(p):
    """what is printed up to the loops, and after each"""
    class Part:
        pass
    parts, cur = [], []
    for e in p.st.events:
        if e[0] == "loop":
            parts.append(cur)
            cur = []
        else:
            cur.append(e)
    parts.append(cur)
    out = []
    for es in parts:
        q = Part()
        q.E, q.st = p.E, Part()
        q.st.events = es
        out.append(pieces(q))
    return out


def blank(s):
    return isinstance(s, tuple) and s[0] == "indent"


def squeeze(out):
    """without indentation"""
    r = []
    for x in out:
        if blank(x):
            continue
        if isinstance(x, str):
            if r and isinstance(r[-1], str):
                r[-1] += x
            else:
                r.append(x)
        else:
            r.append(x)
    return r


def is_value(p, x, t):
    return isinstance(x, tuple) and x[0] == "value" and valid(p, x[1].term() == t.term())


def constants(S):
    """constants, strings and names are shown as what they are; a null result isn't shown"""
    G = Group(S, "pretty_print")
    E = G.E
    printing(E)
    nested(E)
    for n in (None, "T_INTEGER", "T_FLOAT", "T_STRING", "T_IDENTIFIER", "T_LIVE_VAR"):
        st = G.state()
        t = G.node(st, "t", n) if n else NULL
        for p in G.paths(G.run(st, "pretty_print", [t]), "total/%s" % n):
            G.frame(p, name="frame/%s" % n)
            out = pieces(p)
            gmp = lambda f, *cs: len(out) == 1 and isinstance(out[0], tuple) and out[0][0] in cs and isinstance(out[0][1], Ptr) and out[0][1].base.eq(t.base) and out[0][1].off == G.M.off(f)
            ok = {None: lambda: not out, "T_INTEGER": lambda: gmp("tINT_VAL", "Zd"), "T_FLOAT": lambda: gmp("tFLOAT_VAL", "Ff"),
                  "T_STRING": lambda: len(out) == 3 and out[0] == '"' and is_str(p, out[1], p.get(t, "tSTRING_VAL")) and out[2] == '"',
                  "T_IDENTIFIER": lambda: len(out) == 1 and is_str(p, out[0], p.get(t, "tID_STR")),
                  "T_LIVE_VAR": lambda: not out}[n]()
            p.require("shown/%s" % n, ok, "not what is shown of it: %s" % (out,))
            o = order(p, "object")
            p.require("object/%s" % n, (len(o) == 1 and valid(p, o[0][1][0].term() == t.term())) if n == "T_LIVE_VAR" else not o, "not the object")
    return G


constants.group = "pretty_print"


def compound(S):
    """a structure or union is shown as its members in order, each with its name and value"""
    G = Group(S, "pp_live_compound")
    E = G.E
    printing(E)
    nested(E)
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        E.assume_tags(st, el, G.M.tagset("E_MAP"))
    E.on_elem = on_elem
    st = G.state()
    t = G.node(st, "t", "T_LIVE_COMPOUND")
    ms = G.operand(st, t, "tLV_COMP_MEMBERS", "CHAIN_HEAD")
    kinds = set()
    for p in G.paths(G.run(st, "pretty_print", [t]), "total", ok=("ret", "back")):
        G.frame(p)
        lp = order(p, "loop")
        if not p.require("members", len(lp) == 1 and lp[0][6] and lp[0][6][1].eq(ms.base), "not the members are gone through"):
            continue
        a, b = [squeeze(x) for x in segments(p)]
        p.require("open", a == ["{\n"], "not the beginning: %s" % a)
        kinds.add(p.out.kind)
        if p.out.kind == "ret":
            p.require("close", b == ["}"], "not the end: %s" % b)
            continue
        el = Ptr(lp[0][6][3]) if len(lp[0][6]) > 3 else p.st.elem
        ok = len(b) == 5 and b[0] == "." and is_str(p, b[1], p.get(p.get(el, "tEMAP_LEFT"), "tID_STR")) and b[2] == " = " and is_value(p, b[3], p.get(el, "tEMAP_RIGHT")) and b[4] == "\n"
        p.require("member", ok, "not the member's name and value: %s" % b)
    G.paths_ok("all", [], kinds == {"ret", "back"}, "not all of the members")
    return G


compound.group = "pp_live_compound"


def chains(S):
    """of a list, all elements are shown in order"""
    G = Group(S, "pretty_print/list")
    E = G.E
    printing(E)
    nested(E)
    E.on_elem = lambda E, st, hd, el: st.kind.__setitem__(el.base.get_id(), ("sym", 0, el.base))
    st = G.state()
    t = G.node(st, "t", "CHAIN_HEAD")
    for p in G.paths(G.run(st, "pretty_print", [t]), "total", ok=("ret", "back")):
        G.frame(p)
        lp = order(p, "loop")
        if not p.require("elements", len(lp) == 1 and lp[0][6] and lp[0][6][1].eq(t.base), "not the elements are gone through"):
            continue
        a, b = [squeeze(x) for x in segments(p)]
        p.require("only", not a and (p.out.kind == "back" and len(b) == 1 and is_value(p, b[0], Ptr(lp[0][6][3])) or p.out.kind == "ret" and not b), "not each element's value: %s %s" % (a, b))
    return G


chains.group = "pretty_print/list"


def indent(S):
    G = Group(S, "pp_print_indent")
    printing(G.E)
    st = G.state()
    for p in G.paths(G.run(st, "pp_print_indent", [z3.BitVec("depth", 32)]), "total", ok=("ret", "back")):
        G.frame(p)
        p.require("blank", all(isinstance(x, str) and not x.strip(" \t") for x in pieces(p)), "something is printed")
    return G


indent.group = "pp_print_indent"
VALUES += [constants, compound, chains, indent]


# ---- the inspector -----------------------------------------------------------------------------------
def shows(G, st):
    E = G.E
    printing(E)
    def value(E, st, a):
        st.events.append(("value", a[0]))
        return 0
    E.contracts["pretty_print"] = value
    E.contracts["evaluate_expr"] = noted("evaluate_expr", lambda E, st, a: Ptr(E.fresh("result")))
    E.contracts["tree_description_string"] = noted("describe", lambda E, st, a: Ptr(E.fresh("description")))
    def pointer(E, st, a):
        if on_stack(st, "handle_pointer_type"):
            r = G.node(st, "pointee", "T_DECL_COMPOUND") if G.to_compound else other_type(G, st, G.node(st, "pointee"))
            if G.to_compound:
                E.assume_tags(st, E.get(st, r, "tCOMP_DECL_ID"), G.M.tagset("T_IDENTIFIER"))
            st.events.append(("pointee", a, r))
            return r
        return Inline("handle_pointer_type", a)
    E.contracts["handle_pointer_type"] = pointer


def other_type(G, st, t):
    G.E.assume_tags(st, t, frozenset(range(len(G.M.names))) - G.M.tagset("D_T_PTR", "T_DECL_COMPOUND", "T_LIVE_VAR"))
    return t


def same(x, y):
    return isinstance(x, Ptr) and isinstance(y, Ptr) and z3.simplify(x.term()).eq(z3.simplify(y.term()))


def described(p, x, t):
    """x is t's description"""
    return isinstance(x, tuple) and x[0] == "s" and any(same(e[2], x[1]) and valid(p, e[1][0].term() == t.term()) for e in order(p, "describe"))


def head_of(p, out, name, t):
    """NAME is a TYPE."""
    if not (len(out) >= 2 and is_str(p, out[0], name) and isinstance(out[1], str) and out[1].startswith(" is a ")):
        return None
    return out[2:]


def inspect(S):
    """the kind, value, size and place of what a name denotes"""
    G = Group(S, "inspect")
    E = G.E
    shows(G, None)
    M = G.M
    st = G.state()
    i = G.node(st, "id", "T_IDENTIFIER")
    for p in G.paths(G.run(st, "inspect", [i, NULL]), "total/nothing"):
        G.frame(p, name="frame/nothing")
        p.require("nothing", pieces(p) == ["Object not found\n"], "not what is said of no object")
    for kind, ptr in [("T_LIVE_VAR", n) for n in ("other", "D_T_PTR", "D_T_PTR/compound", "T_DECL_COMPOUND")] + [("T_FN", None), ("T_EXT_FUNC", None), ("T_LIVE_COMPOUND", None), ("T_DECL_COMPOUND", None)]:
        st = G.state()
        i = G.node(st, "id", "T_IDENTIFIER")
        o = G.node(st, "o", kind)
        t = o
        if kind == "T_LIVE_VAR":
            if ptr == "other":
                t = other_type(G, st, G.operand(st, o, "tLV_TYPE"))
            else:
                t = G.operand(st, o, "tLV_TYPE", ptr.split("/")[0])
        G.to_compound = ptr is not None and ptr.endswith("/compound")
        placed = G.operand(st, o, "tEXT_FUNC_FN", "T_FN") if kind == "T_EXT_FUNC" else o
        if "T_DECL_COMPOUND" in (kind, ptr):
            E.assume_tags(st, E.get(st, t, "tCOMP_DECL_ID"), M.tagset("T_IDENTIFIER"))
        E.assume_tags(st, E.tree_load(st, placed.base, M.off_locus + 16, 8, ("ptr",)), M.tagset("T_IDENTIFIER"))
        name = E.get(st, i, "tID_STR")
        what = "%s/%s" % (kind, ptr) if ptr else kind
        for p in G.paths(G.run(st, "inspect", [i, o]), "total/" + what):
            G.frame(p, name="frame/" + what)
            out = pieces(p)
            # NAME is a TYPE.
            k = 2
            ok = len(out) > 2 and is_str(p, out[0], name) and out[1] == " is a "
            f = t
            if ok and ptr and ptr.startswith("D_T_PTR"):
                pt = order(p, "pointee")
                ok = described(p, out[2], t) and isinstance(out[3], str) and out[3] == " to a " and len(pt) == 1 and valid(p, pt[0][1][0].term() == p.get(t, "tDTPTR_EXP").term())
                f, k = (pt[0][2], 4) if ok else (t, 2)
            if not p.require("kind/" + what, ok and len(out) > k, "not the name and its type: %s" % (out,)):
                continue
            tags = p.names(f)
            idn = p.get(f, "tCOMP_DECL_ID") if tags == {"T_DECL_COMPOUND"} else None
            named = idn is not None and valid(p, idn.term() != 0)
            p.require("type/" + what, is_str(p, out[k], p.get(idn, "tID_STR")) if named else described(p, out[k], f), "not the type: %s" % (out,))
            out = out[k + 1:]
            file = E.tree_load(p.st, placed.base, M.off_locus + 16, 8, ("ptr",))
            line = E.tree_load(p.st, placed.base, M.off_locus, 8, ("int", 64))
            want = [".\n"]
            def add(*xs):
                for x in xs:
                    if isinstance(x, str) and want and isinstance(want[-1], str):
                        want[-1] += x
                    else:
                        want.append(x)
            if kind == "T_LIVE_VAR":
                add("value of ", lambda x: is_str(p, x, name), " is ", lambda x: is_value(p, x, o), "\n", "sizeof(", lambda x: is_str(p, x, name), ") = ",
                    lambda x: size_of(p, x, i, o), " bytes.\n")
            if kind in ("T_LIVE_VAR", "T_FN", "T_EXT_FUNC") and not valid(p, file.term() == 0):
                p.require("place/" + what, file.term() != 0, "a place that isn't known is shown")
                add(lambda x: is_str(p, x, name), " was declared at: ", lambda x: is_str(p, x, p.get(file, "tID_STR")), ":",
                    lambda x: isinstance(x, tuple) and x[0] in ("ld", "li", "d", "i") and valid(p, tobv(x[1], 64) == tobv(line, 64)), "\n")
            p.require("rest/" + what, len(out) == len(want) and all(x == w if isinstance(w, str) else not isinstance(x, str) and w(x) for x, w in zip(out, want)),
                      "not its value, size and place: %s" % (out,))
    return G


def size_of(p, x, i, o):
    ev = order(p, "evaluate_expr")
    if len(ev) != 1 or not is_value(p, x, ev[0][2]):
        return False
    q = ev[0][1][0]
    return is_a(p, q, "T_SIZEOF") and any(valid(p, p.get(q, "tSZOF_EXP").term() == y.term()) for y in (i, o))


inspect.group = "inspect"


def pointers(S):
    """pointers' types are followed to the type that isn't a pointer's"""
    G = Group(S, "handle_pointer_type")
    E = G.E
    shows(G, None)
    G.to_compound = False
    for ptr in (True, False):
        st = G.state()
        t = G.node(st, "t")
        E.assume_tags(st, t, G.M.tagset("D_T_PTR") if ptr else frozenset(range(len(G.M.names))) - G.M.tagset("D_T_PTR"))
        for p in G.paths(G.run(st, "handle_pointer_type", [t]), "total/%s" % ptr):
            G.frame(p, name="frame/%s" % ptr)
            out, pt = pieces(p), order(p, "pointee")
            if ptr:
                p.require("pointer", len(out) == 2 and described(p, out[0], t) and out[1] == " to a " and len(pt) == 1 and
                          valid(p, pt[0][1][0].term() == p.get(t, "tDTPTR_EXP").term()) and same(p.val, pt[0][2]), "not a pointer to something")
            else:
                p.require("end", not out and not pt and valid(p, p.val.term() == t.term()), "not the type itself")
    return G


pointers.group = "handle_pointer_type"


def descriptions(S):
    """every arithmetic type has its own C name"""
    G = Group(S, "tree_description_string")
    for n in sorted(NAMES):
        st = G.state()
        t = G.node(st, "t", n)
        for p in G.paths(G.run(st, "tree_description_string", [t]), "total/" + n):
            p.require("name/" + n, text(G.E, p.val) in NAMES[n], "not the type's name: %s" % text(G.E, p.val))
    return G


descriptions.group = "tree_description_string"
INSPECT = [inspect, pointers, descriptions]


# ---- the prompt ------------------------------------------------------------------------------------------
def prompt(S):
    """each line is read, parsed and evaluated once, in order, and its result is shown"""
    G = Group(S, "bic_repl")
    E = G.E
    shows(G, None)
    E.contracts["readline"] = noted("readline", lambda E, st, a: Ptr(E.fresh("line")))
    E.contracts["add_history"] = noted("history")
    E.contracts["repl_parse_line"] = noted("parse", lambda E, st, a: Ptr(E.fresh("statement")))
    E.contracts["setup_readline"] = noted("setup")
    E.contracts["evaluate_startup_file"] = noted("startup")
    st = G.state()
    kinds = set()
    for p in G.paths(G.run(st, "bic_repl", []), "total", ok=("ret", "back")):
        lp = order(p, "loop")
        if not p.require("loop", len(lp) == 1, "not one loop"):
            continue
        at = [i for i, e in enumerate(p.st.events) if e[0] == "loop"][0]
        before, after = p.st.events[:at], p.st.events[at + 1:]
        p.require("startup", [e[0] for e in before if e[0] in ("startup", "readline", "getline")][:1] == ["startup"] and len(order(p, "startup")) == 1, "not ~/.bic is executed before the first line, once")
        p.require("start", not [e for e in before if e[0] in ("evaluate_expr", "parse", "value", "print")], "something is evaluated before a line is read")
        rd = [e for e in before if e[0] == "readline"]
        if not p.require("first", len(rd) <= 1, "lines are left out"):
            continue
        acts = [e for e in after if e[0] in ("readline", "parse", "evaluate_expr", "value", "print", "exit")]
        # the line of this turn: read before the loop and at its end, or at its beginning
        if rd:
            entry = [r for r, v in lp[0][2].items() if isinstance(v, Ptr) and same(v, rd[0][2])]
            if not p.require("line", len(entry) == 1, "the first line is lost"):
                continue
            line = lp[0][3][entry[0]]
        else:
            if not p.require("line", acts and acts[0][0] == "readline", "no line is read"):
                continue
            line = acts.pop(0)[2]
        kinds.add(p.out.kind)
        if p.out.kind == "ret":
            p.require("end", z3.And(line.term() == 0, z3.BoolVal(not acts)), "lines that follow aren't read")
            continue
        if rd:
            b = order(p, "back")[-1][2][entry[0]]
            nx = acts.pop() if acts and acts[-1][0] == "readline" else None
            if not p.require("next", nx is not None and isinstance(b, Ptr) and same(b, nx[2]), "the next line isn't what follows"):
                continue
        p.require("a-line", line.term() != 0, "no line is taken for one")
        pa = acts.pop(0) if acts else ("none",)
        if not p.require("parsed", pa[0] == "parse" and valid(p, pa[1][0].term() == line.term()), "the line isn't parsed"):
            continue
        s = pa[2].term()
        if not acts:
            p.require("nothing", s == 0, "a statement isn't evaluated")
            continue
        ev = acts.pop(0)
        if not p.require("evaluated", ev[0] == "evaluate_expr" and valid(p, ev[1][0].term() == s), "not the statement is evaluated"):
            continue
        p.require("statement", s != 0, "no statement is evaluated")
        r = ev[2].term()
        out = pieces_of(p, after)
        ok = valid(p, r == 0) and not out or len(out) == 2 and is_value(p, out[0], ev[2]) and out[1] == "\n"
        p.require("shown", ok and all(e[0] in ("value", "print") for e in acts), "not its result is shown: %s" % (out,))
    G.paths_ok("turns", [], kinds == {"ret", "back"}, "no lines")
    return G


def pieces_of(p, events):
    class Part:
        pass
    q = Part()
    q.E, q.st = p.E, Part()
    q.st.events = events
    return pieces(q)


prompt.group = "bic_repl"


def statement(S):
    """a line is an #include, or it is preprocessed with the headers included so far, and parsed; the names that its first parsing made types are forgotten"""
    G = Group(S, "repl_parse_line")
    E = G.E
    E.contracts["repl_do_parse"] = noted("parse", lambda E, st, a: Ptr(E.fresh("statement")))
    E.contracts["typename_last"] = noted("last", lambda E, st, a: Ptr(E.fresh("last")))
    E.contracts["typename_forget_after"] = noted("forget")
    E.contracts["run_cpp_on_line"] = noted("cpp", lambda E, st, a: Ptr(E.fresh("output")))
    st = G.state()
    l = Ptr(z3.BitVec("line", 64))
    for p in G.paths(G.run(st, "repl_parse_line", [l])):
        es = order(p, "parse", "last", "forget", "cpp")
        fr = order(p, "free")
        p.require("free", all(any(e[0] == "cpp" and same(e[2], f[1]) for e in es) for f in fr) and not order(p, "store", "pstore", "gstore"), "something else is changed")
        k = [e[0] for e in es]
        if not p.require("first", k[:3] == ["last", "parse", "forget"] and valid(p, es[1][1][0].term() == l.term()) and same(es[2][1][0], es[0][2]),
                         "the line isn't parsed for what it is, and what that declared forgotten"):
            continue
        s = es[1][2]
        if len(k) == 3:
            inc = valid(p, s.term() == 0) or p.names(s) == {"CPP_INCLUDE"}
            p.require("include", inc and valid(p, p.val.term() == s.term()), "a line that is no #include isn't preprocessed")
            continue
        p.require("line", k[3:] == ["cpp", "parse"] and valid(p, es[3][1][0].term() == l.term()) and valid(p, es[4][1][0].term() == es[3][2].term()) and
                  valid(p, p.val.term() == es[4][2].term()), "not the preprocessed line's statement")
        p.require("no-include", "CPP_INCLUDE" not in p.names(s), "an #include is preprocessed")
    return G


statement.group = "repl_parse_line"


def last_line(S):
    """what the preprocessor's output ends with: its last line, whole"""
    G0 = None
    # candidates for the loops' invariants: the file's position moves with, or against, a variable; it's in front of the last character
    dropped = set()
    for attempt in range(8):
        G, failed = last_line_(S, dropped)
        if not failed:
            break
        dropped |= failed
    return G


def last_line_(S, dropped):
    G = Group(S, "run_cpp_on_line")
    E = G.E
    from specs_main import c_exit
    C = z3.Function("content", z3.BitVecSort(64), z3.BitVecSort(8))
    L, failed = z3.BitVec("length", 64), set()
    pos = lambda st: st.ghost["pos"]
    sx = lambda v: tobv(v, 64)

    def c_seek(E, st, a):
        whence = z3.simplify(tobv(a[2], 32))
        if not z3.is_bv_value(whence):
            raise Unsupported("fseek from a place that isn't known")
        to = {0: z3.BitVecVal(0, 64), 1: pos(st), 2: L}[whence.as_long()] + sx(a[1])
        bad = st.clone()
        bad.pc.append(to < 0)
        st.pc.append(to >= 0)
        st.ghost["pos"] = to
        return [(st, z3.BitVecVal(0, 32)), (bad, z3.BitVecVal(-1, 32))]

    def c_getc(E, st, a):
        end = st.clone()
        end.pc.append(pos(st) >= L)
        st.pc.append(pos(st) < L)
        st.events.append(("getc", pos(st)))
        v = z3.ZeroExt(24, C(pos(st)))
        st.ghost["pos"] = pos(st) + 1
        return [(st, v), (end, z3.BitVecVal(-1, 32))]
    E.contracts["fseek"] = E.contracts["fseeko"] = c_seek
    E.contracts["fgetc"] = E.contracts["getc"] = c_getc
    E.contracts["ftell"] = E.contracts["ftello"] = lambda E, st, a: pos(st)
    E.contracts["exit"] = c_exit
    E.contracts["perror"] = noted("diagnosed")
    E.contracts["fclose"] = E.contracts["pclose"] = noted("closed")
    E.contracts["run_cpp"] = noted("cpp", lambda E, st, a: Ptr(z3.BitVec("output", 64)))

    def on_loop(E, st, key, entry, phis):
        e0, pc0 = st.ghost["pos"], list(st.pc)
        now = E.fresh("pos")
        st.ghost["pos"] = now
        st.ghost[("entry", key)] = e0
        st.ghost[("at", key)] = now
        st.pc.append(z3.And(now >= 0, now <= L))
        for c in candidates(key, e0, entry, phis):
            if E.S.valid(pc0, c[1](e0, entry))[0]:
                st.pc.append(c[1](now, phis))
            else:
                failed.add((str(c[0][0]), str(c[0][1]), c[0][2]))
    E.on_loop = on_loop

    def candidates(key, e0, entry, phis):
        out = []
        for r, v in phis.items():
            if z3.is_bv(v) and v.size() in (32, 64):
                k = v.size()
                at = lambda x, k=k: tobv(x, 64) if k == 64 else z3.SignExt(64 - k, tobv(x, k))
                s0 = at(entry[r])
                out.append(((key, r, "+"), lambda n, ph, r=r, s0=s0, at=at: n - e0 == at(ph[r]) - s0))
                out.append(((key, r, "-"), lambda n, ph, r=r, s0=s0, at=at: e0 - n == at(ph[r]) - s0))
        out.append(((key, "", "end"), lambda n, ph: n <= L - 1))
        out.append(((key, "", "2"), lambda n, ph: n >= 2))
        out.append(((key, "", "from"), lambda n, ph: n >= e0))
        return [c for c in out if (str(c[0][0]), str(c[0][1]), c[0][2]) not in dropped]

    st = G.state()
    st.ghost["pos"] = E.fresh("pos")
    # the output is a line at least, and ends with one
    st.pc += [L >= 2, L < 1 << 40, C(L - 1) == 10, st.ghost["pos"] >= 0, st.ghost["pos"] <= L]
    l = Ptr(z3.BitVec("line", 64))
    outs = G.run(st, "run_cpp_on_line", [l])
    # which of the candidates hold?
    for o in outs:
        p = Path(G, o)
        if o.kind == "back":
            lp, b = order(p, "loop")[-1], order(p, "back")[-1]
            for c in candidates(lp[1], o.st.ghost[("entry", lp[1])], lp[2], lp[3]):
                if not valid(p, c[1](o.st.ghost["pos"], b[2])):
                    failed.add((str(c[0][0]), str(c[0][1]), c[0][2]))
    if failed:
        return G, failed
    kinds = set()
    for p in G.paths(outs, "total", ok=("ret", "back")):
        st = p.st
        cpp, lp, ps = order(p, "cpp"), order(p, "loop"), order(p, "pstore")
        p.require("preprocessed", len(cpp) == 1 and valid(p, cpp[0][1][2].term() == l.term()), "not the line is preprocessed, once")
        p.require("frame", not order(p, "store", "append", "retag", "unlink", "gstore"), "something else is changed")
        new = order(p, "malloc")
        k = [j for j, e in enumerate(st.events) if e[0] == "loop"] + [len(st.events)]
        reads = [[e[1] for e in st.events[k[j]:k[j + 1]] if e[0] == "getc"] for j in range(len(k) - 1)]
        at = lambda j: st.ghost[("at", lp[j][1])]
        from_ = lambda j: st.ghost[("entry", lp[j][1])]
        # the line's beginning: all characters from the position on, but the last, are none that end a line
        ok = 1 <= len(lp) <= 2 and len(reads[0]) == 1 and valid(p, from_(0) == L) and valid(p, reads[0][0] == at(0) - 2)
        p.require("search", ok, "characters are passed over")
        if not ok:
            continue
        q = reads[0][0]
        if len(lp) == 1:
            kinds.add("search")
            p.require("begins", p.out.kind == "back" and not new and valid(p, z3.And(C(q) != 10, q != 0, st.ghost["pos"] == q + 1)), "a line's end is passed over")
            continue
        p.require("found", z3.Or(C(q) == 10, q == 0), "not the line's beginning")
        ok = len(new) == 1 and valid(p, from_(1) == q)
        p.require("copied", ok, "not from the line's beginning")
        if not ok:
            continue
        r, n = new[0][1], at(1) - q
        if p.out.kind == "back":
            kinds.add("copy")
            p.require("each", len(reads[1]) == 1 and valid(p, z3.And(reads[1][0] == at(1), st.ghost["pos"] == at(1) + 1)) and len(ps) == 1 and
                      valid(p, z3.And(ps[0][1] == r + n, tobv(ps[0][3], 8) == C(at(1)))) and ps[0][2] == 1, "not each character in its place")
            continue
        kinds.add("copied")
        p.require("whole", valid(p, z3.Or(at(1) == L - 1, at(1) == L)) and not reads[1], "not up to the line's end")
        zero = any(valid(p, e[1] == r) for e in order(p, "zeroed"))
        ended = zero and not ps or len(ps) == 1 and valid(p, z3.And(ps[0][1] == r + n, tobv(ps[0][3], 8) == 0))
        p.require("string", z3.And(p.val.term() == r, z3.UGE(tobv(new[0][2], 64), n + 1), z3.BoolVal(ended)), "not that string is the result")
    G.paths_ok("covered", [], kinds == {"search", "copy", "copied"}, "not all are there: %s" % kinds)
    return G, set()


last_line.group = "run_cpp_on_line"


def one_statement(S):
    """a line that can't be parsed is no statement, and one that has more than one ends the interpreter"""
    G = Group(S, "repl_do_parse")
    E = G.E
    from specs_main import c_exit
    E.contracts["exit"] = c_exit
    E.contracts["repl_scan_string"] = noted("scan", lambda E, st, a: Ptr(E.fresh("buffer")))
    E.contracts["repl_delete_buffer"] = noted("delete")
    head = {}
    def parse(E, st, a):
        h = G.node(st, "parsed", "CHAIN_HEAD")
        st.glob[("repl_parse_head", 0)] = h
        r = E.fresh("parse", z3.BitVecSort(32))
        st.events.append(("parse", h, r))
        return r
    E.contracts["replparse"] = parse
    E.contracts["inhibit_gc"] = noted("inhibit")
    E.contracts["enable_gc"] = noted("enable")
    E.contracts["fprintf"] = noted("diagnosed")
    E.on_elem = lambda E, st, hd, el: st.kind.__setitem__(el.base.get_id(), ("sym", 0, el.base))
    st = G.state()
    l = Ptr(z3.BitVec("line", 64))
    for p in G.paths(G.run(st, "repl_do_parse", [l]), ok=("ret", "back", "exit")):
        G.frame(p, globals_=("repl_parse_head",))
        es = order(p, "scan", "inhibit", "parse", "enable", "delete")
        k = [e[0] for e in es]
        if not p.require("parsed", k.count("scan") == 1 and k.count("parse") == 1 and k.index("scan") < k.index("parse") and
                         valid(p, es[k.index("scan")][1][0].term() == l.term()) and not order(p, "eval"), "not the line is parsed"):
            continue
        # (no collection while the parser holds what it has made)
        p.require("held", "inhibit" in k and "enable" in k and k.index("inhibit") < k.index("parse") < k.index("enable") and k.count("enable") == k.count("inhibit") == 1,
                  "the parser's trees aren't kept")
        h, r = es[k.index("parse")][1:]
        lp = order(p, "loop")
        if not lp:
            p.require("error", z3.And(r != 0, p.val.term() == 0) if p.out.kind == "ret" else z3.BoolVal(False), "a line that was parsed is no statement")
            continue
        p.require("no-error", r == 0, "an error is taken for a statement")
        ring = lp[0][6]
        if not p.require("statements", len(lp) == 1 and ring and ring[1].eq(h.base), "not the statements are gone through"):
            continue
        st_ = [(n, v) for n, v in lp[0][3].items() if isinstance(v, Ptr) and n != ring[2]]
        if not p.require("found", len(st_) == 1 and valid(p, tobv(lp[0][2][st_[0][0]].term() if isinstance(lp[0][2][st_[0][0]], Ptr) else lp[0][2][st_[0][0]], 64) == 0), "not one statement is looked for"):
            continue
        found = st_[0][1]
        if p.out.kind == "ret":
            p.require("result", p.val.term() == found.term(), "not the statement")
        elif p.out.kind == "back":
            p.require("one", z3.And(found.term() == 0, order(p, "back")[-1][2][st_[0][0]].term() == ring[3]), "not the only statement")
        else:
            p.require("several", z3.And(found.term() != 0, z3.BoolVal(len(order(p, "diagnosed")) == 1), tobv(order(p, "exit")[-1][1], 32) & 255 != 0), "statements are refused")
    return G


one_statement.group = "repl_do_parse"
PROMPT = [prompt, statement, one_statement]


def looked_up(S):
    """?name is about the object that the name denotes"""
    G = Group(S, "T_INSPECT")
    E = G.E
    from specs_scope import enum_value, is_const
    scope = enum_value(S, "SCOPE_GLOBAL")
    E.contracts["inspect"] = noted("inspect")
    E.contracts["__resolve_identifier"] = noted("resolve", lambda E, st, a: Ptr(E.fresh("object")))
    st = G.state()
    t = G.node(st, "t", "T_INSPECT")
    i = G.operand(st, t, "tINSPECT_EXP", "T_IDENTIFIER")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()])):
        es = order(p, "resolve", "inspect")
        p.require("object", [e[0] for e in es] == ["resolve", "inspect"] and is_const(p, es[0][1][1], scope) and valid(p, es[0][1][0].term() == i.term()) and
                  valid(p, es[1][1][0].term() == i.term()) and valid(p, es[1][1][1].term() == es[0][2].term()), "not what the name denotes")
        G.frame(p)
    return G


looked_up.group = "T_INSPECT"
INSPECT.append(looked_up)
PROMPT.append(last_line)


def startup(S):
    """~/.bic is executed, if it is there"""
    G = Group(S, "evaluate_startup_file")
    E = G.E
    import specs_complete, specs_cpp
    specs_complete.strings(E)
    concat = E.contracts["concat_strings"]
    specs_cpp.strings(E)
    E.contracts["concat_strings"] = concat
    i32 = z3.BitVecSort(32)
    pw = Ptr(z3.BitVec("passwd", 64))
    home, dir_ = Ptr(z3.BitVec("HOME", 64)), Ptr(z3.BitVec("pw_dir", 64))
    def c_getenv(E, st, a):
        st.events.append(("getenv", specs_cpp.text(E, a[0])))
        return home
    E.contracts["getenv"] = E.contracts["secure_getenv"] = c_getenv
    E.contracts["getuid"] = lambda E, st, a: z3.BitVec("uid", 32)
    E.contracts["getpwuid"] = noted("getpwuid", lambda E, st, a: pw)
    E.contracts["access"] = noted("access", lambda E, st, a: E.fresh("inaccessible", i32))
    E.contracts["evaluate_cscript"] = noted("script", lambda E, st, a: E.fresh("status", i32))
    st = G.state()
    # (the account has an entry; struct passwd's pw_dir is at 32)
    st.pc += [pw.base != 0, E.mem_load(st.mem, pw.base + 32, 8) == dir_.base]
    kinds = set()
    for p in G.paths(G.run(st, "evaluate_startup_file", []), "total"):
        p.require("frame", not order(p, "append", "retag", "unlink", "gstore"), "something else is changed")
        p.require("variable", all(e[1] == "HOME" for e in order(p, "getenv")), "not the home directory")
        x, ac = order(p, "script"), order(p, "access")
        def name(v):
            for e in order(p, "asprintf"):
                if valid(p, e[2].term() == v.term()):
                    w = specs_cpp.text(E, e[1][1])
                    parts = re.split("(%s)", w)
                    args, out = list(e[1][2:]), []
                    for y in parts:
                        out += pieces(args.pop(0)) if y == "%s" else [y]
                    return out
            return pieces(v)
        def pieces(v):
            t = specs_cpp.text(E, v)
            if t is not None:
                return [t]
            if valid(p, v.term() == z3.If(home.term() != 0, home.term(), dir_.term())):
                return [0]
            for e in order(p, "concat"):
                if same(e[1], v):
                    return pieces(e[2]) + pieces(e[3])
            return ["?"]
        def file(v):
            n = [y for y in name(v) if y != ""]
            return n[:1] == [0] and "".join(map(str, n[1:])) == "/.bic"
        if x:
            kinds.add("executed")
            a = x[0][1]
            p.require("once", len(x) == 1 and file(a[0]) and valid(p, tobv(a[1], 8) == 0), "not ~/.bic is executed, once")
            continue
        # it isn't executed: there's none, or no home
        none = z3.And(home.term() == 0, dir_.term() == 0)
        inac = [e[-1] != 0 for e in ac if file(e[1][0])]
        nomem = [e[2].term() == 0 for e in order(p, "asprintf")] + [tobv(e[3], 32) < 0 for e in order(p, "asprintf")]
        p.require("executed", z3.Or(none, *(inac + nomem)), "~/.bic isn't executed")
    G.paths_ok("covered", [], "executed" in kinds, "~/.bic is never executed")
    return G


startup.group = "evaluate_startup_file"
PROMPT.append(startup)
