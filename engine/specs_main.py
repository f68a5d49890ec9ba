"""C21, C22: a program's beginning and end."""
import itertools, z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_scope import order, valid
from specs_call import literal
from specs_decl import before

NEXT = uf("NEXT", BV64, BV64)


# ---- what calls do, for those that rely on it ------------------------------------------------
def noted(kind, result=None):
    def h(E, st, a):
        for x in a:
            if isinstance(x, Ptr):
                E.escape(st, x)
        r = result(E, st, a) if result else 0
        st.events.append((kind, list(a), r))
        return r
    return h


def c_exit(E, st, a):
    st.events.append(("exit", a[0]))
    return Outcome("exit", st, a[0], st.frame.fn.name)


# ---- trees by their shape ---------------------------------------------------------------------
def elements(p, head):
    """the elements of a list made here, first to last"""
    out = []
    for e in order(p, "append"):
        if valid(p, e[2] == head.base):
            out.insert(0, Ptr(e[1])) if e[3] == "head" else out.append(Ptr(e[1]))
    return out


def chain(p, x):
    return elements(p, x) if p.names(x) == {"CHAIN_HEAD"} else [x]


def is_a(p, x, *tags):
    return isinstance(x, Ptr) and p.names(x) <= set(tags)


def ident(p, x, name):
    return is_a(p, x, "T_IDENTIFIER") and valid(p, contracts.str_of(p.E, p.st, p.get(x, "tID_STR")) == literal(p.E, name))


def integer(p, x, v):
    return is_a(p, x, "T_INTEGER") and valid(p, p.get(x, "tINT_VAL") == v)


def number(v):
    """a nonnegative int's value"""
    return contracts.ui(z3.ZeroExt(64 - v.size(), v))


def declaration(p, x, spec, *decl):
    """a declaration with one specifier and one declarator, of these shapes"""
    if not is_a(p, x, "T_DECL"):
        return None
    sp, ds = chain(p, p.get(x, "tDECL_SPECS")), chain(p, p.get(x, "tDECL_DECLS"))
    return ds[0] if len(sp) == 1 and is_a(p, sp[0], spec) and len(ds) == 1 else None


# ---- the arguments of the program ---------------------------------------------------------------
def arguments(S):
    """argc is the number of arguments, argv[i] the i-th; they are variables of the top level"""
    G = Group(S, "create_arguments")
    E = G.E
    E.contracts["evaluate"] = noted("evaluate")
    st = G.state()
    n, av = z3.BitVec("argc", 32), Ptr(z3.BitVec("argv", 64))
    st.pc += [n >= 0]
    for p in G.paths(G.run(st, "create_arguments", [n, av]), ok=("ret", "back")):
        lp, ev = order(p, "loop"), order(p, "evaluate")
        G.frame(p)
        if not p.require("loop", len(lp) == 1, "not one loop"):
            continue
        key, entry, phis = lp[0][1:4]
        def heads(x):
            return [z3.simplify(e[2]) for e in order(p, "append")]
        if p.out.kind == "ret":
            if not p.require("evaluated", len(ev) == 1 and isinstance(ev[0][1][0], Ptr) and is_a(p, ev[0][1][0], "CHAIN_HEAD"), "not one list of declarations and assignments is evaluated"):
                continue
            head = ev[0][1][0]
        else:
            h = [e[2] for e in order(p, "append")[-1:]]
            if not p.require("evaluated", h and not ev, "evaluated before it is complete"):
                continue
            head = Ptr(h[0])
        el = elements(p, head)
        if not p.require("count", len(el) >= 2, "argc and argv aren't declared first"):
            continue
        a = declaration(p, el[0], "T_INT_TS")
        p.require("argc", a is not None and is_a(p, a, "T_ASSIGN") and ident(p, p.get(a, "tASSIGN_LHS"), "argc") and
                  integer(p, p.get(a, "tASSIGN_RHS"), number(n)), "argc isn't the number of arguments")
        a = declaration(p, el[1], "T_CHAR_TS")
        b = p.get(a, "tPTR_EXP") if a is not None and is_a(p, a, "T_POINTER") else None
        p.require("argv", is_a(p, b, "T_ARRAY") and ident(p, p.get(b, "tARRAY_DECL"), "argv") and integer(p, p.get(b, "tARRAY_SZ"), number(n)),
                  "argv isn't an array of as many pointers to char")
        cnt = [r for r, v in entry.items() if isinstance(v, int) and v == 0 or z3.is_bv(v) and valid(p, v == 0)]
        if not p.require("first", len(cnt) == 1, "the arguments aren't gone through from the first on"):
            continue
        i = tobv(phis[cnt[0]], 32)
        if p.out.kind == "ret":
            p.require("all", z3.Implies(i >= 0, i >= n), "arguments are left out")
            p.require("no-more", len(el) == 2, "something else is assigned")
            continue
        p.require("next", z3.And(tobv(order(p, "back")[-1][2][cnt[0]], 32) == i + 1, i < n), "arguments are skipped")
        ok = len(el) == 3 and is_a(p, el[2], "T_ASSIGN")
        if ok:
            l, r = p.get(el[2], "tASSIGN_LHS"), p.get(el[2], "tASSIGN_RHS")
            p.st.pc.append(i >= 0)
            addr = av.term() + 8 * z3.SignExt(32, i)
            v = E.mem_load(p.st.ghost["mem0"] if not lp[0][5] is not None else lp[0][5], addr, 8)
            ok = is_a(p, l, "T_ARRAY_ACCESS") and ident(p, p.get(l, "tARR_ACCESS_OBJ"), "argv") and integer(p, p.get(l, "tARR_ACCESS_IDX"), number(i))
            p.require("element", ok, "not argv[i] is assigned")
            p.require("string", is_a(p, r, "T_INTEGER") and p.get(r, "tINT_VAL") == contracts.ui(v), "argv[i] isn't the i-th argument")
        else:
            p.require("element", False, "not argv[i] is assigned, once")
    return G


arguments.group = "create_arguments"


def call_main(S):
    """the program's last action is to return what main, called with what it wants of argc and argv, returns"""
    G = Group(S, "add_call_to_main")
    E = G.E
    st = G.state()
    head, n = G.node(st, "head", "CHAIN_HEAD"), z3.BitVec("nargs", 32)
    st.pc += [n >= 0, n <= 2]
    for p in G.paths(G.run(st, "add_call_to_main", [head, n])):
        G.frame(p, appends=lambda p, new, h: h.eq(head.base) and p.E.is_fresh(p.st, new))
        ap = [e for e in order(p, "append") if e[2].eq(head.base)]
        if not p.require("last", len(ap) == 1 and ap[0][3] == "tail" and is_a(p, Ptr(ap[0][1]), "T_RETURN"), "not one return statement is appended"):
            continue
        c = p.get(Ptr(ap[0][1]), "tRET_EXP")
        if not p.require("calls", is_a(p, c, "T_FN_CALL") and ident(p, p.get(c, "tFNCALL_ID"), "main"), "not main is called"):
            continue
        args = p.get(c, "tFNCALL_ARGS")
        none = valid(p, args.base == ZERO64)
        el = [] if none else chain(p, args)
        names = all(ident(p, x, w) for x, w in zip(el, ("argc", "argv")))
        p.require("arguments", z3.And(z3.BoolVal(names and len(el) <= 2), n == len(el)), "main's arguments aren't the ones it declares")
    return G


call_main.group = "add_call_to_main"


# ---- the program ---------------------------------------------------------------------------------
def script(S):
    """A program with a main function is executed by calling it, any other by executing its statements;
    the arguments are there before anything is executed."""
    G = Group(S, "__evaluate_cscript")
    E = G.E
    E.contracts["evaluate"] = noted("evaluate")
    E.contracts["create_arguments"] = noted("arguments")
    E.contracts["add_call_to_main"] = noted("call_main")
    E.contracts["exit"] = c_exit
    st = G.state()
    head = G.node(st, "head", "CHAIN_HEAD")
    name, n, av = Ptr(z3.BitVec("fname", 64)), z3.BitVec("argc", 32), Ptr(z3.BitVec("argv", 64))
    def on_elem(E, st, h, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        G.as_node(st, el)
    E.on_elem = on_elem
    paths = G.paths(G.run(st, "__evaluate_cscript", [head, name, n, av]), ok=("ret", "back", "exit"))
    outer = [p for p in paths if order(p, "loop") and order(p, "loop")[0][6] and order(p, "loop")[0][6][1].eq(head.base)]
    if not G.paths_ok("all", paths, len(outer) == len(paths) and outer, "not all of the program is gone through"):
        return G
    # what the loop finds out: whether there is a main function, how many parameters it
    # has, whether there is anything but declarations
    lp = order(outer[0], "loop")[0]
    vs = sorted(r for r, v in lp[2].items() if r != lp[6][2] and not isinstance(v, Ptr))
    best = None
    for roles in itertools.permutations(vs, 3):
        bad = [(p, script_path(G, p, roles, n, av, head, name)) for p in outer]
        if best is None or len([x for x in bad if x[1]]) < len([x for x in best if x[1]]):
            best = bad
    if best is None:
        best = [(p, "other properties of the program are found out") for p in outer]
    for p, why in best:
        p.require(p.out.kind if p.out.kind != "ret" else "executed", why is None, why or "")
        G.frame(p)
    return G


script.group = "__evaluate_cscript"


def flag(v):
    if z3.is_bool(v):
        return v
    if isinstance(v, int):
        return z3.BoolVal(v != 0)
    return z3.Extract(0, 0, v) == 1 if v.size() == 8 else v != 0    # a bool is its lowest bit


def word(v):
    """an integer of any width"""
    if isinstance(v, int):
        return z3.BitVecVal(v, 32)
    return z3.If(v, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) if z3.is_bool(v) else z3.ZeroExt(32 - v.size(), v) if v.size() < 32 else z3.Extract(31, 0, v)


def script_path(G, p, roles, n, av, head, name):
    E, st = p.E, p.st
    lps = order(p, "loop")
    lp = lps[0]
    ring = lp[6]
    has, other, num = roles
    for r in roles:
        if not valid(p, word(lp[2][r]) == 0):
            return "found before the beginning"
    acts = order(p, "arguments", "call_main", "evaluate", "exit")
    H, O, N = (flag(lp[3][has]), flag(lp[3][other]), word(lp[3][num]))
    if ring[0] == "end":
        if p.out.kind == "exit":
            if len(acts) != 1 or not valid(p, word(acts[0][1]) != 0):
                return "a mix of top-level code and main() isn't refused with a failure status"
            return None if valid(p, z3.And(H, O)) else "a program is refused"
        if p.out.kind != "ret" or not valid(p, z3.Not(z3.And(H, O))):
            return "a mix of top-level code and main() isn't refused"
        want = ["arguments", "evaluate"]
        if len(acts) == 3:
            want.insert(1, "call_main")
        if not valid(p, H if len(acts) == 3 else z3.Not(H)):
            return "main isn't called"
        if [e[0] for e in acts] != want:
            return "not the arguments are there first and then the program is executed, once"
        if not valid(p, z3.And(word(acts[0][1][0]) == n, tobool(p.ptr_eq(acts[0][1][1], av)))):
            return "other arguments"
        e = acts[-1][1]
        if not valid(p, z3.And(tobool(p.ptr_eq(e[0], head)), tobool(p.ptr_eq(e[1], name)))):
            return "something else is executed"
        if len(acts) == 3 and not valid(p, z3.And(tobool(p.ptr_eq(acts[1][1][0], head)), word(acts[1][1][1]) == N)):
            return "main is called with another number of arguments"
        return None
    if acts or p.out.kind != "back":
        return "something happens before all of the program is known"
    el = Ptr(ring[3])
    # is this main?
    d = before(p, el, "tDECL_DECLS")
    decl = tobool(p.is_tag(el, "T_DECL"))
    first = Ptr(NEXT(d.base))
    f = before(p, first, "tFN_DECL")
    main = z3.And(decl, d.base != ZERO64, f.base != ZERO64, TAG(first.base) == E.M.tag("T_FN"), TAG(f.base) == E.M.tag("T_IDENTIFIER"),
                  contracts.str_of(E, st, before(p, f, "tID_STR")) == literal(E, "main"))
    args = before(p, first, "tFN_ARGS")
    bk = order(p, "back")[-1]
    if len(lps) == 2:
        l2 = lps[1]
        if l2[6] is None or not valid(p, z3.And(main, l2[6][1] == args.base)):
            return "not main's parameters are counted"
        c = [r for r, v in loop_ints(l2)]
        if len(c) != 1 or not valid(p, word(l2[2][c[0]]) == 0):
            return "main's parameters aren't counted from zero"
        if l2[6][0] == "elem":
            h = E.ring_of(bk[2][l2[6][2]])
            if h is None or not h.base.eq(l2[6][3]):
                return "parameters are skipped"
            return None if valid(p, word(bk[2][c[0]]) == word(l2[3][c[0]]) + 1) else "a parameter isn't counted once"
        count = word(l2[3][c[0]])
    elif len(lps) == 1:
        if not valid(p, z3.Implies(main, args.base == ZERO64)):
            return "main isn't seen, or its parameters aren't counted"
        count = z3.BitVecVal(0, 32)
    else:
        return "other loops"
    h = E.ring_of(bk[2][ring[2]])
    if h is None or not h.base.eq(el.base):
        return "parts of the program are skipped"
    H2, O2, N2 = flag(bk[2][has]), flag(bk[2][other]), word(bk[2][num])
    if not valid(p, H2 == z3.Or(H, main)):
        return "main isn't seen, or something else is taken for it"
    if not valid(p, O2 == z3.Or(O, z3.Not(decl))):
        return "top-level code isn't seen, or a declaration is taken for it"
    if not valid(p, N2 == z3.If(main, count, N)):
        return "the number of parameters is another"
    return None


# ---- the exit status -------------------------------------------------------------------------------
def return_value(S):
    """the status is main's value: converted to int; without one it is zero"""
    G = Group(S, "get_c_main_return_value")
    E = G.E
    st = G.state()
    for p in G.paths(G.run(st, "get_c_main_return_value", [NULL])):
        p.require("none", tobv(p.val, 32) == 0, "no value isn't success")
        G.frame(p)
    for kind in ("constant", "object"):
        st = G.state()
        t = G.node(st, "t", "T_INTEGER" if kind == "constant" else "T_LIVE_VAR")
        if kind == "object":
            G.lv(st, t, *INT_TYPES, "D_T_PTR")
        for p in G.paths(G.run(st, "get_c_main_return_value", [t])):
            G.frame(p)
            v = int_val(p, t, p.st.ghost["mem0"])
            # (a status that no long holds means nothing)
            small = z3.And(v >= -2 ** 63, v < 2 ** 63)
            p.require(kind, z3.Implies(small, tobv(p.val, 32) == z3.Extract(31, 0, contracts.simp(contracts.get_si(v)))), "another status than the value that is returned")
    # what isn't an integer is refused, or converted
    from specs_expr import converted, FLTS
    for kind in ["T_FLOAT"] + FLTS + ["T_STRING", "T_LIVE_COMPOUND", "T_FN"]:
        st = G.state()
        t = G.node(st, "t", "T_LIVE_VAR" if kind in FLTS else kind)
        if kind in FLTS:
            G.lv(st, t, kind)
        for p in G.paths(G.run(st, "get_c_main_return_value", [t]), "total/" + kind, ok=("ret", "die")):
            if p.out.kind == "die":
                continue
            v = tobv(p.val, 32)
            ok = z3.Extract(7, 0, v) != 0 if z3.is_bv_value(z3.simplify(v)) else z3.BoolVal(False)
            if kind in FLTS or kind == "T_FLOAT":
                ok = z3.Or(ok, v == converted(p, t, p.st.ghost["mem0"], kind, "D_T_INT"))
            p.require("converted/" + kind, ok, "what isn't an integer is reported as success")
    return G


return_value.group = "get_c_main_return_value"


def leave(S):
    """what the top level returns is the status that the process exits with"""
    G = Group(S, "cscript_exit")
    E = G.E
    del E.contracts["cscript_exit"]
    E.contracts["exit"] = c_exit
    E.contracts["get_c_main_return_value"] = noted("value", lambda E, st, a: E.fresh("status", z3.BitVecSort(32)))
    st = G.state()
    r = Ptr(z3.BitVec("result", 64))
    for p in G.paths(G.run(st, "cscript_exit", [r]), ok=("exit",)):
        v = order(p, "value")
        p.require("status", len(v) == 1 and valid(p, z3.And(tobool(p.ptr_eq(v[0][1][0], r)), tobv(p.val, 32) == v[0][2])), "another status")
    return G


leave.group = "cscript_exit"


def die(S):
    """a diagnosed error ends the process with a failure status"""
    G = Group(S, "eval_die")
    E = G.E
    del E.contracts["eval_die"]
    E.contracts["exit"] = c_exit
    for f in ("fprintf", "vfprintf", "ctx_backtrace", "llvm.va_start", "llvm.va_end", "llvm.va_start.p0", "llvm.va_end.p0"):
        E.contracts[f] = lambda E, st, a: 0
    st = G.state()
    t = G.node(st, "t")
    for p in G.paths(G.run(st, "eval_die", [t, Ptr(z3.BitVec("format", 64))]), ok=("exit",)):
        p.require("status", z3.Extract(7, 0, tobv(p.val, 32)) != 0, "the status of an error is success")
    if "cscripterror" in E.fns:
        st = G.state()
        for p in G.paths(G.run(st, "cscripterror", [Ptr(z3.BitVec("str", 64))]), "parser/total", ok=("exit",)):
            p.require("parser", z3.Extract(7, 0, tobv(p.val, 32)) != 0, "the status of a parse error is success")
    return G


die.group = "eval_die"


def parse(S):
    """a source that can't be preprocessed or parsed is reported as such"""
    G = Group(S, "parse_cscript")
    E = G.E
    i32 = z3.BitVecSort(32)
    def c_popen(E, st, a):
        E.escape(st, a[0])
        r = Ptr(E.fresh("stream"))
        st.events.append(("popen", a, r))
        return r
    def c_asprintf(E, st, a):
        b = contracts.new_block(E, st, E.fresh("len"), "asprintf")
        E.store(st, a[0], b, "ptr")
        st.events.append(("asprintf", a))
        return E.fresh("n", i32)
    E.contracts.update({"preprocessor_include_dir_opts": noted("opts", lambda E, st, a: contracts.new_block(E, st, E.fresh("len"), "opts")), "popen": c_popen, "asprintf": c_asprintf, "perror": noted("diagnosed"), "fprintf": noted("diagnosed"),
                        "pclose": noted("closed", lambda E, st, a: E.fresh("state", i32)),
                        "fclose": noted("fclosed", lambda E, st, a: E.fresh("state", i32)),
                        "cscriptparse": noted("parsed", lambda E, st, a: E.fresh("parsed", i32)),
                        "inhibit_gc": noted("inhibit"), "enable_gc": noted("enable")})
    st = G.state()
    for p in G.paths(G.run(st, "parse_cscript", [Ptr(z3.BitVec("fname", 64))])):
        po, c, x = order(p, "popen"), order(p, "closed"), order(p, "parsed")
        bad = tobv(p.val, 32) != 0
        if not po or valid(p, po[0][2].base == ZERO64):
            p.require("unopened", z3.And(bad, z3.BoolVal(not x)), "a source that can't be read is executed")
            continue
        if not p.require("parsed", len(po) == len(x) == 1 and [e[0] for e in order(p, "inhibit", "parsed", "enable")] == ["inhibit", "parsed", "enable"], "not parsed once, without garbage collection"):
            continue
        p.require("invalid", z3.Implies(x[0][2] != 0, bad), "a source that can't be parsed is executed")
        p.require("closed", len(c) == 1 and valid(p, c[0][1][0].term() == po[0][2].term()), "the preprocessor's end isn't waited for")
        p.require("unpreprocessed", z3.Implies(c[-1][2] != 0, bad) if c else False, "a source that can't be preprocessed is executed")
        p.require("executed", z3.Implies(z3.And(x[0][2] == 0, c[-1][2] == 0), z3.Not(bad)) if c else False, "a source isn't executed")
    return G


parse.group = "parse_cscript"


def evaluate(S):
    """a script is executed after it has been parsed; the status is zero if nothing is returned"""
    G = Group(S, "evaluate_cscript")
    E = G.E
    E.contracts["exit"] = c_exit
    E.contracts["parse_cscript"] = noted("parsed", lambda E, st, a: E.fresh("parsed", z3.BitVecSort(32)))
    E.contracts["__evaluate_cscript"] = noted("executed")
    for f in ("tree_dump", "tree_dump_dot"):
        E.contracts[f] = noted("dumped")
    st = G.state()
    name, n, av = Ptr(z3.BitVec("name", 64)), z3.BitVec("argc", 32), Ptr(z3.BitVec("argv", 64))
    dump, how = z3.Bool("dump"), z3.BitVec("how", 32)
    for p in G.paths(G.run(st, "evaluate_cscript", [name, dump, how, n, av]), ok=("ret", "exit")):
        x, pa = order(p, "executed"), order(p, "parsed")
        if not p.require("parsed", len(pa) == 1 and valid(p, pa[0][1][0].term() == name.term()) and order(p, "parsed", "executed")[0] is pa[0], "not the file is parsed first"):
            continue
        if not valid(p, pa[0][2] == 0):
            p.require("invalid", z3.And(pa[0][2] != 0, z3.BoolVal(p.out.kind == "ret" and not x), z3.Extract(7, 0, tobv(p.val, 32)) != 0),
                      "a source that can't be parsed is executed, or the status is success")
        elif p.out.kind == "exit":
            p.require("dumped", z3.And(tobool(dump), z3.BoolVal(not x)), "not executed")
        else:
            ok = len(x) == 1 and valid(p, z3.And(z3.Not(tobool(dump)), x[0][1][1].term() == name.term(), tobv(x[0][1][2], 32) == n, x[0][1][3].term() == av.term(),
                                                 x[0][1][0].term() == st_global(p, "cscript_parse_head").term()))
            p.require("executed", ok, "not what has been parsed is executed, with the arguments")
            p.require("status", tobv(p.val, 32) == 0, "a program that returns nothing isn't successful")
    return G


def st_global(p, name):
    st = p.st
    if (name, 0) in st.glob:
        return st.glob[(name, 0)]
    return p.E.load(st, p.E.glob_ptr(name), "ptr")


evaluate.group = "evaluate_cscript"


def command_line(S):
    """the script's arguments are its own name and what follows it; its status is the process's"""
    G = Group(S, "main")
    E = G.E
    i32 = z3.BitVecSort(32)
    def c_parse_args(E, st, a):
        st.events.append(("args", a))
        st.glob[("cscript_file", 0)] = Ptr(E.fresh("file"))
        o = E.fresh("optind", i32)
        st.events.append(("optind", o))
        st.pc += [o >= 1, z3.Implies(st.glob[("cscript_file", 0)].base != ZERO64, o >= 2), o <= a[0]]
        return o
    E.contracts["parse_args"] = c_parse_args
    for f in ("typename_init", "eval_init"):
        E.contracts[f] = noted("init")
    E.contracts["bic_repl"] = noted("repl")
    E.contracts["evaluate_cscript"] = noted("script", lambda E, st, a: E.fresh("status", i32))
    st = G.state()
    n, av = z3.BitVec("argc", 32), Ptr(z3.BitVec("argv", 64))
    st.pc.append(n >= 1)
    for p in G.paths(G.run(st, "main", [n, av])):
        a, sc, rp = order(p, "args"), order(p, "script"), order(p, "repl")
        o = order(p, "init", "args", "script", "repl")
        if not p.require("arguments", len(a) == 1 and valid(p, z3.And(a[0][1][0] == n, a[0][1][1].term() == av.term())) and len(o) == 4 and o[3][0] in ("script", "repl"), "not the arguments are read once, then the script or the prompt"):
            continue
        f = p.st.glob[("cscript_file", 0)]
        if sc:
            x = sc[0][1]
            opt = order(p, "optind")[0][1]
            p.require("script", z3.And(f.base != ZERO64, x[0].term() == f.term()), "not the script is executed")
            p.require("strings", z3.And(x[4].term() == av.term() + 8 * z3.SignExt(32, opt - 1), tobv(x[3], 32) == n - opt + 1), "argv isn't the rest of the arguments")
            p.require("status", tobv(p.val, 32) == sc[0][2], "another status than the script's")
        else:
            p.require("prompt", f.base == ZERO64, "the script isn't executed")
            p.require("prompt-status", tobv(p.val, 32) == 0, "a failure")
    return G


command_line.group = "main"

STATUS = [return_value, leave, die, parse, evaluate, command_line, script, call_main]
ARGS = [arguments, call_main, script, evaluate, command_line]
