"""C27: sources are preprocessed with the include directories of the command line."""
import re, z3
from sym import *
from spec import *
import contracts
from ir import Unsupported
from specs_scope import order, valid
from specs_call import literal
from specs_decl import before, sym_tree
from specs_main import noted, c_exit, is_a, elements, st_global, NEXT
import specs_flow

I32 = z3.BitVecSort(32)


def text(E, p):
    """the characters of a string literal of the program"""
    n = E.glob_name(p.base) if isinstance(p, Ptr) and p.off == 0 else None
    c = E.cstring(n) if n is not None else None
    if c is None:
        return None
    c = c[2:-1] if c.startswith('c"') else c
    c = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), c)
    return c.rstrip("\0")


def same_string(p, a, b):
    return contracts.str_of(p.E, p.st, a) == contracts.str_of(p.E, p.st, b)


# ---- the list of directories ----------------------------------------------------------------------
def add_dir(S):
    """directories are appended to those that are there"""
    G = Group(S, "preprocessor_add_include_dir")
    E = G.E
    for kind in ("first", "later"):
        st = G.state()
        h = NULL
        if kind == "later":
            h = G.node(st, "dirs", "CHAIN_HEAD")
        st.glob[("include_dirs", 0)] = h
        d = Ptr(z3.BitVec("dir", 64))
        for p in G.paths(G.run(st, "preprocessor_add_include_dir", [d])):
            now = p.st.glob[("include_dirs", 0)]
            if kind == "first" and not p.require("made", p.fresh(now) and is_a(p, now, "CHAIN_HEAD"), "no list of directories"):
                continue
            G.frame(p, globals_=("include_dirs",), appends=lambda p, new, hd: hd.eq(now.base))
            ap = [e for e in order(p, "append") if e[2].eq(now.base)]
            ok = len(ap) == 1 and ap[0][3] == "tail" and is_a(p, Ptr(ap[0][1]), "T_STRING") and (kind == "first" or now.base.eq(h.base))
            p.require("appended", same_string(p, p.get(Ptr(ap[0][1]), "tSTRING_VAL"), d) if ok else False, "not the directory is appended")
    return G


add_dir.group = "preprocessor_add_include_dir"


def strings(E):
    """contracts of the string functions that commands are composed with"""
    def c_strlen(E, st, a):
        c = text(E, a[0])
        if c is not None and "\0" not in c:
            return z3.BitVecVal(len(c), 64)
        r = E.fresh("strlen")
        st.events.append(("strlen", a[0], r))
        return r
    E.contracts["strlen"] = c_strlen
    E.contracts["strcat"] = noted("strcat", lambda E, st, a: a[0])
    def c_asprintf(E, st, a):
        r = E.fresh("n", I32)
        b = contracts.new_block(E, st, E.fresh("len"), "asprintf")
        E.store(st, a[0], b, "ptr")
        st.events.append(("asprintf", list(a), b, r))
        return r
    E.contracts["asprintf"] = c_asprintf
    E.contracts["fprintf"] = noted("diagnosed")
    E.contracts["perror"] = noted("diagnosed")
    E.contracts["exit"] = c_exit


def dir_opts(S):
    """every directory becomes an -I option, in order, in a string that has room for them"""
    G = Group(S, "preprocessor_include_dir_opts")
    E = G.E
    strings(E)
    rooms, sizes = [], []
    for kind in ("none", "some"):
        st = G.state()
        h = NULL
        if kind == "some":
            h = G.node(st, "dirs", "CHAIN_HEAD")
        st.glob[("include_dirs", 0)] = h
        def on_elem(E, st, hd, el):
            st.kind[el.base.get_id()] = ("sym", 0, el.base)
            G.as_node(st, el, "T_STRING")
        E.on_elem = on_elem
        def on_loop(E, st, key, entry, phis):
            # (the options' total length is far from what a size_t holds)
            # it only grows: obligation `room'
            for k, v in phis.items():
                if z3.is_bv(v) and v.size() == 64:
                    st.pc.append(z3.ULT(v, 2 ** 60))
                    if entry is not None and isinstance(entry.get(k), (int, z3.BitVecRef)):
                        st.pc.append(z3.UGE(v, tobv(entry[k], 64)))
        E.on_loop = on_loop
        for p in G.paths(G.run(st, "preprocessor_include_dir_opts", []), ok=("ret", "back")):
            G.frame(p)
            cat, lp, m = order(p, "strcat"), order(p, "loop"), order(p, "malloc")
            if kind == "none":
                p.require("none", p.out.kind == "ret" and not cat and len(m) == 1 and valid(p, z3.And(tobool(p.ptr_eq(p.val, Ptr(m[0][1]))), z3.UGE(m[0][2], 1))), "not an empty string")
                p.require("empty", first_char(p, m) if len(m) == 1 else False, "the string doesn't start empty")
                continue
            if not p.require("all", 1 <= len(lp) <= 2 and all(e[6] is not None and e[6][1].eq(h.base) for e in lp), "not all directories are gone through"):
                continue
            ring = lp[-1][6]
            if p.out.kind == "ret":
                p.require("result", len(lp) == 2 and ring[0] == "end" and len(m) == 1 and not cat and valid(p, tobool(p.ptr_eq(p.val, Ptr(m[0][1])))), "another string")
                continue
            el = Ptr(ring[3])
            hd = E.ring_of(order(p, "back")[-1][2][ring[2]])
            p.require("next", hd is not None and hd.base.eq(el.base), "directories are skipped")
            name = before(p, el, "tSTRING_VAL")
            if len(lp) == 1:
                # how much room there has to be
                sl = order(p, "strlen")
                ln = [r for r, v in loop_ints(lp[0])]
                ok = len(sl) == 1 and len(ln) == 1 and valid(p, sl[0][1].term() == name.term()) and not m
                if p.require("room", z3.ULT(tobv(lp[0][2][ln[0]], 64), 64) if ok else False, "the directory's option isn't accounted for"):
                    k = z3.simplify(tobv(order(p, "back")[-1][2][ln[0]], 64) - tobv(lp[0][3][ln[0]], 64) - sl[0][2])
                    p.require("room", z3.is_bv_value(k) and k.as_long() < 64, "the directory's length isn't accounted for")
                    rooms.append(k.as_long() if z3.is_bv_value(k) else -1)
                continue
            # its option
            ok = len(m) == 1 and cat and all(valid(p, e[1][0].term() == m[0][1]) for e in cat)
            out = "".join("<dir>" if valid(p, e[1][1].term() == name.term()) else str(text(E, e[1][1])) for e in cat)
            p.require("option", ok and out.split() in (["-I", '"<dir>"'], ['-I"<dir>"']) and out[0] == " ", "not an option for the directory")
            sizes.append(len(out) - len("<dir>"))
            ln = [r for r, v in loop_ints(lp[0])]
            p.require("space", z3.UGE(m[0][2], tobv(lp[0][3][ln[0]], 64) - tobv(lp[0][2][ln[0]], 64) + 1) if ok and len(ln) == 1 else False, "no room for all options")
            p.require("empty", first_char(p, m) if ok else False, "the string doesn't start empty")
    G.paths_ok("size", [], len(rooms) >= 1 and len(sizes) >= 1 and min(rooms) >= max(sizes), "an option is longer than the room for it")
    return G


dir_opts.group = "preprocessor_include_dir_opts"


def first_char(p, m):
    """the new string's first byte has been made zero"""
    ws = [e for e in order(p, "pstore") if valid(p, e[1] == m[0][1])]
    return len(ws) == 1 and ws[0][2] == 1 and valid(p, tobv(ws[0][3], 8) == 0)


# ---- the commands ---------------------------------------------------------------------------------
def command(p, e, **names):
    """the words of a composed command, its parts by name"""
    fmt = text(p.E, e[1][1])
    if fmt is None:
        return None
    out, args = "", list(e[1][2:])
    for x in re.split("(%s)", fmt):
        if x == "%s":
            if not args:
                return None
            v = args.pop(0)
            n = [k for k, w in names.items() if isinstance(v, Ptr) and valid(p, v.term() == w.term())]
            out += "{%s}" % (n[0] if n else "?")
        else:
            out += x
    return out.replace('"', " ").replace("'", " ").split()


def opens(S):
    """a script is preprocessed with the options of the include directories"""
    G = Group(S, "parse_cscript/command")
    E = G.E
    strings(E)
    E.contracts.update({"popen": noted("popen", lambda E, st, a: Ptr(E.fresh("stream"))), "preprocessor_include_dir_opts": noted("opts", lambda E, st, a: contracts.new_block(E, st, E.fresh("len"), "opts")),
                        "pclose": noted("closed", lambda E, st, a: E.fresh("state", I32)), "fclose": noted("closed", lambda E, st, a: E.fresh("state", I32)),
                        "cscriptparse": noted("parsed", lambda E, st, a: E.fresh("parsed", I32)), "inhibit_gc": noted("inhibit"), "enable_gc": noted("enable")})
    st = G.state()
    f = Ptr(z3.BitVec("fname", 64))
    for p in G.paths(G.run(st, "parse_cscript", [f])):
        po, a, o, x = order(p, "popen"), order(p, "asprintf"), order(p, "opts"), order(p, "parsed")
        if not p.require("composed", len(a) == len(po) == len(o) == 1 and valid(p, po[0][1][0].term() == a[0][2].term()) and text(E, po[0][1][1]) == "r", "not the composed command's output is read"):
            continue
        w = command(p, a[0], file=f, dirs=o[0][2])
        p.require("command", w is not None and w[0] == "gcc" and "-E" in w and w.count("{dirs}") == 1 and w.count("{file}") == 1 and "{?}" not in w and
                  w.index("{dirs}") < w.index("{file}") and not [y for y in w if y.startswith("-I")], "the command isn't the preprocessor with the include directories and the file: %s" % w)
        acts = order(p, "strdup", "asprintf", "free", "popen", "opts")
        fr = [e for e in order(p, "free") if valid(p, tobool(p.ptr_eq(e[1], o[0][2])))]
        p.require("used-before-free", all(acts.index(e) > acts.index(a[0]) for e in fr), "the options are freed before they are used")
        if x:
            p.require("input", valid(p, tobool(p.ptr_eq(st_global(p, "cscriptin"), po[0][2]))), "something else is parsed")
    return G


opens.group = "parse_cscript/command"


def runs(S):
    """the preprocessor gets the #include lines, then the line, and the include directories"""
    G = Group(S, "run_cpp")
    E = G.E
    strings(E)
    def c_mkstemps(E, st, a):
        E.escape(st, a[0])
        r = E.fresh("fd", I32)
        st.events.append(("temp", a[0], r))
        return r
    E.contracts.update({"mkstemps": c_mkstemps, "fdopen": noted("fdopen", lambda E, st, a: Ptr(E.fresh("stream"))), "write": noted("write", lambda E, st, a: E.fresh("written")),
                        "close": noted("close", lambda E, st, a: E.fresh("closed", I32)), "system": noted("system", lambda E, st, a: E.fresh("state", I32)),
                        "preprocessor_include_dir_opts": noted("opts", lambda E, st, a: contracts.new_block(E, st, E.fresh("len"), "opts")),
                        "__errno_location": lambda E, st, a: Ptr(z3.BitVec("errno", 64)), "strerror": lambda E, st, a: Ptr(E.fresh("why"))})
    st = G.state()
    ch, o, l = G.node(st, "chain", "CHAIN_HEAD"), Ptr(z3.BitVec("opts", 64)), Ptr(z3.BitVec("line", 64))
    def on_elem(E, st, hd, el):
        st.kind[el.base.get_id()] = ("sym", 0, el.base)
        G.as_node(st, el, "CPP_INCLUDE")
    E.on_elem = on_elem
    for p in G.paths(G.run(st, "run_cpp", [ch, o, l]), ok=("ret", "back", "exit")):
        t, lp, w, sy = order(p, "temp"), order(p, "loop"), order(p, "write"), order(p, "system")
        a, op, so = order(p, "asprintf"), order(p, "opts"), order(p, "fdopen")
        if p.out.kind == "exit":
            p.require("failure", z3.Extract(7, 0, tobv(p.val, 32)) != 0, "the status of an error is success")
            ok = [z3.And([e[2] != -1 for e in t])] + [e[2].base != ZERO64 for e in so] + [e[3] != -1 for e in a] + [e[2] == 0 for e in sy]
            p.require("refused", z3.Not(z3.And(ok)), "refused though nothing failed")
            continue
        G.frame(p, lvalues=[(e[1].term(), 22) for e in t])
        if not p.require("files", len(t) == 2 and len(so) == 1, "not an input and an output file"):
            continue
        outf = [e for e in t if valid(p, e[2] == so[0][1][0])]
        inf = [e for e in t if e not in outf]
        if not p.require("files", len(outf) == 1 and len(inf) == 1 and valid(p, z3.And(inf[0][2] != -1, outf[0][2] != -1)), "not an input and an output file"):
            continue
        inf, outf = inf[0], outf[0]
        if not p.require("all", len(lp) == 1 and lp[0][6] is not None and lp[0][6][1].eq(ch.base) and all(valid(p, e[1][0] == inf[2]) for e in w), "not all #include lines are written, from the first on"):
            continue
        ring = lp[0][6]
        if p.out.kind == "back":
            el = Ptr(ring[3])
            hd = E.ring_of(order(p, "back")[-1][2][ring[2]])
            p.require("next", hd is not None and hd.base.eq(el.base), "#include lines are skipped")
            s = before(p, el, "tCPP_INCLUDE_STR")
            p.require("include", len(w) == 2 and whole(p, w[0], s) and text(E, w[1][1][1]) == "\n" and valid(p, tobv(w[1][1][2], 64) == 1), "not the #include line is written")
            p.require("not-yet", not sy, "preprocessed before the input is complete")
            continue
        has = [valid(p, l.base != ZERO64), valid(p, l.base == ZERO64)]
        p.require("line", z3.BoolVal(len(w) == 1 and whole(p, w[0], l)) if has[0] else z3.BoolVal(has[1] and not w), "not the line is what follows the #include lines")
        if not p.require("composed", len(a) == len(sy) == len(op) == 1 and valid(p, sy[0][1][0].term() == a[0][2].term()), "not the composed command is executed"):
            continue
        x = command(p, a[0], opts=o, dirs=op[0][2], infile=inf[1], outfile=outf[1])
        p.require("command", x in (["gcc", "{opts}", "{dirs}", "{infile}", ">", "{outfile}"], ["gcc", "{dirs}", "{opts}", "{infile}", ">", "{outfile}"]),
                  "the command isn't the preprocessor with the include directories and the input: %s" % x)
        acts = order(p, "write", "close", "system", "asprintf", "free", "opts")
        p.require("complete", all(acts.index(e) < acts.index(sy[0]) for e in w), "preprocessed before the input is complete")
        fr = [e for e in order(p, "free")]
        p.require("used-before-free", all(acts.index(e) > acts.index(a[0]) if valid(p, tobool(p.ptr_eq(e[1], op[0][2]))) else acts.index(e) > acts.index(sy[0]) for e in fr), "a string is freed before it is used")
        p.require("result", z3.And(tobool(p.ptr_eq(p.val, so[0][2])), sy[0][2] == 0), "not the preprocessor's output, or it failed")
    return G


runs.group = "run_cpp"


def whole(p, w, s):
    """a write of all of a string"""
    ln = [e for e in order(p, "strlen") if valid(p, e[1].term() == s.term())]
    return valid(p, w[1][1].term() == s.term()) and bool(ln) and valid(p, tobv(w[1][2], 64) == ln[-1][2])


def include(S):
    """an #include's line is remembered, all that have been seen are preprocessed together, and what comes out
    is evaluated in a scope of its own that replaces the former one"""
    G = Group(S, "CPP_INCLUDE")
    E = G.E
    E.contracts["run_cpp"] = noted("run", lambda E, st, a: Ptr(E.fresh("stream")))
    def c_parse(E, st, a):
        r = E.fresh("parsed", I32)
        hd = st.glob[("cscript_parse_head", 0)] = sym_tree(E, st, "parse_head")
        st.events.append(("parsed", st.glob.get(("cscriptin", 0)), r, hd))
        return r
    E.contracts.update({"cscriptparse": c_parse, "reset_include_typenames": noted("reset"), "typename_set_include_file": noted("set"), "typename_unset_include_file": noted("unset"),
                        "inhibit_gc": noted("inhibit"), "enable_gc": noted("enable"), "fclose": noted("closed"), "pclose": noted("closed")})
    st = G.state()
    t = G.node(st, "t", "CPP_INCLUDE")
    ch = G.node(st, "chain", "CHAIN_HEAD")
    st.glob[("include_chain", 0)] = ch
    st.glob[("include_ctx", 0)] = G.node(st, "former", "E_CTX")
    for p in G.paths(G.run(st, "__evaluate_1", [t, G.depth()]), ok=("ret", "die")):
        pa, run, ap, stm = order(p, "parsed"), order(p, "run"), [e for e in order(p, "append") if e[2].eq(ch.base)], order(p, "stmts")
        if not p.require("remembered", len(ap) == 1 and ap[0][3] == "tail" and p.fresh(Ptr(ap[0][1])) and is_a(p, Ptr(ap[0][1]), "CPP_INCLUDE") and
                         same_string(p, p.get(Ptr(ap[0][1]), "tCPP_INCLUDE_STR"), before(p, t, "tCPP_INCLUDE_STR")), "not the line is appended to those that have been seen"):
            continue
        G.frame(p, globals_=("include_chain", "include_ctx", "cscriptin"), appends=lambda p, new, hd: hd.eq(ch.base))
        acts = order(p, "append", "run", "reset", "set", "inhibit", "parsed", "enable", "unset", "stmts")
        o = text(E, run[0][1][1]) if len(run) == 1 else None
        p.require("preprocessed", o is not None and o.split()[:1] == ["-E"] and valid(p, z3.And(tobool(p.ptr_eq(run[0][1][0], ch)), tobool(p.ptr_eq(run[0][1][2], NULL)))) and
                  acts.index(run[0]) > acts.index(ap[0]), "not all #include lines are preprocessed")
        if not p.require("parsed", len(pa) == 1 and run and pa[0][1] is not None and valid(p, tobool(p.ptr_eq(pa[0][1], run[0][2]))), "not the preprocessor's output is parsed"):
            continue
        seq = [e[0] for e in acts if e[0] not in ("append", "run")]
        p.require("type-names", [x for x in seq if x in ("reset", "set", "parsed", "unset")] == ["reset", "set", "parsed", "unset"], "type names aren't those of the included files")
        p.require("collector", [x for x in seq if x in ("inhibit", "parsed", "enable")] == ["inhibit", "parsed", "enable"], "objects may be collected while parsing")
        if p.out.kind == "die":
            p.require("diagnosed", z3.And(pa[0][2] != 0, z3.BoolVal(not stm)), "refused though it was parsed")
            continue
        p.require("valid", pa[0][2] == 0, "evaluated though it couldn't be parsed")
        if not p.require("evaluated", len(stm) == 1 and valid(p, tobool(p.ptr_eq(stm[0][1], pa[0][3]))), "not what was parsed is evaluated, once"):
            continue
        now = p.st.glob[("include_ctx", 0)]
        mine = valid(p, tobool(p.ptr_eq(now, stm[0][5]))) and p.fresh(now)
        p.require("scope", z3.And(tobool(p.ptr_eq(p.st.glob[("cur_ctx", 0)], p.st.ghost["ctx0"])), p.get(now, "tECTX_PARENT_CTX").base == ZERO64) if mine else False,
                  "the declarations' scope isn't a new one that becomes that of the included files")
    return G


include.group = "CPP_INCLUDE"


def options(S):
    """the directory of every -I option is added when it is met, up to the script's name"""
    G = Group(S, "parse_args")
    E = G.E
    E.contracts["exit"] = c_exit
    E.contracts["getopt"] = noted("getopt", lambda E, st, a: E.fresh("opt", I32))
    E.contracts.update({"preprocessor_add_include_dir": noted("dir"), "open_library": noted("library", lambda E, st, a: E.fresh("opened", I32)), "fprintf": noted("diagnosed"),
                        "dlerror": lambda E, st, a: Ptr(E.fresh("why")), "print_version": noted("version"), "usage": noted("usage")})
    st = G.state()
    n, av = z3.BitVec("argc", 32), Ptr(z3.BitVec("argv", 64))
    st.glob[("optarg", 0)] = Ptr(z3.BitVec("optarg", 64))
    st.glob[("optind", 0)] = z3.BitVec("optind", 32)
    for p in G.paths(G.run(st, "parse_args", [n, av]), ok=("ret", "back", "exit")):
        g, d, sd = order(p, "getopt"), order(p, "dir"), order(p, "strdup")
        if not p.require("reads", len(g) == 1 and valid(p, z3.And(g[0][1][0] == n, tobool(p.ptr_eq(g[0][1][1], av)))) and set("I:s:l:") <= set(text(E, g[0][1][2]) or ""), "not the command line is read"):
            continue
        f = text(E, g[0][1][2])
        p.require("reads", all(x + ":" in f for x in "Isl"), "options don't have arguments")
        o = g[0][2]
        oa, oi = st_global(p, "optarg"), tobv(st_global(p, "optind"), 32)
        p.require("directory", z3.If(o == ord("I"), z3.BoolVal(len(d) == 1 and valid(p, d[0][1][0].term() == oa.term()) and p.out.kind == "back"), z3.BoolVal(not d)), "not the directory of -I is added")
        last = z3.Or(o == -1, o == ord("s"))
        if p.out.kind == "ret":
            p.require("end", z3.And(last, tobv(p.val, 32) == oi), "options are left out, or not the index of the next argument is the result")
            cf = p.st.glob.get(("cscript_file", 0))
            if not valid(p, o != ord("s")):
                p.require("script", len(sd) == 1 and valid(p, o == ord("s")) and valid(p, tobool(p.ptr_eq(sd[0][2], oa))) and cf is not None and valid(p, tobool(p.ptr_eq(cf, Ptr(sd[0][1])))), "not the script's name is taken")
        elif p.out.kind == "back":
            p.require("end", z3.Not(last), "options after the script's name are taken")
        G.frame(p, globals_=("cscript_file", "flag_print_ast", "dump_type") if p.out.kind != "back" or valid(p, o != ord("I")) else ())
    return G


options.group = "parse_args"

CPP = [add_dir, dir_opts, opens, runs, include, options]
INCLUDE = [include]
