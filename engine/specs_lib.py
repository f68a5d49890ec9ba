"""C14: the libraries of the command line; C23, C14: strings that are put together."""
import z3
from sym import *
from spec import *
import contracts
from specs_scope import order, valid
from specs_cpp import text
from specs_complete import strings, noted, uf, BV64

RTLD_NOW, RTLD_GLOBAL, RTLD_NOLOAD = 2, 0x100, 4


# ---- concat_strings ---------------------------------------------------------------------------
def concat(S):
    """a new string: the first's characters, then the second's"""
    G = Group(S, "concat_strings")
    E = G.E
    strings(E)
    E.contracts.pop("concat_strings", None)

    def put(what, res=lambda E, st, a: a[0]):
        def h(E, st, a):
            st.events.append(("put", what, tuple(a)))
            return res(E, st, a)
        return h
    for f in ("strcpy", "strcat", "stpcpy", "memcpy", "mempcpy", "memmove", "sprintf", "snprintf"):
        r = {"stpcpy": lambda E, st, a: Ptr(a[0].term() + uf("strlen", BV64, BV64)(a[1].term())),
             "mempcpy": lambda E, st, a: Ptr(a[0].term() + tobv(a[2], 64))}.get(f, lambda E, st, a: a[0])
        E.contracts[f] = put(f, r)
    E.contracts["llvm.memcpy.p0.p0.i64"] = put("memcpy")
    st = G.state()
    a, b = Ptr(z3.BitVec("s1", 64)), Ptr(z3.BitVec("s2", 64))
    ln = lambda s: uf("strlen", BV64, BV64)(s.term())
    st.pc += [z3.ULT(ln(a), 1 << 40), z3.ULT(ln(b), 1 << 40), a.term() != 0, b.term() != 0]
    for p in G.paths(G.run(st, "concat_strings", [a, b])):
        ms = order(p, "malloc", "zeroed")
        if not p.require("new", any(valid(p, p.val.term() == m[1]) for m in ms), "the result isn't new"):
            continue
        r = p.val.term()
        size = [tobv(m[2], 64) for m in ms if m[0] == "malloc" and valid(p, r == m[1])]
        p.require("room", bool(size) and valid(p, z3.UGE(size[0], ln(a) + ln(b) + 1)), "no room for both")
        zero = any(m[0] == "zeroed" and valid(p, r == m[1]) for m in ms)
        # what is placed where: (offset, string, number of characters, a 0 follows)
        placed = []
        end = z3.BitVecVal(0, 64) if zero else None
        ok = True
        for e in p.st.events:
            if e[0] == "pstore":
                addr, size, val = e[1], e[2], e[3]
                if end is not None and valid(p, addr == r + end):
                    continue
                z = size == 1 and valid(p, tobv(val, 8) == 0)
                if z and valid(p, addr == r):
                    placed, end = [], z3.BitVecVal(0, 64)
                elif z and placed and valid(p, addr == r + placed[-1][0] + placed[-1][2]):
                    end = placed[-1][0] + placed[-1][2]
                else:
                    ok = False
            elif e[0] == "put":
                f, x = e[1], e[2]
                if f in ("strcpy", "stpcpy"):
                    placed.append((x[0].term() - r, x[1], ln(x[1])))
                    end = x[0].term() - r + ln(x[1])
                elif f == "strcat":
                    if end is None or not valid(p, x[0].term() == r):
                        ok = False
                        break
                    placed.append((end, x[1], ln(x[1])))
                    end = end + ln(x[1])
                elif f in ("memcpy", "mempcpy", "memmove"):
                    n = tobv(x[2], 64)
                    o = x[0].term() - r
                    if valid(p, n == ln(x[1]) + 1):
                        placed.append((o, x[1], ln(x[1])))
                        end = o + ln(x[1])
                    else:
                        placed.append((o, x[1], n))
                        if end is not None and not zero:
                            end = None
                        elif zero:
                            end = o + n
                elif f in ("sprintf", "snprintf"):
                    fmt = x[1] if f == "sprintf" else x[2]
                    rest = x[2:] if f == "sprintf" else x[3:]
                    if text(E, fmt) != "%s%s" or not valid(p, x[0].term() == r) or f == "snprintf" and not valid(p, z3.UGE(tobv(x[1], 64), ln(a) + ln(b) + 1)):
                        ok = False
                        break
                    placed = [(z3.BitVecVal(0, 64), rest[0], ln(rest[0])), (ln(rest[0]), rest[1], ln(rest[1]))]
                    end = ln(rest[0]) + ln(rest[1])
        def has(o, s):
            return any(valid(p, z3.And(x[0] == o, x[1].term() == s.term(), x[2] == ln(s))) for x in placed)
        p.require("both", ok and len(placed) == 2 and has(z3.BitVecVal(0, 64), a) and has(ln(a), b), "not the first's characters, then the second's")
        p.require("ended", ok and end is not None and valid(p, end == ln(a) + ln(b)), "the string doesn't end behind the second's characters")
        own = [e for e in p.st.events if e[0] in ("store", "append", "retag", "unlink", "gstore", "free")]
        p.require("frame", not own, "something else is changed")
    return G


concat.group = "concat_strings"


# ---- open_library -------------------------------------------------------------------------------
def library(S):
    """a library is found by its file name or by its short one, and its functions are there for all"""
    G = Group(S, "open_library")
    E = G.E
    strings(E)
    def dl(E, st, a):
        h = Ptr(E.fresh("handle"))
        st.events.append(("dlopen", tuple(a), h))
        return h
    E.contracts["dlopen"] = dl
    def cmp(E, st, a):
        r = contracts.c_strcmp(E, st, a)
        st.events.append(("strcmp", a[0], a[1], r))
        return r
    E.contracts["strcmp"] = cmp
    st = G.state()
    n = Ptr(z3.BitVec("libname", 64))
    kinds = set()
    for p in G.paths(G.run(st, "open_library", [n])):
        ds = order(p, "dlopen")
        cc = order(p, "concat")
        if not p.require("opens", 1 <= len(ds) <= 3, "nothing is opened"):
            continue
        p.require("at-once", all(valid(p, z3.And(tobv(d[1][1], 32) & RTLD_NOW != 0, tobv(d[1][1], 32) & RTLD_NOLOAD == 0)) for d in ds), "not opened at once")
        p.require("for-all", all(valid(p, tobv(d[1][1], 32) & RTLD_GLOBAL != 0) for d in ds), "the library's functions aren't visible to the program")
        first = ds[0][1][0]
        m = text(E, first)
        # is the name `m'?
        asked = [e[3] == 0 for e in order(p, "strcmp") if {text(E, e[1]), text(E, e[2])} == {"m", None} and any(valid(p, x.term() == n.term()) for x in e[1:3])]
        if m is None:
            kinds.add("name")
            p.require("as-written", valid(p, first.term() == n.term()), "not the file that was named is tried first")
            p.require("not-m", z3.Not(asked[0]) if asked else True, "not the library that m stands for is opened")
        else:
            kinds.add("m")
            p.require("libm", z3.And(z3.BoolVal(m.startswith("libm.so")), *asked[:1]) if asked else False, "another library is opened for m, or for another")
        def full(q):
            """lib + NAME + .so, put together in any order"""
            for c in cc:
                if valid(p, q.term() == c[1].term() if isinstance(c[1], Ptr) else q.term() == c[1]):
                    return full_of(c[2]) + full_of(c[3])
            return []
        def full_of(s):
            t = text(E, s)
            if t is not None:
                return [t]
            for c in cc:
                t = c[1].term() if isinstance(c[1], Ptr) else c[1]
                if valid(p, s.term() == t):
                    return full_of(c[2]) + full_of(c[3])
            return ["NAME"] if valid(p, s.term() == first.term()) else ["?"]
        opened = z3.Or([d[2].term() != 0 for d in ds])
        p.require("result", (tobv(p.val, 32) != 0) == opened, "not whether it was opened")
        if not valid(p, ds[0][2].term() != 0):
            kinds.add("short")
            p.require("short", len(ds) >= 2 and "".join(full(ds[-1][1][0])) in ("libNAME.so", "lib%s.so" % (m or "NAME")), "lib*.so isn't tried")
        fr = order(p, "free")
        mine = [c[1].term() if isinstance(c[1], Ptr) else c[1] for c in cc]
        last = max([i for i, e in enumerate(p.st.events) if e[0] == "dlopen"])
        p.require("freed", all(any(valid(p, (e[1].term() if isinstance(e[1], Ptr) else e[1]) == x) for x in mine) for e in fr) and
                  all(i > last for i, e in enumerate(p.st.events) if e[0] == "free" and any(valid(p, (e[1].term() if isinstance(e[1], Ptr) else e[1]) == d[1][0].term()) for d in ds)), "a string that is still in use is freed")
        own = [e for e in p.st.events if e[0] in ("store", "append", "retag", "unlink", "gstore")]
        p.require("frame", not own, "something else is changed")
    G.paths_ok("covered", [], {"name", "short"} <= kinds, "not all are there: %s" % kinds)
    return G


library.group = "open_library"

CONCAT = [concat]
LIBRARY = [library, concat]
