#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: verify a property's contracts on /repo's working tree.

Exit 0: every obligation was discharged, and the battery's programs behave.
Exit 1: "VIOLATION property=.. replay=..".  Exit 2: /repo can't be built.
"""
import shlex, json, os, re, signal, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import multiprocessing as mp
import props, build

S = None


class Late(Exception):
    pass


def late(*a):
    raise Late()


def describe_model(m):
    if m is None:
        return ""
    try:
        return "; ".join("%s = %s" % (d.name(), str(m[d])[:60]) for d in list(m.decls())[:25])
    except Exception:
        return ""


def work(task):
    """one group of obligations"""
    modname, lst, idx, limit = task
    mod = __import__(modname)
    rule = getattr(mod, lst)[idx]
    t0 = time.time()
    res = dict(group=rule.group, module=modname, obls=[], error=None, paths=0, reached=0, queries=0, solver=0.0,
               inlined=[], contracts=[], slowest=0.0, notes=[])
    signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        G = rule(S)
        signal.alarm(0)
        res.update(paths=G.npaths, reached=G.reached)
        st = G.E.S.stats
        res.update(queries=st.queries, solver=st.time, slowest=st.max, notes=G.notes,
                   inlined=sorted(G.E.inlined), contracts=sorted(G.E.used_contracts))
        for n, o in G.obls.items():
            res["obls"].append((n, o.paths, [(a, b[:1500], describe_model(c)) for a, b, c in o.failed[:4]], len(o.failed)))
        if not G.obls or (G.npaths and not G.reached):
            res["error"] = "vacuous: no path reaches the obligations"
    except Late:
        res["error"] = "no answer within %d s" % limit
    except BaseException as e:
        signal.alarm(0)
        res["error"] = "%s: %s" % (type(e).__name__, str(e)[:600])
        res["trace"] = traceback.format_exc()[-1500:]
    res["time"] = time.time() - t0
    return res


# ---- the battery: real runs of the real interpreter ------------------------------
def header(src, key):
    for l in src.splitlines():
        if l.startswith("// %s:" % key):
            return l.split(":", 1)[1].strip()
    return None


def run_program(bic, f, tmp):
    src = open(f, encoding="latin1").read()
    args = shlex.split(header(src, "args") or "")
    flags = shlex.split(header(src, "flags") or "")
    mode = header(src, "mode") or "script"
    inp = None
    cmd = [bic] + flags + ["-s", f] + args
    if mode == "native":
        # a driver that is linked with the repository's own code
        out = os.path.join(tmp, os.path.basename(f)[:-2] + ".native")
        src_dir = os.path.join(tmp, "src")
        cmd = ["gcc", "-w", "-DHAVE_CONFIG_H", "-I.", "-I..", "-O1", "-g", "-o", out, f] + (header(src, "sources") or "").split() + \
            (header(src, "libs") or "").split()
        r = subprocess.run(cmd, cwd=src_dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return None      # the interface that the driver uses is gone
        cmd = [out] + args
    if mode == "repl":
        cmd = [bic] + flags
        inp = open(f, "rb")     # (a file, not a pipe: nothing depends on when it's written)
    # (a wide screen: otherwise what readline shows of long lines depends on when it reads them)
    env = dict(os.environ, HOME=tmp, TERM="dumb", LC_ALL="C", COLUMNS="4000", LINES="50")
    pre = header(src, "env")
    if pre:
        for kv in pre.split():
            k, v = kv.split("=", 1)
            env[k] = v
    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
        os.setsid()
    try:
        p = subprocess.Popen(cmd, cwd=os.path.dirname(f), env=env, stdin=inp if inp is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT if header(src, "stderr") else subprocess.DEVNULL,
                             preexec_fn=limits)
        try:
            out, _ = p.communicate(timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = "timeout"
    except OSError as e:
        return "cannot run: %s\n" % e
    finally:
        if inp is not None:
            inp.close()
    txt = out.decode("latin1")
    hide = header(src, "hide")
    if hide:
        txt = re.sub(hide, "*", txt)
    flt = header(src, "filter")
    if flt:
        txt = "".join(l + "\n" for l in txt.splitlines() if re.search(flt, l))
    if header(src, "status") == "any failure":
        rc = "failure" if isinstance(rc, int) and rc > 0 else ("ok" if rc == 0 else rc)
    return txt + "exit %s\n" % rc


def programs(dirs):
    out = []
    for d in dirs:
        p = os.path.join(HERE, "battery", d)
        if os.path.isdir(p):
            out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".c") and os.path.exists(os.path.join(p, f[:-2] + ".out")))
    return out


def battery(bic, dirs, tmp):
    """[(program, expected, got)] for the programs that misbehave, and known findings"""
    from concurrent.futures import ThreadPoolExecutor
    fs = programs(dirs)
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(lambda f: run_program(bic, f, tmp), fs))
    bad, known = [], []
    for f, g in zip(fs, got):
        e = open(f[:-2] + ".out", encoding="latin1").read()
        if g != e and header(open(f, encoding="latin1").read(), "mode") == "repl":
            g = run_program(bic, f, tmp)     # what readline shows isn't worth an alarm if it isn't the same every time
        if g == e or g is None:
            continue
        k = f[:-2] + ".known"
        if os.path.exists(k) and open(k, encoding="latin1").read() == g:
            known.append(f)
            continue
        bad.append((f, e, g))
    return len(fs), bad, known


def known_findings():
    """program -> description"""
    out = {}
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) program=(\S+) (.*)", l)
            if m:
                out[os.path.join(HERE, m.group(2))] = (m.group(1), m.group(3))
    return out


def first_difference(e, g):
    a, b = e.split("\n"), g.split("\n")
    for i in range(max(len(a), len(b))):
        x = a[i] if i < len(a) else "<nothing>"
        y = b[i] if i < len(b) else "<nothing>"
        if x != y:
            return "line %d: expected %r, got %r" % (i + 1, x, y)
    return ""


def main():
    global S
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = props.PROPS[prop]
    t0 = time.time()
    import session
    try:
        tree = build.Tree()
    except build.BuildError as e:
        print("the working tree can't be built: %s" % e)
        sys.exit(2)
    try:
        rc = check(prop, P, tier, seed, tree, t0, session)
    finally:
        tree.close()
    sys.exit(rc)


def check(prop, P, tier, seed, tree, t0, session):
    global S
    limit = P.get("limit", 420) * (2 if tier == "thorough" else 1)
    try:
        bic = tree.bic()
    except build.BuildError as e:
        print("the working tree can't be built: %s" % e)
        return 2
    tasks, results = [], []
    try:
        S = session.Session(tree, P.get("modules", session.EVAL_MODS))
        S.tier, S.seed = tier, seed
        if any(m in ("specs_scope", "specs_decl", "specs_comp", "specs_call", "specs_print") for m, l in P["groups"]):
            tree.enums("evaluate.c")
        for target in ("cscript", "repl"):      # extracted before the work is shared out
            if any(m in ("specs_parse", "specs_name") for m, l in P["groups"]):
                import specs_parse
                specs_parse.grammar(S, target)
            if any(m == "specs_lex" for m, l in P["groups"]):
                import specs_lex
                specs_lex.extract(S, target)
        seen = []
        for modname, lst in P["groups"]:
            mod = __import__(modname)
            rules = getattr(mod, lst)
            tasks += [(modname, lst, i, limit) for i in range(len(rules)) if not any(rules[i] is r for r in seen)]
            seen += rules
        weights = {}
        f = os.path.join(HERE, "support", "weights.json")
        if os.path.exists(f):
            weights = json.load(open(f))
        def weight(t):
            return -weights.get(getattr(__import__(t[0]), t[1])[t[2]].group, 5)
        tasks.sort(key=weight)
        n = min(8, max(1, len(tasks)))
        with mp.get_context("fork").Pool(n, maxtasksperchild=8) as pool:
            results = list(pool.imap_unordered(work, tasks, 1))
    except Exception as e:
        results.append(dict(group="extraction", module="", obls=[], error="%s: %s" % (type(e).__name__, str(e)[:800]), paths=0, reached=0,
                            queries=0, solver=0.0, inlined=[], contracts=[], slowest=0.0, time=0, notes=[],
                            trace=traceback.format_exc()[-1500:]))
    if "only" in P:
        # the obligations of these functions that this property is about
        for r in results:
            r["obls"] = [o for o in r["obls"] if re.search(P["only"], o[0])]
    results.sort(key=lambda r: r["group"])
    total = sum(len(r["obls"]) for r in results)
    failed = [(n, c, fs) for r in results for n, np, fs, c in r["obls"] if fs or np == 0]
    errors = [(r["group"], r["error"], r.get("trace", "")) for r in results if r["error"]]
    nprog, bad, known = battery(bic, P.get("battery", [prop]), tree.dir)
    listed = known_findings()
    for f in list(known):
        if f not in listed:
            bad.append((f, open(f[:-2] + ".out", encoding="latin1").read(), open(f[:-2] + ".known", encoding="latin1").read()))
    rc = 0
    if failed or errors or bad:
        rc = 1
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, prop + ".txt")
        with open(replay, "w") as f:
            f.write("property %s\n\n" % prop)
            for n, c, fs in failed:
                f.write("FAILED OBLIGATION %s (%d paths)\n" % (n, c))
                for a, b, m in fs:
                    f.write("  path: %s\n  detail: %s\n  model: %s\n" % (a, b, m))
                if not fs:
                    f.write("  it was not generated on any path\n")
            for g, e, tr in errors:
                f.write("UNDISCHARGED GROUP %s: %s\n%s\n" % (g, e, tr))
            for p, e, g in bad:
                f.write("\nFAILING INPUT (the interpreter built from /repo, bic -s %s)\n%s\n" % (p, first_difference(e, g)))
                f.write("--- program\n%s\n--- expected\n%s\n--- got\n%s\n" % (open(p, encoding="latin1").read()[:6000], e[:3000], g[:3000]))
        for n, c, fs in failed[:8]:
            print("obligation %s failed on %d paths: %s" % (n, c, (fs[0][1] if fs else "not generated")[:200]))
        for g, e, tr in errors[:8]:
            print("group %s not discharged: %s" % (g, e[:200]))
        for p, e, g in bad[:5]:
            print("program %s: %s" % (os.path.relpath(p, HERE), first_difference(e, g)[:200]))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if bad else " no-failing-input-found"))
    for f in known:
        if f in listed and listed[f][0] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[f][1]))
    fns, cons = set(), set()
    for r in results:
        fns |= set(r["inlined"])
        cons |= set(r["contracts"])
    ok = total - len(failed)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": total, "discharged": ok,
            "checker_cmd": "python3-vt check.py %s" % prop,
            "trusted_base": TRUSTED + P.get("trusted", []),
            "back_end": "z3 %s (SMT: bit vectors, arrays, uninterpreted functions, linear integers)" % __import__("z3").get_version_string(),
            "groups": {r["group"]: {"obligations": len(r["obls"]), "paths": r["paths"], "seconds": round(r["time"], 1)} for r in results},
            "paths": sum(r["paths"] for r in results),
            "functions_executed": sorted(fns - cons),
            "contracts_used_at_calls": sorted(cons),
            "solver_queries": sum(r["queries"] for r in results),
            "solver_seconds": round(sum(r["solver"] for r in results), 1),
            "bounded_programs_run": nprog, "bounded_programs_misbehaving": len(bad),
        },
        "assumptions": ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(failed) + len(errors) + len(bad),
    }
    if P["level"] != "proof":
        ev["coverage"]["explanation"] = P.get("explanation", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if "--weights" in sys.argv:
        weights.update({r["group"]: round(r["time"], 1) for r in results})
        json.dump(weights, open(os.path.join(HERE, "support", "weights.json"), "w"), indent=0, sort_keys=True)
    print("%s: %d obligations, %d discharged, %d groups, %d programs run, %.0f s" % (prop, total, ok, len(results), nprog, time.time() - t0))
    return rc


TRUSTED = [
    "clang -O0 and opt mem2reg,dce: the LLVM IR means what the C text means",
    "engine/ir.py, engine/sym.py: the obligation generator (symbolic execution of the IR, memory and ring model)",
    "z3",
    "engine/contracts.py: contracts of external functions (GMP, libc, libffi, dlsym) and of the tree allocator",
]
ASSUMPTIONS = [
    "GMP integers are mathematical integers; GMP's functions satisfy their documentation",
    "memory allocation succeeds; allocated blocks are disjoint from each other and from existing objects",
    "tree nodes are well typed objects: a member of type tree refers to a node or is NULL, chains are well formed rings",
    "recursive evaluation is assumed to satisfy the evaluator's contract (partial correctness: termination isn't proved)",
]

if __name__ == "__main__":
    main()
