"""Mechanical extraction: /repo's working tree -> generated C -> LLVM IR.

Everything is done in a scratch directory; /repo is only read.  The generated
sources (tree-access.h, gc-internal.c, spec-resolver.c, the bison parsers ...)
are produced by the repository's own generators, with the same commands as
src/Makefile.am.  config.h is the one configure produces in this sandbox
(/verif/support/config.h).
"""
import os, subprocess, shutil, tempfile, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BICV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SUPPORT = os.path.join(os.path.dirname(HERE), "support")


class BuildError(Exception):
    pass


def _clang():
    for c in ("/usr/bin/clang-18", "/usr/bin/clang"):
        if os.path.exists(c):
            return c
    raise BuildError("no clang")


def _opt():
    for c in ("/usr/bin/opt-18", "/usr/bin/opt", "/usr/lib/llvm-18/bin/opt"):
        if os.path.exists(c):
            return c
    raise BuildError("no opt")


def run(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout,
                       shell=isinstance(cmd, str))
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (cmd, p.stdout.decode("utf8", "replace")[-3000:]))
    return p.stdout.decode("utf8", "replace")


GENERATORS = {
    "gentypes": ["tree.def"], "genctypes": ["ctypes.def"], "gentree": ["tree-base.h"],
    "genaccess": ["tree-access.h"], "gengc": ["gc-internal.c"],
    "gendump": ["tree-dump.c"], "gendot": ["tree-dump-dot.c"],
    "genffitypes": ["ffi-types.c"], "genspecresolver": ["spec-resolver.c"],
}


class Tree:
    """A scratch build of the repository's current working tree."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = tempfile.mkdtemp(prefix="bicv-")
        self.src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(self.repo, "src"), self.src)
        shutil.copy(os.path.join(SUPPORT, "config.h"), os.path.join(self.dir, "config.h"))
        self._generate()
        self._ir = {}
        self._bic = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _generate(self):
        s = self.src
        run(["flex", "--header-file=lang_lexer.h", "-o", "lang_lexer.cpp", "lang_lexer.lpp"], s)
        # the makefile generates header and source in two steps
        def cxx(n):
            run(["g++", "-O0", "-w", "-I.", "-c", n, "-o", n + ".o"], s)
        files = ["lang.cpp", "lang_lexer.cpp"] + [g + ".cpp" for g in GENERATORS]
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cxx, files))
        def gen(g):
            run(["g++", "-o", g, g + ".cpp.o", "lang.cpp.o", "lang_lexer.cpp.o"], s)
            run(["./" + g, "c.lang"], s)
        def m4(t):
            env = {"M4PATH": s}
            for kind, ext in (("lex", "l"), ("parser", "y")):
                out = run("m4 -DTARGET=%s %s.m4" % (t, kind), s, env)
                open(os.path.join(s, t + kind + "." + ext), "w").write(out)
            run(["bison", "--warnings=no-yacc", "-d", "--xml=%sparser.xml" % t, "-o",
                 t + "parser.c", t + "parser.y"], s)
            run(["flex", "-o", t + "lex.c", t + "lex.l"], s)
            run(["flex", "--header-file=%slex.h" % t, "-o", "/dev/null", t + "lex.l"], s)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(gen, GENERATORS)) and None
            list(ex.map(m4, ["repl", "cscript"]))

    def ir(self, cfile):
        """Path of the textual LLVM IR of one C file (clang -O0)."""
        if cfile not in self._ir:
            out = os.path.join(self.dir, cfile.replace(".c", ".ll"))
            run([_clang(), "-w", "-DHAVE_CONFIG_H", "-I.", "-I..", "-O0", "-g0",
                 "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", cfile, "-o", out + ".o0"],
                self.src)
            # locals whose address isn't taken become SSA values
            run([_opt(), "-passes=mem2reg,dce", "-S", out + ".o0", "-o", out], self.src)
            self._ir[cfile] = out
        return self._ir[cfile]

    def enums(self, cfile):
        """The enumerators that a C file's declarations use, from its debug information."""
        import re
        k = (cfile, "enums")
        if k not in self._ir:
            out = os.path.join(self.dir, "%s.%d.g.ll" % (cfile, os.getpid()))
            run([_clang(), "-w", "-DHAVE_CONFIG_H", "-I.", "-I..", "-O0", "-g", "-S", "-emit-llvm", cfile, "-o", out], self.src)
            self._ir[k] = {m.group(1): int(m.group(2)) for m in re.finditer(r'!DIEnumerator\(name: "(\w+)", value: (-?\d+)', open(out).read())}
            os.unlink(out)
        return self._ir[k]

    def bic(self):
        """The real interpreter, built from the working tree (gcc -O2, as in the Makefile)."""
        if self._bic:
            return self._bic
        s = self.src
        cs = ["tree.c", "list.c", "hash_table.c", "evaluate.c", "typename.c", "repllex.c",
              "replparser.c", "repl.c", "pretty-printer.c", "util.c", "gc.c", "preprocess.c",
              "gc-internal.c", "tree-dump.c", "inspect.c", "tree-dump-dot.c", "spec-resolver.c",
              "cscriptparser.c", "cscriptlex.c", "cscript.c", "ffi-types.c", "function-call.c",
              "main.c"]
        def cc(n):
            run(["gcc", "-w", "-DHAVE_CONFIG_H", "-I.", "-I..", "-g", "-O2", "-c", n, "-o", n + ".o"], s)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(cc, cs))
        out = os.path.join(self.dir, "bic")
        objs = [c + ".o" for c in cs]
        run(["gcc", "-o", out] + objs + ["-lgmp", "-lffi", "-lreadline", "-ldl"], s)
        self._bic = out
        return out


if __name__ == "__main__":
    import time
    t0 = time.time()
    t = Tree()
    print("gen", time.time() - t0); t0 = time.time()
    for f in ["evaluate.c", "gc.c", "list.c", "function-call.c", "gc-internal.c", "spec-resolver.c", "cscriptparser.c"]:
        print(t.ir(f), os.path.getsize(t.ir(f)))
    print("ir", time.time() - t0); t0 = time.time()
    print(t.bic(), time.time() - t0)
