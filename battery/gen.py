#!/usr/bin/env python3
"""Writes the battery: small C programs whose output gcc's binary defines.

The battery replays failed obligations on the real interpreter, and it is the
bounded stand-in for what the proofs assume.  This script is run when the
battery is edited (python3 gen.py; needs gcc); the checks only read NAME.c and NAME.out.
"""
import os, subprocess, sys, tempfile, shutil, glob

HERE = os.path.dirname(os.path.abspath(__file__))
TYPES = {"char": (8, 1), "short": (16, 1), "int": (32, 1), "long": (64, 1), "long long": (64, 1),
         "unsigned char": (8, 0), "unsigned short": (16, 0), "unsigned int": (32, 0), "unsigned long": (64, 0),
         "unsigned long long": (64, 0)}
P = "int printf(const char *f, ...);\n"
progs = {}


def ident(t):
    return t.replace(" ", "_")


def lit(v):
    # no constant is beyond a long's range
    if v >= 2 ** 63:
        return "(-%d)" % (2 ** 64 - v)
    if v == -2 ** 63:
        return "(-9223372036854775807 - 1)"
    return str(v) if v >= 0 else "(%d)" % v


def edges(t):
    n, s = TYPES[t]
    if s:
        return [0, 1, -1, 7, -7, 100, -128, 2 ** (n - 1) - 1, -2 ** (n - 1), 2 ** (n - 2) + 3]
    return [0, 1, 2, 7, 13, 100, 2 ** (n - 1) - 1, 2 ** (n - 1), 2 ** n - 1, 2 ** n - 7]


def prog(prop, name, body, decls=""):
    progs[(prop, name)] = P + decls + "int main()\n{\n" + body + "\treturn 0;\n}\n"


def pairs(t):
    e = edges(t)
    return [(e[i], e[(i * 3 + k) % len(e)]) for i in range(len(e)) for k in (1, 4)]


FMT = {"char": "%d", "short": "%d", "int": "%d", "long": "%ld", "long long": "%lld", "unsigned char": "%d",
       "unsigned short": "%d", "unsigned int": "%u", "unsigned long": "%lu", "unsigned long long": "%llu"}


def show(t, v, what):
    # by way of a long: what is printed is the value, whatever printf's conversion
    return '\tw = %s;\n\tprintf("%s %%ld\\n", w);\n' % (v, what.replace("%", "%%"))


def c01():
    for t in TYPES:
        n, s = TYPES[t]
        b = "\t%s a;\n\t%s b;\n\t%s r;\n\tlong w;\n" % (t, t, t)
        for x, y in pairs(t):
            b += "\ta = %s;\n\tb = %s;\n" % (lit(x), lit(y))
            for op in "+-*&|^":
                b += "\tr = a %s b;\n" % op + show(t, "r", op)
            for op in "/%":
                if y != 0 and not (y == -1 and x == -2 ** (n - 1)):
                    b += "\tr = a %s b;\n" % op + show(t, "r", op)
            b += "\tr = ~a;\n" + show(t, "r", "~")
        for x in edges(t):
            b += "\ta = %s;\n" % lit(x)
            for k in (0, 1, 3, n // 2 - 1, n - 2):
                b += "\tb = %d;\n\tr = a >> b;\n" % k + show(t, "r", ">>")
                b += "\tr = a << b;\n" % () + show(t, "r", "<<")
        # operands that are constants
        for x, y in pairs(t)[:8]:
            if 0 <= x < 2 ** 31 and 0 < y < 2 ** 31:
                for op in "+-*/%&|^":
                    b += "\ta = %s;\n\tr = a %s %d;\n" % (lit(x), op, y) + show(t, "r", op + "c")
                    b += "\tb = %s;\n\tr = %d %s b;\n" % (lit(y), x, op) + show(t, "r", "c" + op)
        prog("C01", "arith_" + ident(t), b)


def c02():
    for t in TYPES:
        b = "\t%s a;\n\t%s b;\n\tint r;\n\tlong w;\n" % (t, t)
        e = edges(t)
        for x in e:
            for y in e[::3] + [x]:
                b += "\ta = %s;\n\tb = %s;\n" % (lit(x), lit(y))
                for op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                    b += "\tr = a %s b;\n" % op + show("int", "r", op)
            b += "\tr = !a;\n" + show("int", "r", "!") + "\tr = a ? 3 : 4;\n" + show("int", "r", "?")
        prog("C02", "cmp_" + ident(t), b)


def c03():
    for t in TYPES:
        b = ""
        for u in TYPES:
            b += "\t%s d_%s;\n" % (u, ident(u))
        b += "\t%s s;\n\tlong w;\n" % t
        for x in edges(t) + [2 ** 40 + 5, 300, 70000, -70000]:
            b += "\ts = %s;\n" % lit(x if x < 2 ** 64 else 0) + show(t, "s", "s")
            for u in TYPES:
                b += "\td_%s = s;\n" % ident(u) + show(u, "d_" + ident(u), ident(u))
        prog("C03", "conv_" + ident(t), b)
        b = "\t%s a;\n\tlong w;\n" % t
        for x in edges(t):
            for op in ("+", "-", "^", "<<", ">>", "/"):
                k = 3
                b += "\ta = %s;\n\ta %s= %d;\n" % (lit(x), op, k) + show(t, "a", op + "=")
        prog("C03", "compound_" + ident(t), b)
    for t in ("float", "double", "long double"):
        b = "\t%s f;\n\tdouble w;\n\tlong l;\n\tint i;\n\tchar c;\n" % t
        for x in (0, 1, -1, 100, 1000):
            b += "\tf = %d;\n\tw = f;\n\tprintf(\"%%f\\n\", w);\n" % x
        for x in (1.5, -1.5, 0.25, 99.75):
            b += "\tf = %r;\n\tl = f;\n\ti = f;\n\tc = f;\n\tprintf(\"%%ld %%d\\n\", l, i);\n\tl = c;\n\tprintf(\"%%ld\\n\", l);\n" % x
        prog("C03", "fconv_" + ident(t), b)


def c04():
    for t in TYPES:
        b = "\t%s s;\n\tlong w;\n\tlong v;\n" % t
        for x in edges(t) + [300, 70000]:
            b += "\ts = %s;\n\tv = %s;\n" % (lit(x), lit(x))
            for u in TYPES:
                b += show(u, "(%s)s" % u, "v" + ident(u)) + show(u, "(%s)v" % u, "l" + ident(u))
                if -2 ** 31 < x < 2 ** 31:
                    b += show(u, "(%s)%s" % (u, lit(x)), "c" + ident(u))
        prog("C04", "cast_" + ident(t), b)
    for t in ("float", "double", "long double"):
        b = "\tdouble w;\n\tint i;\n\tlong l;\n\t%s f;\n" % t
        for x in (7, -7, 0):
            b += "\ti = %d;\n\tw = (%s)i;\n\tprintf(\"%%f\\n\", w);\n" % (x, t)
        for x in (2.75, -2.75):
            b += "\tf = %r;\n\tl = (int)f;\n\tprintf(\"%%ld\\n\", l);\n\tl = (char)f;\n\tprintf(\"%%ld\\n\", l);\n" % x
            b += "\tw = (float)f;\n\tprintf(\"%f\\n\", w);\n"
        prog("C04", "fcast_" + ident(t), b)


def c05():
    for t in TYPES:
        b = "\t%s a;\n\t%s r;\n\tlong w;\n" % (t, t)
        for x in edges(t):
            for e in ("a++", "++a", "a--", "--a"):
                b += "\ta = %s;\n\tr = %s;\n" % (lit(x), e) + show(t, "a", "a") + show(t, "r", e)
        b += "\ta = 5;\n\ta++;\n\t++a;\n\ta++;\n\ta--;\n" + show(t, "a", "stmt")
        prog("C05", "incdec_" + ident(t), b)
        b = "\t%s a[8];\n\t%s *p;\n\t%s *q;\n\tint i;\n\tlong w;\n" % (t, t, t)
        b += "\tfor (i = 0; i < 8; i++)\n\t\ta[i] = i * 3 + 1;\n\tp = a;\n"
        for e in ("p++", "++p", "p++", "p--", "--p", "++p"):
            b += "\tq = %s;\n" % e + show(t, "*q", e) + show(t, "*p", "p")
        prog("C05", "ptr_" + ident(t), b)


GEN = [c01, c02, c03, c04, c05]


def expected(src, args, tmp):
    f = os.path.join(tmp, "p.c")
    open(f, "w").write(src)
    subprocess.check_call(["gcc", "-w", "-fwrapv", "-O0", "-o", os.path.join(tmp, "p"), f, "-lm"])
    r = subprocess.run([os.path.join(tmp, "p")] + args, stdout=subprocess.PIPE, timeout=20)
    return r.stdout.decode("latin1") + "exit %d\n" % r.returncode


def header(src, key):
    for l in src.splitlines():
        if l.startswith("// %s:" % key):
            return l.split(":", 1)[1].strip()
    return None


def main():
    for g in GEN:
        g()
    tmp = tempfile.mkdtemp()
    only = sys.argv[1:]
    try:
        for (prop, name), src in progs.items():
            d = os.path.join(HERE, prop)
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "g_" + name + ".c")
            if not os.path.exists(f) or open(f).read() != src:
                open(f, "w").write(src)
                if os.path.exists(f[:-2] + ".out"):
                    os.remove(f[:-2] + ".out")
        for f in sorted(glob.glob(os.path.join(HERE, "C*", "*.c"))):
            out = f[:-2] + ".out"
            src = open(f).read()
            b = os.path.basename(f)
            if b.startswith("g_") and (os.path.basename(os.path.dirname(f)), b[2:-2]) not in progs:
                os.remove(f)
                if os.path.exists(out):
                    os.remove(out)
                continue
            if header(src, "expect") == "manual":
                continue
            if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(f):
                open(out, "w").write(expected(src, (header(src, "args") or "").split(), tmp))
    finally:
        shutil.rmtree(tmp)


main()
