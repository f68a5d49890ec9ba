"""A verification session: the extracted modules plus a configured engine."""
import os, time, subprocess
import build, ir, meta, sym, contracts

EVAL_MODS = ["evaluate.c", "tree.c", "list.c", "function-call.c", "typename.c", "spec-resolver.c"]


class Session:
    def __init__(self, tree=None, mods=EVAL_MODS):
        self.tree = tree or build.Tree()
        self.own = tree is None
        self.mods = []
        for f in mods:
            self.mods.append(ir.parse(open(self.tree.ir(f)).read(), f))
        self.layout = ir.Layout(self.mods)
        self.meta = meta.Meta(self.tree.src, self.layout)

    def engine(self):
        E = sym.Engine(self.mods, self.meta, self.layout)
        contracts.install(E)
        return E

    def close(self):
        if self.own:
            self.tree.close()
