"""What the repository's own generators say about node types and fields.

Everything is read from the generated headers of the current working tree, so
specifications name tags (T_ADD) and accessors (tADD_LHS) and never numbers.
"""
import re, os
from ir import Unsupported


class Meta:
    def __init__(self, srcdir, layout):
        rd = lambda f: open(os.path.join(srcdir, f)).read()
        self.tags = {}
        self.names = []
        for m in re.finditer(r'DEFTYPE\(\s*(\w+)', rd("tree.def")):
            self.tags[m.group(1)] = len(self.names)
            self.names.append(m.group(1))
        self.ctypes = []
        self.ctype = {}
        for m in re.finditer(r'DEFCTYPE\(\s*(\w+)\s*,\s*"([^"]*)"\s*,\s*([^,]+?)\s*,\s*([^,]+?)\s*,\s*(\w+)\s*\)', rd("ctypes.def")):
            self.tags[m.group(1)] = len(self.names)
            self.names.append(m.group(1))
            self.ctypes.append(m.group(1))
            self.ctype[m.group(1)] = m.group(3).strip()
        self.L = layout
        # members of struct tree_data, in order
        body = re.search(r'struct\s+tree_data\s*\{(.*?)\}', rd("tree-base.h"), re.S).group(1)
        members = []
        for line in body.split(";"):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            m = re.match(r'.*?(\w+)\s*(?:\[[^\]]*\])?$', line, re.S)
            members.append((m.group(1), " ".join(line[:m.start(1)].split())))
        fs = layout.fields(('struct', 'struct.tree_data'))
        if len(fs) != len(members):
            raise Unsupported("struct tree_data: %d members, %d fields" % (len(members), len(fs)))
        doff, _ = layout.field_off(('struct', 'struct.tree'), 1)
        self.field = {}       # member name -> (offset in struct tree, ir type, C type)
        self.at = {}          # offset -> member name
        for i, (n, ct) in enumerate(members):
            o, ty = layout.field_off(('struct', 'struct.tree_data'), i)
            self.field[n] = (doff + o, ty, ct)
            self.at[doff + o] = n
        self.off_type = 0
        self.off_locus, _ = layout.field_off(('struct', 'struct.tree'), 2)
        self.off_chain, _ = layout.field_off(('struct', 'struct.tree'), 3)
        self.size = layout.size_align(('struct', 'struct.tree'))[0]
        self.acc = {}         # accessor -> (tag name, member)
        for m in re.finditer(r'#define\s+(t\w+)\(obj\)\s*\(_DATA\(\s*TREE_CHECK\(\(obj\),\s*(\w+)\)\)\.(\w+)\)', rd("tree-access.h")):
            self.acc[m.group(1)] = (m.group(2), m.group(3))
        if not self.acc or not self.tags:
            raise Unsupported("generated headers")

    def off(self, accessor):
        if accessor not in self.acc:
            raise Unsupported("no accessor " + accessor)
        return self.field[self.acc[accessor][1]][0]

    def tag(self, name):
        if name not in self.tags:
            raise Unsupported("no node type " + name)
        return self.tags[name]

    def tagset(self, *names):
        return frozenset(self.tag(n) for n in names)
