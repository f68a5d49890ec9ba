"""Mechanical extraction of the grammar and of the actions of the generated parsers.

bison's output for TARGETparser.y contains, in the parser's automaton, the text
of every action; the grammar is in bison's XML report.  Each action becomes a
function of its own: $k (yyvsp[..]) is the parameter vk, $$ (yyval) is the
result, which starts as $1 as in the parser's skeleton, and @k (yylsp[..]) is a
variable.  Dropped are the automaton (bison's), the value stack and the
positions of the tokens.
"""
import re, os
import xml.etree.ElementTree as ET
from ir import Unsupported

FIELD = {"tree": "tree", "string": "char *", "integer": "mpz_ptr", "ffloat": "mpf_ptr", "compound_type": "compound_type"}


class Production:
    def __init__(self, lhs, rhs):
        self.lhs, self.rhs = lhs, rhs
        self.fn = None            # its action's function
        self.params = {}          # k -> field
        self.result = None        # field of the result

    def __str__(self):
        return "%s: %s" % (self.lhs, " ".join(self.rhs) or "%empty")


class Grammar:
    def __init__(self, tree, target):
        self.target = target
        src = tree.src
        root = ET.parse(os.path.join(src, target + "parser.xml")).getroot()
        self.terminals = {t.get("name") for t in root.iter("terminal")}
        self.productions = []
        for r in root.find("grammar").find("rules"):
            rhs = [s.text for s in r.find("rhs").findall("symbol")]
            self.productions.append(Production(r.find("lhs").text, rhs))
        # conflicts that bison has resolved: by precedence, or by its default rule
        self.solved, self.conflicts = [], 0
        late = set()
        for s in root.iter("state"):
            # the parser asks for a token unless there is nothing but a default reduction
            asks = any(x.get("type") == "shift" for x in s.iter("transition")) or any(x.get("symbol") != "$default" for x in s.iter("reduction")) or any(True for x in s.iter("error"))
            for x in s.find("itemset").findall("item"):
                r = self.productions[int(x.get("rule-number"))]
                if int(x.get("dot", x.get("point", -1))) == len(r.rhs) and asks:
                    late.add(r)
            for x in s.iter("resolution"):
                self.solved.append((self.productions[int(x.get("rule"))], x.get("symbol"), x.get("type")))
            seen = {}
            for x in s.iter("transition"):
                if x.get("type") == "shift":
                    seen[x.get("symbol")] = 1
            for x in s.iter("reduction"):
                if x.get("enabled") == "false":
                    self.conflicts += 1
        self.immediate = {p for p in self.productions if p not in late}
        self.start = root.find("grammar").find("rules")[0].find("rhs").find("symbol").text
        self.extract(src)

    def extract(self, src):
        text = open(os.path.join(src, self.target + "parser.c")).read()
        by = {}
        for p in self.productions:
            by.setdefault(str(p), p)
        out = ['#include "%sparser.c"\n' % self.target]
        n = 0
        for m in re.finditer(r"^  case (\d+): /\* (.*?) +\*/\n#line [^\n]*\n(.*?)\n#line [^\n]*\n    break;\n", text, re.S | re.M):
            name = m.group(2)
            if name not in by:
                raise Unsupported("action of an unknown production " + name)
            p, body = by[name], m.group(3)
            k = len(p.rhs)
            used = {}
            def val(x):
                i = k + int(x.group(1))
                if not 1 <= i <= k:
                    raise Unsupported("a value from outside of the production " + name)
                if used.setdefault(i, x.group(2)) != x.group(2):
                    raise Unsupported("two views of a value in " + name)
                return "v%d" % i
            body = re.sub(r"\(yyvsp\[(-?\d+)\]\.(\w+)\)", val, body)
            fields = set(re.findall(r"\(yyval\.(\w+)\)", body))
            if len(fields) > 1:
                raise Unsupported("two views of the result of " + name)
            p.result = fields.pop() if fields else used.get(1, "tree")
            body = re.sub(r"\(yyval\.\w+\)", "yyresult", body)
            body = re.sub(r"\(yylsp\[(-?\d+)\]\)", "bicv_where", body)
            if re.search(r"\byy(vsp|val|lsp|loc)\b", body):
                raise Unsupported("action of " + name)
            if k and 1 not in used:
                used[1] = p.result
            p.params = used
            p.fn = "bicv_%s_action_%s" % (self.target, m.group(1))
            first = used.get(1) == p.result and p.result in ("tree", "string", "compound_type")
            out.append("%s %s(%s)\n{\n    %s yyresult%s;\n%s\n    return yyresult;\n}\n" % (
                FIELD[p.result], p.fn, ", ".join("%s v%d" % (FIELD[f], i) for i, f in sorted(used.items())) or "void",
                FIELD[p.result], " = v1" if first else "", body))
            n += 1
        total = len(re.findall(r"^  case \d+: /\* ", text, re.M))
        if n != total or not n:
            raise Unsupported("%d of %d actions" % (n, total))
        self.file = self.target + "actions.c"
        out.insert(1, "extern YYLTYPE bicv_where;\n")
        open(os.path.join(src, self.file), "w").write("\n".join(out))
        # every mention of an action's macro has been seen
        self.names = by
