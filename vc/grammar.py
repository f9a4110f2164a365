"""The grammar and automaton of the current tree (bison --xml of the current bison_parser.y) and the types of its symbols."""
import os
import re
import xml.etree.ElementTree as ET


class Rule:
    __slots__ = ("num", "lhs", "rhs")

    def __repr__(self):
        return f"{self.lhs} -> {' '.join(self.rhs)}"


class Grammar:
    pass


def parse(T):
    root = ET.parse(os.path.join(T.dir, "grammar.xml")).getroot()
    G = Grammar()
    G.rules = []
    g = root.find("grammar")
    for r in g.find("rules"):
        R = Rule()
        R.num = int(r.get("number"))
        R.lhs = r.find("lhs").text
        R.rhs = [s.text for s in r.find("rhs").findall("symbol")]
        G.rules.append(R)
    G.terms = [(int(t.get("symbol-number")), int(t.get("token-number")), t.get("name"), t.get("prec"), t.get("assoc")) for t in g.find("terminals")]
    G.nonterms = [(int(t.get("symbol-number")), t.get("name")) for t in g.find("nonterminals")]
    G.symnum = {t[2]: t[0] for t in G.terms}
    G.symnum.update({n: i for i, n in G.nonterms})
    G.states = []
    for s in root.find("automaton"):
        d = {"trans": {}, "red": {}, "default": None}
        acts = s.find("actions")
        for t in acts.find("transitions"):
            d["trans"][t.get("symbol")] = int(t.get("state"))
        for t in acts.find("reductions"):
            if t.get("enabled", "true") != "true":
                continue
            if t.get("symbol") == "$default":
                d["default"] = t.get("rule")
            else:
                d["red"][t.get("symbol")] = t.get("rule")
        d["errors"] = [e.get("symbol") for e in acts.find("errors")] if acts.find("errors") is not None else []
        G.states.append(d)
    G.types = types(open(os.path.join(T.src, "parser", "bison_parser.y"), errors="replace").read())
    return G


def types(text):
    """symbol -> union member"""
    head = text.split("\n%%")[0]
    head = re.sub(r'/\*.*?\*/', ' ', head, flags=re.S)
    head = re.sub(r'//[^\n]*', ' ', head)
    out = {}
    for m in re.finditer(r'^%(token|type|nterm|left|right|nonassoc|precedence)\b([^%]*)', head, re.M):
        cur = None
        for w in re.findall(r"<[^>]*>|'[^']*'|\w+|\"[^\"]*\"", m[2]):
            if w[0] == '<':
                cur = w[1:-1]
            elif cur and not w.isdigit():
                out[w] = cur
    return out


def symfields(T, G, sym):
    """fields of the semantic value of a symbol: [(name, offset, size, field)]"""
    t = G.types.get(sym)
    if t is None:
        return []
    return [f for f in T.L.fields('HSQL_STYPE') if f.name == t or f.name.startswith(t + ".")]
