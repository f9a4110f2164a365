"""The specification: grammar with the meaning of every production, token rules, and the automaton of the specified grammar."""
import ast
import os
import re
import subprocess
import xml.etree.ElementTree as ET

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class Prod:
    __slots__ = ("num", "lhs", "rhs", "act", "text", "code")

    def __repr__(self):
        return f"{self.lhs} -> {' '.join(self.rhs)}"


class Spec:
    pass


def split(text, sep):
    """split at the separator outside of quotes and brackets"""
    out, cur, depth, q = [], "", 0, None
    i = 0
    while i < len(text):
        c = text[i]
        if q:
            cur += c
            if c == q:
                q = None
        elif c in "'\"":
            q = c
            cur += c
        elif depth == 0 and text.startswith(sep, i):
            out.append(cur)
            cur = ""
            i += len(sep) - 1
        else:
            if c in '([{':
                depth += 1
            if c in ')]}':
                depth -= 1
            cur += c
        i += 1
    out.append(cur)
    return out


def load():
    S = Spec()
    S.prec, S.prods = [], []
    lines = []
    for l in open(os.path.join(HERE, "sql.spec")):
        l = l.rstrip("\n")
        if not l.strip() or l.startswith("#"):
            continue
        if l[0] == '%':
            S.prec.append(l)
        elif l[0] == ' ' or l[0] == '|':
            lines[-1] += " " + l.strip()
        else:
            lines.append(l)
    for l in lines:
        lhs, rest = l.split(" : ", 1)
        for alt in split(rest, " | "):
            p = Prod()
            a = split(alt, "=>")
            p.lhs = lhs.strip()
            p.rhs = [x for x in a[0].split() if x != '<empty>']
            p.text = a[1].strip() if len(a) > 1 else "$1"
            p.act = ast.parse(re.sub(r'\$(\d+)', r'S\1', p.text).strip(), mode='eval').body
            p.code = None
            p.num = len(S.prods) + 1
            S.prods.append(p)
    S.nonterms = {p.lhs for p in S.prods}
    S.terms = []
    for p in S.prods:
        for s in p.rhs:
            if s not in S.nonterms and s not in S.terms:
                S.terms.append(s)
    S.keywords, S.rules = [], []
    for l in open(os.path.join(HERE, "tokens.spec")):
        l = l.rstrip("\n")
        if l.startswith("keywords "):
            S.keywords += l.split()[1:]
        elif l and l[0] != '#':
            a, b = l.split(" : ", 1)
            S.rules.append((a, b))
    for k in S.keywords:
        if k not in S.terms:
            S.terms.append(k)
    S.start = S.prods[0].lhs
    return S


def automaton(S, dir):
    """LALR(1) tables of the specified grammar"""
    y = os.path.join(dir, "spec.y")
    with open(y, "w") as f:
        f.write("%define parse.error verbose\n%define lr.default-reduction accepting\n")
        f.write("%token " + " ".join(t for t in S.terms if t[0] != "'") + "\n")
        f.write("\n".join(S.prec) + "\n%start " + S.start + "\n%%\n")
        cur = None
        for p in S.prods:
            if p.lhs != cur:
                f.write((";\n" if cur else "") + p.lhs + " : ")
                cur = p.lhs
            else:
                f.write(" | ")
            f.write(" ".join(p.rhs) + " {}\n")
        f.write(";\n%%\n")
    r = subprocess.run(["bison", "-Wno-all", y, "--output=" + os.path.join(dir, "spec.c"), "--xml=" + os.path.join(dir, "spec.xml")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(r.stdout)
    root = ET.parse(os.path.join(dir, "spec.xml")).getroot()
    rules = root.find("grammar").find("rules")
    S.bnum = {}
    for r in rules:
        n = int(r.get("number"))
        rhs = [s.text for s in r.find("rhs").findall("symbol")]
        S.bnum[n] = next((p for p in S.prods if p.lhs == r.find("lhs").text and p.rhs == rhs), None)
    S.states = []
    for s in root.find("automaton"):
        d = {"trans": {}, "red": {}, "default": None}
        acts = s.find("actions")
        for t in acts.find("transitions"):
            d["trans"][t.get("symbol")] = int(t.get("state"))
        for t in acts.find("reductions"):
            if t.get("enabled", "true") != "true":
                continue
            if t.get("symbol") == "$default":
                d["default"] = t.get("rule")
            else:
                d["red"][t.get("symbol")] = t.get("rule")
        e = acts.find("errors")
        d["errors"] = [x.get("symbol") for x in e] if e is not None else []
        S.states.append(d)
    return S
