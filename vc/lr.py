"""C20 (and the shape of every tree): the compiled parser tables are the LALR(1) automaton of the specified grammar.
One obligation per entry of the action and goto tables of every state, decided by a simulation between the two automata."""
import re
from . import spec as spec_
from .units import Result, engine
from .sym import Unsupported
from . import sym




class Compiled:
    """the tables of the compiled parser, read the way its skeleton reads them"""

    def __init__(self, T, G):
        M = T.M
        eng = engine(T)

        def arr(nm, signed=True):
            g = [x for x in M.gl_ref if re.fullmatch(r'_ZL\d+' + nm, x)]
            if len(g) != 1:
                raise Unsupported(f"parser table {nm}")
            t, init, const, tl = M.glob(g[0])
            if not const:
                raise Unsupported(f"parser table {nm} is not constant")
            es = t.elts[0].size if t.k == 'array' else t.elts[0].elts[0].size
            out = []
            for i in range(t.size // es):
                v = eng.const_at(init, t, i * es, es)
                v = 0 if v is sym.ZERO else v
                if signed and v >= 1 << (8 * es - 1):
                    v -= 1 << (8 * es)
                out.append(v)
            return out
        self.pact, self.pgoto, self.table, self.check = (arr("yy" + n) for n in ("pact", "pgoto", "table", "check"))
        self.defact, self.defgoto, self.r1, self.r2, self.translate, self.stos = (arr("yy" + n, False) for n in ("defact", "defgoto", "r1", "r2", "translate", "stos"))
        src = open(T.src + "/parser/bison_parser.cpp", errors="replace").read()
        d = {m[1]: int(m[2]) for m in re.finditer(r'^#\s*define\s+(YY\w+)\s+\(?(-?\d+)\)?\s*$', src, re.M)}
        self.final, self.last, self.ntok, self.nstates, self.pninf, self.tninf = (d[k] for k in ("YYFINAL", "YYLAST", "YYNTOKENS", "YYNSTATES", "YYPACT_NINF", "YYTABLE_NINF"))

    def action(self, s, t):
        n = self.pact[s]
        if n != self.pninf:
            n += t
            if 0 <= n <= self.last and self.check[n] == t:
                v = self.table[n]
                if v > 0:
                    return ('s', v)
                if v == self.tninf or v == 0:
                    return ('e',)
                return ('r', -v)
        v = self.defact[s]
        return ('r', v) if v else ('e',)

    def default(self, s):
        """reduces without looking at the next token"""
        return self.pact[s] == self.pninf

    def goto(self, s, nt):
        n = nt - self.ntok
        k = self.pgoto[n] + s
        if 0 <= k <= self.last and self.check[k] == s:
            return self.table[k]
        return self.defgoto[n]


def name(T, t):
    return t[4:] if t.startswith("SQL_") else t


def specaction(S, i, t):
    st = S.states[i]
    if t in st["trans"]:
        return ('s', st["trans"][t])
    if t in st["red"]:
        return ('r', st["red"][t])
    if t in st["errors"]:
        return ('e',)
    if st["default"] is not None:
        return ('r', st["default"])
    return ('e',)


def stage(ctx, prop="C20"):
    T, G, S = ctx.T, ctx.G, ctx.S
    rs = []
    a = {(R.lhs, tuple(R.rhs)) for R in G.rules if R.num}
    b = {(p.lhs, tuple(p.rhs)) for p in S.prods}
    if a != b:
        r = Result("grammar: the productions are the specified ones")
        r.obl = len(b)
        r.disch = len(a & b)
        r.status = 'undecided'
        r.reason = f"other productions: {sorted(a - b)[:3]} instead of {sorted(b - a)[:3]}"
        r.prods = sorted(b - a)[:6]
        return [r]
    C = Compiled(T, G)
    names = {n: nm for n, code, nm, p, as_ in G.terms}
    num = {nm: n for n, nm in names.items()}
    ntn = dict(G.nonterms)
    num.update({n: i for i, n in G.nonterms})
    # token codes
    r = Result("token codes are translated to their terminals")
    r.backend = "table simulation"
    bad = []
    codes = {code: n for n, code, nm, p, as_ in G.terms}
    for c in range(len(C.translate)):
        r.obl += 1
        want = codes.get(c, num.get("$undefined", num.get("\"invalid token\"", 2)))
        if C.translate[c] != want:
            bad.append(f"code {c} becomes {names.get(C.translate[c])}, not {names.get(want)}")
    r.disch = r.obl - len(bad)
    if bad:
        r.status = 'failed'
        r.fails = [{"unit": r.unit, "kind": "tables", "msg": m, "where": "bison_parser.cpp", "model": ""} for m in bad[:5]]
    rs.append(r)
    # rules
    r = Result("reductions pop the right number of symbols and push the right one")
    r.backend = "table simulation"
    bad = []
    for R in G.rules:
        if R.num:
            r.obl += 1
            if C.r2[R.num + 1] != len(R.rhs) or C.r1[R.num + 1] != num[R.lhs]:
                bad.append(str(R))
    r.disch = r.obl - len(bad)
    if bad:
        r.status = 'failed'
        r.fails = [{"unit": r.unit, "kind": "tables", "msg": m, "where": "bison_parser.cpp", "model": ""} for m in bad[:5]]
    rs.append(r)
    rule = {R.num + 1: (R.lhs, tuple(R.rhs)) for R in G.rules}
    srule = {n: ((p.lhs, tuple(p.rhs)) if p else ('$accept', None)) for n, p in S.bnum.items()}
    rel, todo, how = {0: 0}, [0], {0: ()}
    terms = [t for t in num if t in names.values()]
    while todo:
        x = todo.pop(0)
        y = rel[x]
        w = " ".join(s for s in how[x])
        r = Result(f"tables of state {x} (after {w[-90:] or 'nothing'})")
        r.backend = "table simulation"
        r.kinds = {"tables": 0}
        bad, prods = [], set()

        def pair(p, q, s):
            if p in rel:
                if rel[p] != q:
                    bad.append(f"after {s} the states disagree")
                return
            rel[p] = q
            how[p] = how[x] + (s,)
            todo.append(p)
        st = S.states[y]
        reds = {srule[int(v)] for v in list(st["red"].values()) + ([st["default"]] if st["default"] not in (None, 'accept') else []) if v != 'accept'}
        for t in sorted(terms):
            r.obl += 1
            got = C.action(x, num[t]) if not (x == C.final) else ('accept',)
            want = specaction(S, y, t)
            if want[0] == 'r' and want[1] == 'accept' or x == C.final:
                if not (x == C.final and (want == ('r', 'accept'))):
                    r.disch -= 1
                    bad.append(f"accepts {'although it should not' if x == C.final else 'not'} on {t}")
                r.disch += 1
                continue
            if want[0] == 's':
                if got[0] != 's':
                    bad.append(f"{t} is not shifted" + (f" but {rule[got[1]][0]} -> {' '.join(rule[got[1]][1])} reduced" if got[0] == 'r' else ""))
                    continue
                pair(got[1], want[1], t)
            elif want[0] == 'r':
                k = srule[int(want[1])]
                if got[0] != 'r' or rule[got[1]] != k:
                    bad.append(f"on {t} it does not reduce {k[0]} -> {' '.join(k[1])}")
                    prods.add(k)
                    continue
            else:
                # an error may be noticed only after reductions that the state allows
                if got[0] == 's':
                    bad.append(f"{t} is accepted")
                    continue
                if got[0] == 'r' and rule[got[1]] not in reds:
                    bad.append(f"on {t} it reduces {rule[got[1]][0]}")
                    continue
            r.disch += 1
        if C.default(x) and st["default"] is None and not reds:
            bad.append("reduces by default")
        for n in ntn.values():
            if n in st["trans"]:
                r.obl += 1
                pair(C.goto(x, num[n]), st["trans"][n], n)
                r.disch += 1
        r.kinds["tables"] = r.obl
        if bad:
            r.status = 'failed'
            r.disch = min(r.disch, r.obl - 1)
            r.fails = [{"unit": r.unit, "kind": "tables", "msg": m, "where": "bison_parser.cpp", "model": ""} for m in bad[:5]]
            items = set(how[x][-2:])
            r.prods = sorted(prods) + [(p.lhs, tuple(p.rhs)) for p in S.prods if items and items <= set(p.rhs)][:4]
        rs.append(r)
    return rs


def expressions(ctx):
    """for C07: the states in which operators are grouped"""
    from .bounded import PRODS
    rs = stage(ctx, "C07")
    for r in rs:
        if r.status == 'failed' and not any(l in PRODS["C07"] for l, _ in getattr(r, 'prods', None) or ()):
            r.status, r.reason, r.fails = 'undecided', "not about operators: " + "; ".join(f["msg"] for f in r.fails[:2]), []
    return rs
