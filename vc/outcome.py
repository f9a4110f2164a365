"""The outcome of the parser: an error is pending exactly when a message is set, statements are added by the start symbol only."""
import z3
from . import sym, units, result, own
from . import facts as fc
from .grammar import symfields
from .sym import Ptr, isz, simp, bv


def finish(T, G, R, facts, wf):
    start = G.rules[0].rhs[0]

    def fin(E, s, fr, rk, way):
        st0, fr0, rk0 = units.parser_state(E, G, facts, R.rhs, wf)
        a, b = result.observe(E, st0, rk0), result.observe(E, s, rk)
        n0, n1 = E.isnull(s, a['msg']), E.isnull(s, b['msg'])
        null1 = n1 is True or isz(n1) and E.valid(s, n1)
        if way == 'yyerrorlab':
            E.check(s, "outcome", n1 is False or isz(n1) and E.valid(s, z3.Not(n1)), "a rejected reduction leaves an error message")
            return (way, 'error')
        if way != 'yynewstate':
            E.fail(s, "outcome", f"the reduction ends at {way}")
            return (way, 'other')
        same = result.same(E, s, a['msg'], b['msg'], 'ptr')
        if same or null1:
            for nm in ('line', 'column'):
                E.check(s, "outcome", result.same(E, s, a[nm], b[nm], 'int'), f"the error {nm} changes without an error")
        if R.lhs == start:
            E.check(s, "outcome", E.valid(s, z3.UGE(bv(b['size'], 64), 1)), "an accepted text has at least one statement")
        else:
            E.check(s, "outcome", result.samevec(E, s, a['statements'], b['statements']), "only the complete text adds statements to the result")
            E.check(s, "outcome", result.samevec(E, s, a['parameters'], b['parameters']), "only the complete text adds parameters to the result")
        for f in symfields(T, G, R.lhs):
            if f.kind == 'ptr':
                v = own.fieldget(E, s, fr.obj['yyvsa'], 32 + f.off, f.size)
                key = fc.keyof(R.lhs, f)
                if isinstance(v, Ptr):
                    o = fc.observe(E, s, v, f.own)
                    E.check(s, "contract", key in facts and fc.covered(o, facts[key]), f"the value of {key} does not satisfy the contract of the symbol")
        return (way, 'none' if null1 else 'same' if same else 'set')
    return fin


def unit(T, G, R, facts, wf):
    f = units.reduce_unit(T, G, R, facts, wf, finish(T, G, R, facts, wf))

    def run(E):
        E.ignored = frozenset(k for k in KINDS)
        r = f(E)
        return [(way, e) for way, e in r if way == 'yynewstate']
    return run


KINDS = ("null", "bounds", "leak", "ownership", "dangling", "uninit", "control", "stack", "element", "type", "format", "frame", "value", "order", "overflow", "delete-contract")


def stage(ctx):
    from . import check
    T, G = ctx.T, ctx.G
    facts, wf = check.infer(ctx)
    us, rules = [], []
    for R in G.rules:
        if R.num:
            us.append((f"outcome of {R}", unit(T, G, R, facts, wf), {"prods": [(R.lhs, tuple(R.rhs))]}))
            rules.append(R)
    rs = check.run_units(ctx, us)
    start = G.rules[0].rhs[0]
    eff = {R.num: {e for w, e in (r.same or ())} for R, r in zip(rules, rs)}
    # symbols that may stand for a part with a reported error
    P, ch = set(), True
    why = {}
    while ch:
        ch = False
        for R in rules:
            if R.lhs in P:
                continue
            if 'set' in eff[R.num] or 'same' in eff[R.num] and P & set(R.rhs):
                P.add(R.lhs)
                why[R.lhs] = R
                ch = True
    r = units.Result("a reported error is never followed by acceptance")
    r.obl = 1
    und = [x for x in rs if x.status == 'undecided']
    if start in P:
        r.status = 'failed'
        path, x = [], start
        while x in why and len(path) < 30:
            path.append(str(why[x]))
            x = next((y for y in why[x].rhs if y in P and str(why[y]) not in path), None)
        r.fails = [{"unit": r.unit, "kind": "outcome", "msg": "an error reported without rejection can be accepted: " + " ; ".join(reversed(path)), "where": "", "model": ""}]
        r.prods = [(why[start].lhs, tuple(why[start].rhs))]
    else:
        r.disch = 1
    rs.append(r)
    r = units.Result("tables: errors end the parse, the start symbol is reduced at the end of the text")
    bad = []
    for i, s in enumerate(G.states):
        if 'error' in s["trans"]:
            bad.append(f"state {i} recovers from errors")
        sr = {str(R.num) for R in G.rules if R.lhs == start}
        for la, ru in s["red"].items():
            if ru in sr and la != '$end':
                bad.append(f"state {i} reduces {start} on {la}")
        if s["default"] in sr:
            bad.append(f"state {i} reduces {start} by default")
    used = [R for R in G.rules if start in R.rhs and R.num]
    if used:
        bad.append(f"{start} is used in {used[0]}")
    r.obl, r.disch = len(G.states), len(G.states)
    if bad:
        # a different organization of the grammar: the argument does not apply as it is
        r.status, r.reason = 'undecided', "; ".join(bad[:3])
    rs.append(r)
    return rs
