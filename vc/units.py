"""Proof units: engine construction and the unit runners."""
import re
import time
import traceback
from . import sym, models, own, llvm
from .models import PTRTY
from .sym import Eng, State, Ptr, Unsupported, DeadPath


def instantiated(T):
    """classes that some code constructs as complete objects"""
    if getattr(T, 'inst', None) is not None:
        return T.inst
    out = set()
    for n in T.M.fn_ref:
        d = T.dem.get(n, n)
        if not T.M.defined(n) or 'hsql' not in d:
            continue
        m = re.match(r'_ZN4hsql(\d+)(\w+)C[12]E', n)
        me = m[2][:int(m[1])] if m else None
        for B in T.M.fn(n).blocks:
            for I in B.insts:
                if I.op == 'call' and I.x.k == 'func':
                    c = re.match(r'_ZN4hsql(\d+)(\w+)C[12]E', I.x.v)
                    if c:
                        c = c[2][:int(c[1])]
                        if c in T.L.cls and not (me in T.L.cls and me in T.L.subs[c]):
                            out.add(c)
    T.inst = out
    return out


def engine(T):
    E = Eng(T.M, T.L, instantiated(T))
    E.T = T
    models.install(E, T.dem)
    own.install(E)
    return E


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = 'proved'      # proved | failed | undecided
        self.fails, self.reason = [], None
        self.obl = self.disch = 0
        self.kinds, self.z3time, self.z3calls, self.paths, self.secs = {}, 0, 0, 0, 0
        self.fns, self.models = [], []
        self.extra = None

    def __repr__(self):
        return f"{self.unit}: {self.status} {self.disch}/{self.obl} {self.reason or ''} " + "; ".join(f"[{f['kind']}] {f['msg']}" for f in self.fails)


def run_unit(T, name, fn, limit=120):
    r = Result(name)
    t = time.time()
    E = engine(T)
    E.unit = name
    E.deadline = t + limit
    try:
        r.extra = fn(E)
    except Unsupported as x:
        r.status, r.reason = 'undecided', str(x)[:300]
    except RecursionError as x:
        r.status, r.reason = 'undecided', 'recursion'
    except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError, z3x) as x:
        r.status, r.reason = 'undecided', f"{type(x).__name__} {str(x)[:200]} " + traceback.format_exc().strip().split('\n')[-3].strip()[:150]
    r.fails = E.fails
    if r.fails:
        if r.status == 'proved':
            r.status = 'failed'
            if all(f.get("weak") for f in r.fails):
                r.status, r.reason = 'undecided', "an obligation fails behind an inferred loop invariant: " + r.fails[0]["msg"][:200]
    if r.status == 'proved' and E.runs and not E.reached:
        r.status, r.reason = 'undecided', "vacuous: nothing satisfies the contracts the unit assumes"
    r.reached = bool(E.reached)
    r.obl, r.disch, r.kinds, r.z3time, r.z3calls, r.paths = E.obl, E.disch, E.kinds, E.z3time, E.z3calls, E.paths
    r.fns, r.models = sorted(E.inlined), sorted(E.log_calls)
    r.secs = time.time() - t
    return r


import z3
z3x = z3.Z3Exception


# ------------------------------------------------------------------ destructors

def dtor_units(T):
    """one unit per complete/deleting destructor of every class with owned state"""
    us = []
    for n in sorted(T.M.fn_ref):
        m = re.match(r'_ZN4hsql(\d+)(\w+)D([02])Ev$', n)
        if not m or not T.M.defined(n):
            continue
        c = m[2][:int(m[1])]
        if c not in T.L.cls or c == 'SQLParserResult':
            continue
        if T.L.poly(c) and m[3] == '2':
            continue            # through the deleting destructor of every derived class
        if T.L.poly(c) and c not in instantiated(T):
            continue
        us.append((f"destructor {T.dem[n]} [{'deleting' if m[3] == '0' else 'object'}]", dtor_unit(c, n, m[3])))
    return us


def dtor_unit(cls, name, variant):
    def run(E):
        E.contracts = dict(E.contracts)
        st = State()
        st.own['this'] = cls
        st.cls['this'] = frozenset([cls])
        E.assume(st, sym.z3.Not(E.nullv('this')))
        E.bodies.add((cls, name))
        E.inlined.add(name)
        outs = E.call_fn(st, name, [Ptr(('s', 'this'))], None)
        for s, v in outs:
            if variant == '2':
                k = s.mat.get('this')
                if k is None and 'this' in s.own:
                    E.unfold(s, 'this', None, 'x')
                    k = s.mat['this']
                if k is None or k not in s.objs:
                    E.fail(s, "ownership", "the destructor releases the object itself")
                else:
                    del s.objs[k]
            own.noleak(E, s, f"{cls} destructor")
        if not outs:
            E.fail(st, "ownership", "the destructor never returns")
    return run


# ------------------------------------------------------------------ parser reductions

PARSE = '_Z10hsql_parsePN4hsql15SQLParserResultEPv'
ENDS = ('yynewstate', 'yyerrlab', 'yyerrorlab', 'yyerrlab1', 'yyacceptlab', 'yyabortlab', 'yyexhaustedlab', 'yyreturnlab', 'yybackup', 'yydefault')


class Frame:
    """The activation record of the parser: objects of its local variables."""

    def __init__(self, E, st, F):
        self.F = F
        self.env = {}
        self.obj = {}
        ks = []
        for I in F.blocks[0].insts:
            if I.op == 'alloca':
                k = st.alloc('stack', I.x.size)
                self.env[I.id] = Ptr(k)
                self.obj[I.name] = k
                ks.append(k)
        self.env['allocas'] = tuple(ks)
        self.blk = {}
        for B in F.blocks:
            self.blk.setdefault(B.name, B)

    def put(self, st, var, off, size, v):
        st.objs[self.obj[var]].cells[off] = (size, v)


def parser_state(E, G, facts, rhs, wf=None):
    """state at the start of a reduction whose right-hand side is rhs"""
    F = E.M.fn(PARSE)
    st = State()
    fr = Frame(E, st, F)
    rk = ('o', 'result')
    o = sym.Obj()
    o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = 'ext', E.lay.cls['SQLParserResult'].size, 'SQLParserResult', {}, ('cls', 'result', 'SQLParserResult'), st.sid, True, False
    st.objs[rk] = o
    for f in E.lay.fields('SQLParserResult'):
        if f.own:
            st.own['result.' + f.name] = f.own
        elif f.kind == 'vec':
            if ('SQLParserResult', f.name) in E.nonowning:
                st.borrow['result.' + f.name] = 'vec<' + f.elt + '>'
            else:
                st.osl['result.' + f.name] = ((0, E.veclen(st, 'result.' + f.name)),)
                E.vectypes['result.' + f.name] = f.elt
    pf = E.lay.field('SQLParserResult', 'parameters_')
    if pf is not None:      # precondition of a parse: no parameters have been collected yet
        o.cells[pf.off] = (24, sym.Vec('=Expr'))
    fl = E.lay.field('Expr', 'ival')
    E.writable = (('S:yyloc.param_list[', fl.off),) if fl is not None else ()
    E.sort_model, E.bound_model = sort_model, bound_model
    fr.put(st, 'result.addr', 0, 8, Ptr(rk))
    fr.put(st, 'scanner.addr', 0, 8, Ptr(('s', 'scanner')))
    n = len(rhs)
    Vs = fr.obj['yyvsa']
    fr.put(st, 'yyvs', 0, 8, Ptr(Vs))
    fr.put(st, 'yyvsp', 0, 8, Ptr(Vs, 32 * n))
    for i, s in enumerate(rhs):
        symval(E, G, st, Vs, 32 * (i + 1), s, f"${i + 1}", facts)
    Ls = fr.obj['yylsa']
    ls = E.lay.cls['HSQL_CUST_LTYPE'].size
    fr.put(st, 'yyls', 0, 8, Ptr(Ls))
    fr.put(st, 'yylsp', 0, 8, Ptr(Ls, ls * n))
    for i in range(n + 2):
        loc(E, st, Ls, ls * i, f"@{i}")
    for i in range(3):
        loc(E, st, fr.obj['yyerror_range'], ls * i, f"range{i}")
    loc(E, st, fr.obj['yyloc'], 0, "yyloc")
    loc(E, st, fr.obj['yylloc'], 0, "yylloc")
    fr.put(st, 'yychar', 0, 4, z3.BitVec('yychar', 32))
    fr.put(st, 'yytoken', 0, 4, z3.BitVec('yytoken', 32))
    fr.put(st, 'hsql_nerrs', 0, 4, z3.BitVec('nerrs', 32))
    fr.put(st, 'yyerrstatus', 0, 4, z3.BitVec('errstatus', 32))
    fr.put(st, 'yystacksize', 0, 8, 200)
    return st, fr, rk


def loc(E, st, k, off, nm):
    o = st.objs[k]
    for f in E.lay.fields('HSQL_CUST_LTYPE'):
        if f.kind == 'int':
            o.cells[off + f.off] = (4, z3.BitVec(f"{nm}.{f.name}", 32))
        else:
            v = f"{nm}.{f.name}"
            o.cells[off + f.off] = (24, sym.Vec('=Expr', (('s', v, 0, E.veclen(st, v)),)))
            st.borrow[v] = 'vec<=Expr>'


def symval(E, G, st, k, off, s, nm, facts):
    """value of grammar symbol s: what the contract of the symbol promises"""
    from .grammar import symfields
    from . import facts as fc
    for f in symfields(E.T, G, s):
        name = nm + ("" if '.' not in f.name else "." + f.name.split('.', 1)[1])
        fa = facts.get(fc.keyof(s, f))
        if f.kind == 'ptr':
            v = Ptr(('s', name))
            if f.own:
                st.own[name] = f.own
            if fa is not None:
                fc.assume(E, st, name, f.own, fa)
        elif f.kind == 'bool':
            v = z3.BitVec(name, 8)
            E.assume(st, z3.ULE(v, 1))
        elif f.kind == 'fp':
            v = sym.Tm("fp:" + name)
        else:
            v = z3.BitVec(name, f.size * 8)
            if fa is not None and fa.val is not None and f.size == 4:
                E.assume(st, z3.Or(*[v == c for c in sorted(fa.val)]) if fa.val else False)
        st.objs[k].cells[off + f.off] = (f.size, v)


def sort_model(E, st, a, I):
    """std::sort: the comparator has to order the elements strictly; a sequence that is already ordered stays as it is."""
    b, e, f = a[0], a[1], (a[2] if len(a) > 2 else None)
    if E.trial:
        return [(st, None)]
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.b == e.b and b.b and b.b[0] == 'vb'):
        raise Unsupported("std::sort")
    v = E.vecat(st, b.b[1], b.b[2])
    n = E.vlen(v)
    if not (isinstance(b.o, int) and b.o == 0) or not E.valid(st, z3.BitVecVal(0, 64) + sym.bv(e.o, 64) == sym.bv(n, 64) * 8):
        raise Unsupported("std::sort of a part of a vector")
    if E.valid(st, sym.bv(n, 64) <= 1):
        return [(st, None)]
    return ordered(E, st, v, None, I)


def bound_model(which):
    """std::upper_bound and std::lower_bound of a value that belongs behind all elements: the end"""
    def h(E, st, a, I):
        b, e, x = a[0], a[1], a[2]
        if E.trial:
            return [(st, e)]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.b == e.b and b.b and b.b[0] == 'vb'):
            raise Unsupported("std::" + which)
        v = E.vecat(st, b.b[1], b.b[2])
        n = E.vlen(v)
        if not (isinstance(b.o, int) and b.o == 0) or not E.valid(st, z3.BitVecVal(0, 64) + sym.bv(e.o, 64) == sym.bv(n, 64) * 8):
            raise Unsupported(f"std::{which} in a part of a vector")
        x = E.load(st, x, 8, PTRTY, I)
        if not (isinstance(x, Ptr) and x.b is not None):
            raise Unsupported("std::" + which)
        if not E.valid(st, sym.bv(n, 64) == 0):
            ordered(E, st, v, (x, which), I)
        return [(st, e)]
    return h


def ordered(E, st, v, value, I):
    """the elements (value: those of the vector followed by this one) are in the order of the comparator"""
    # comparator: the instantiated lambda's call operator
    m = [x for x in E.M.fn_ref if E.M.defined(x) and re.search(r'\$_\d+|UlPK', x) and re.search(r'clE', x) and 'addParameter' in x] or \
        [x for x in E.M.fn_ref if E.M.defined(x) and 'addParameter' in x and re.search(r'clE', x)]
    if len(m) != 1:
        raise Unsupported("comparator of std::sort")
    segs = []
    for s in v.segs:
        x = E.elems.get(s[1].b[1]) if s[0] == 'e' and s[1].b and s[1].b[0] == 's' else None
        if s[0] == 'F' or s[0] == 'e' and not (s[1].b and s[1].b[0] == 's'):
            raise Unsupported("std::sort of unknown elements")
        if s[0] == 'e' and x is None:
            segs.append((s[1], 0, 1))
        else:
            segs.append((x[0], x[1], sym.simp(sym.bv(x[1], 64) + 1)) if x else (s[1], s[2], s[3]))
    if value is not None:
        x = E.elems.get(value[0].b[1]) if value[0].b[0] == 's' else None
        segs.append((x[0], x[1], sym.simp(sym.bv(x[1], 64) + 1)) if x else (value[0], 0, 1))
    i, j = z3.BitVec('sort:i', 64), z3.BitVec('sort:j', 64)
    for p in range(len(segs)):
        for q in range(p, len(segs)):
            if value is not None and (p == q or q != len(segs) - 1):
                continue
            (va, lo, hi), (vb, lo2, hi2) = segs[p], segs[q]
            t = st.clone()
            t.pc += [z3.UGE(i, sym.bv(lo, 64)), z3.ULT(i, sym.bv(hi, 64)), z3.UGE(j, sym.bv(lo2, 64)), z3.ULT(j, sym.bv(hi2, 64))]
            if va == vb:
                t.pc.append(z3.ULT(i, j)) if p == q else None
            if not E.sat(t):
                continue
            ptrs, known = [], True
            for vs, ix, nm in ((va, i, 'sort:a'), (vb, j, 'sort:b')):
                if isinstance(vs, Ptr):
                    k = E.unfold(t, vs.b[1], I, "read")
                    ptrs.append(vs)
                    continue
                t.borrow[nm] = 'Expr'
                t.pc.append(z3.Not(E.nullv(nm)))
                k = E.unfold(t, nm, I, "read")
                ef = t.notes.get(('each', vs))
                cur = next(((E.elems[x][1], t.objs[key]) for x, key in t.mat.items() if x in E.elems and E.elems[x][0] == vs and key in t.objs and t.objs[key].dirty), None)
                cells = {}
                if cur is not None and E.valid(t, ix == sym.bv(cur[0], 64)):
                    cells = {off: c for off, c in cur[1].cells.items()}
                elif ef is not None and E.valid(t, z3.And(z3.UGE(ix, sym.bv(ef[0], 64)), z3.ULT(ix, sym.bv(ef[1], 64)))):
                    kk = z3.BitVec("each:" + vs, 64)
                    cells = {off: (m_, sym.simp(z3.substitute(x, (kk, ix))) if sym.isz(x) else x) for off, (m_, x) in ef[2].items()}
                t.objs[k].cells.update(cells)
                known = known and bool(cells)
                ptrs.append(Ptr(('s', nm)))
            for aa, bb, want in ((ptrs[0], ptrs[1], True), (ptrs[1], ptrs[0], False)):
                if value is not None and want != (value[1] == 'lower_bound'):
                    continue
                for s2, r in E.call_fn(t.clone(), m[0], [sym.NULL, aa, bb], I):
                    r = sym.tobool(r)
                    c = (r if want else z3.Not(r)) if sym.isz(r) else r == want
                    if not (E.valid(s2, c) if sym.isz(c) else c and True):
                        if known and value is None and getattr(E, 'sort_fail', False):
                            E.check(s2, "order", c, "std::sort moves elements that are in order (or its comparator is not a strict order)", I)
                            return [(st, None)]
                        raise Unsupported("std::sort of elements that are not known to be in order")
    E.obl += 1
    E.disch += 1
    return [(st, None)]


def reduce_unit(T, G, R, facts, wf, finish):
    """one reduction: from yyreduce to the next parser state (finish is called for every way out)"""
    def run(E):
        E.wf = wf
        E.sort_fail = 'params' in getattr(finish, 'parts', ())
        if wf is not None:
            E.wf_hook = wf.assume
        st, fr, rk = parser_state(E, G, facts, R.rhs, wf)
        fr.put(st, 'yyn', 0, 4, R.num + 1)
        base = next((i for i, s in enumerate(G.states) if R.lhs in s["trans"]), 0)
        n = len(R.rhs)
        fr.put(st, 'yyss', 0, 8, Ptr(fr.obj['yyssa']))
        esz = 2 if E.M.fn(PARSE) and st.objs[fr.obj['yyssa']].size == 400 else 1
        for i in range(n + 1):
            st.objs[fr.obj['yyssa']].cells[esz * i] = (esz, base)
        fr.put(st, 'yyssp', 0, 8, Ptr(fr.obj['yyssa'], esz * n))
        fr.put(st, 'yystate', 0, 4, base)
        until = {fr.blk[b].id: b for b in ENDS if b in fr.blk}
        E.inlined.add(PARSE + ":reduction")
        outs = E.run(fr.F, fr.blk['yyreduce'], st, fr.env, until=until)
        ways = []
        for kk, lst in outs.items():
            if kk == 'ret':
                raise Unsupported("the parser returns from a reduction")
            for s, e, x in lst:
                ways.append((until[kk], s))
        if not ways:
            E.fail(st, "ownership", "the reduction does not end")
        res = []
        for way, s in ways:
            if not E.sat(s):
                continue
            if way == 'yynewstate':
                top = s.objs[fr.obj['yyvsp']].cells[0][1]
                if top != Ptr(fr.obj['yyvsa'], 32):
                    E.fail(s, "stack", f"the value stack is at {top} after the reduction")
                    continue
            try:
                res.append(finish(E, s, fr, rk, way))
            except DeadPath:
                pass
        return res
    return run


class WF:
    """Data structure invariants: candidate predicates 'field f of class C is not null [when discriminator d has value v]'."""

    def __init__(self, L, cands=None):
        self.L = L
        if cands is None:
            cands = {}
            for c in L.cls:
                if c in ('SQLParserResult', 'HSQL_STYPE', 'HSQL_CUST_LTYPE'):
                    continue
                cands[c] = {(f.name, None) for f in L.fields(c) if f.own}
        self.c = cands

    def assume(self, st, name, cls):
        out = []
        for f, cond in self.c.get(cls, ()):
            a = z3.Not(z3.Bool(f"null:{name}.{f}"))
            if cond is not None:
                if cond[0] in ('!init', '!edge'):
                    continue
                if cond[0] == '!ne':
                    a = z3.BitVec(f"{name}.{f}", 32) != cond[1]
                elif cond[1] == '!null':
                    a = z3.Or(z3.Not(z3.Bool(f"null:{name}.{cond[0]}")), a)
                else:
                    a = z3.Or(z3.BitVec(f"{name}.{cond[0]}", 32) != cond[1], a)
            out.append(a)
        return out

    def edges(self, e):
        """fields that are never null in an object held by field e[1] of class e[0]"""
        return [cond[1] for f, cond in self.c.get(e[0], ()) if f == e[1] and cond is not None and cond[0] == '!edge']

    @staticmethod
    def rich(L):
        """candidates about fields that depend on the discriminator of their object, initialization and values of enumerations"""
        w = WF(L)
        for c in list(w.c):
            fs = L.fields(c)
            own_ = [f for f in fs if f.own]
            for f in fs:
                if f.kind not in ('vptr', 'vec', 'set', 'str'):
                    w.c[c].add((f.name, ('!init',)))
            en = [f for f in fs if f.kind == 'int' and f.enum and '.' not in f.name]
            for d in en:
                w.c[c] |= {(d.name, ('!ne', v)) for v in L.enums[d.enum].values()}
            d = next((d for d in en if d.enum != 'StatementType'), None)
            if d is not None:
                w.c[c] |= {(f.name, (d.name, v)) for f in own_ for v in L.enums[d.enum].values()}
            for f in fs:
                x = f.elt if f.kind == 'vec' else f.own[4:-1] if f.own and f.own.startswith('vec<') else f.own
                shared = any(b != c and (c in L.subs[b] or b in L.subs[c]) and L.field(b, f.name) for b in L.subs)
                if x in w.c and x not in ('Expr', 'TableRef', 'SelectStatement') and not shared:
                    w.c[c] |= {(f.name, ('!edge', g.name)) for g in L.fields(x) if g.own}
            w.c[c] |= {(f.name, (g.name, '!null')) for f in own_ for g in own_ if f.name != g.name and 'Statement' in c}
        return w.c


class WFSink(own.Sink):
    """checks the invariants when an object is folded"""

    edge = None

    def __init__(self, wf, strict):
        self.wf, self.strict = wf, strict
        self.bad = set()

    def edgebad(self, g):
        self.bad.add((self.edge[0], self.edge[1], ('!edge', g)))

    def symbol(self, E, st, nm, typ, path):
        if self.wf is None or self.edge is None or E.fieldof.get(nm) == self.edge:
            return
        e = E.elems.get(nm)
        if e is not None and E.fieldof.get(e[0]) == self.edge:
            return
        for g in self.wf.edges(self.edge):
            if not E.valid(st, z3.Not(E.nullv(nm + "." + g))):
                self.edgebad(g)

    def slice(self, E, st, vs):
        if self.wf is None or self.edge is None or E.fieldof.get(vs) == self.edge:
            return
        for g in self.wf.edges(self.edge):
            self.edgebad(g)

    def folded(self, E, st, cls, key, path):
        if self.wf is None:
            return
        if self.edge is not None:
            for g in self.wf.edges(self.edge):
                v = own.fieldget(E, st, key, E.lay.field(cls, g).off)
                n = E.isnull(st, v) if isinstance(v, Ptr) else False if v is not sym.UNDEF else True
                if not (n is False or sym.isz(n) and E.valid(st, z3.Not(n))):
                    self.edgebad(g)
                else:
                    E.obl += self.strict
                    E.disch += self.strict
        for c in self.classes(E, st, cls, key):
            for f, cond in self.wf.c.get(c, ()):
                if cond is None or cond[0] != '!edge':
                    self.invariant(E, st, c, cls, f, cond, key)

    def classes(self, E, st, cls, key):
        """the classes whose invariants the object has to satisfy: its own, the bases, and (when its dynamic class is
        not known) every class it may have"""
        o = st.objs[key]
        out = [cls] + sorted(b for b in E.lay.subs if b != cls and cls in E.lay.subs[b] and b in self.wf.c)
        if o.lazy is not None and o.lazy[0] == 'cls' and len(E.lay.subs[cls]) > 1:
            out += sorted(d for d in st.cls.get(o.lazy[1]) or E.lay.subs[cls] if d != cls and d in E.lay.subs[cls])
        return out

    def unchanged(self, E, st, cls, f, key):
        fl = E.lay.field(cls, f)
        nm = st.objs[key].lazy[1] + "." + f
        v = own.fieldget(E, st, key, fl.off, fl.size)
        if isinstance(v, Ptr):
            return v.b == ('s', nm)
        return sym.isz(v) and z3.is_const(v) and v.decl().name() == nm

    def invariant(self, E, st, c, cls, f, cond, key):
        """cls: the class whose fields the object has here; c: the class that the invariant belongs to"""
        disc = [cond[0]] if cond is not None and cond[0][0] != '!' else []
        if c != cls and c in E.lay.subs[cls]:
            # a class the object may have: what was not touched is as it was
            here = [x for x in [f] + disc if E.lay.field(cls, x) is not None]
            if all(self.unchanged(E, st, cls, x, key) for x in here):
                return
            if len(here) < 1 + len(disc):
                self.bad.add((c, f, cond))
                return
        fl = E.lay.field(cls, f)
        if cond is not None and cond[0] in ('!init', '!ne'):
            if (c, f, cond) in self.bad:
                return
            v = own.fieldget(E, st, key, fl.off, fl.size)
            ok = v is not sym.UNDEF
            if ok and cond[0] == '!ne':
                ok = v != cond[1] if isinstance(v, int) else E.valid(st, v != cond[1]) if sym.isz(v) else False
            if ok:
                E.obl += self.strict
                E.disch += self.strict
            else:
                self.bad.add((c, f, cond))
            return
        v = own.fieldget(E, st, key, fl.off)
        if v is sym.UNDEF:
            self.bad.add((c, f, cond))
            return
        n = E.isnull(st, v) if isinstance(v, Ptr) else False
        if n is False:
            return
        ok = (not n) if isinstance(n, bool) else z3.Not(n)
        if cond is not None and cond[1] == '!null':
            d = own.fieldget(E, st, key, E.lay.field(cls, cond[0]).off)
            if not isinstance(d, Ptr):
                self.bad.add((c, f, cond))
                return
            d = E.isnull(st, d)
            if d is False:
                return
            if sym.isz(d):
                ok = z3.Or(z3.Not(d), ok if sym.isz(ok) else z3.BoolVal(ok))
        elif cond is not None:
            d = own.fieldget(E, st, key, E.lay.field(cls, cond[0]).off, 4)
            if isinstance(d, int):
                if d != cond[1]:
                    return
            elif sym.isz(d):
                ok = z3.Or(d != cond[1], ok if sym.isz(ok) else z3.BoolVal(ok))
        good = E.valid(st, ok) if sym.isz(ok) else (ok or not E.sat(st))
        if not good:
            self.bad.add((c, f, cond))
        elif self.strict:
            E.obl += 1
            E.disch += 1


def ownership_finish(T, G, R, facts, wf, strict=True, infer=False):
    from .grammar import symfields
    from .own import consume, noleak, fieldget
    from . import facts as fc

    def fin(E, s, fr, rk, way):
        sink = WFSink(wf, strict)
        obs = {}
        if way == 'yynewstate':
            vals = []
            for f in symfields(T, G, R.lhs):
                v = fieldget(E, s, fr.obj['yyvsa'], 32 + f.off, f.size)
                nm = "$$" + ("" if '.' not in f.name else "." + f.name.split('.', 1)[1])
                if v is sym.UNDEF:
                    E.fail(s, "uninit", f"{nm} is indeterminate")
                    continue
                key = fc.keyof(R.lhs, f)
                if f.kind == 'ptr':
                    if isinstance(v, Ptr):
                        obs[key] = fc.observe(E, s, v, f.own)
                    vals.append((v, f.own, nm))
                elif f.kind == 'int' and f.size == 4:
                    o = fc.Fact()
                    o.val = fc.values(E, s, v, 32)
                    obs[key] = o
            if not infer:
                for key, o in obs.items():
                    E.check(s, "contract", key in facts and fc.covered(o, facts[key]), f"the value of {key} does not satisfy the contract of the symbol")
            for v, t, nm in vals:
                sink.edge = None
                consume(E, s, v, t, nm, sink)
        elif way == 'yyerrorlab':
            pass
        else:
            E.fail(s, "control", f"the reduction ends at {way}")
        # what the result object owns stays with it
        consume_result(E, s, rk, sink)
        noleak(E, s, "reduction" if way == 'yynewstate' else "rejected reduction", ignore=[rk] + list(fr.obj.values()))
        if not infer:
            for b in sorted(sink.bad, key=str):
                E.fail(s, "invariant", f"class invariant {b} is not restored")
        return {"obs": obs, "wf": sink.bad, "way": way}
    return fin


def consume_result(E, s, rk, sink):
    for f in E.lay.fields('SQLParserResult'):
        sink.edge = None
        if f.own:
            own.consume(E, s, own.fieldget(E, s, rk, f.off), f.own, "result." + f.name, sink)
        elif f.kind == 'vec' and ('SQLParserResult', f.name) not in E.nonowning:
            v = E.vecat(s, rk, f.off)
            if v is None:
                E.fail(s, "uninit", f"result.{f.name} destroyed")
            else:
                own.consume_vec(E, s, v, f.elt, "result." + f.name, sink)


# ------------------------------------------------------------------ contracts of the grammar symbols

_W = {}


def _infer_one(a):
    num, facts, wfc = a
    T, G = _W['T'], _W['G']
    R = G.rules[num]
    wf = WF(T.L, wfc)
    r = run_unit(T, str(R), reduce_unit(T, G, R, facts, wf, ownership_finish(T, G, R, facts, wf, False, True)), 60)
    return num, r.status, r.extra, r.reason


def infer_contracts(T, G, pool=None, log=None, cands=None):
    from . import facts as fc
    from .grammar import symfields
    facts = {}
    L = T.L
    for t in ('IDENTIFIER', 'STRING'):
        for f in symfields(T, G, t):
            x = fc.Fact()
            x.null = frozenset(['nonnull'])
            facts[fc.keyof(t, f)] = x
    typed = set()
    for _, n in G.nonterms:
        if symfields(T, G, n):
            typed.add(n)
    ready = {s for s in [t[2] for t in G.terms]} | {n for _, n in G.nonterms if n not in typed}
    wf = WF(L, cands)
    todo = set(R.num for R in G.rules if R.num)
    users = {}
    for R in G.rules:
        for s in R.rhs:
            users.setdefault(s, set()).add(R.num)
    und = {}
    rounds = runs = 0
    alltodo = set(todo)
    while todo:
        rounds += 1
        batch = [n for n in sorted(todo) if all(s in ready for s in G.rules[n].rhs)]
        if not batch:
            break
        todo -= set(batch)
        runs += len(batch)
        wfchanged = set()
        changed = set()
        jobs = [(n, {k: v for k, v in facts.items() if k.split('.')[0] in G.rules[n].rhs}, wf.c) for n in batch]
        for num, status, extra, reason in (pool.imap_unordered(_infer_one, jobs, chunksize=max(1, len(jobs) // 64)) if pool else map(_infer_one, jobs)):
            R = G.rules[num]
            if status == 'undecided':
                und[num] = reason
                # nothing is known about the values of this symbol
                for f in symfields(T, G, R.lhs):
                    o = fc.Fact()
                    o.null, o.ne, o.val = frozenset(['null', 'nonnull']), False, None
                    if f.own in L.cls:
                        o.fields = {x.name: None for x in fc.cand_fields(L, f.own)}
                        o.cls = frozenset(c for c in L.subs[f.own] if c in instantiated(T) or c == f.own)
                    if facts.setdefault(fc.keyof(R.lhs, f), fc.Fact()).join(o):
                        changed.add(R.lhs)
            else:
                und.pop(num, None)
            for x in extra or ():
                for key, o in x["obs"].items():
                    if facts.setdefault(key, fc.Fact()).join(o):
                        changed.add(R.lhs)
                if x["way"] == 'yynewstate' and R.lhs not in ready:
                    changed.add(R.lhs)
                for c, f, cond in x["wf"]:
                    if (f, cond) in wf.c.get(c, ()):
                        wf.c[c] = wf.c[c] - {(f, cond)}
                        wfchanged.add(c)
        for s in changed:
            ready.add(s)
            todo |= users.get(s, set())
        if wfchanged:
            todo |= {R.num for R in G.rules if R.num and mentions(T, G, R, wfchanged)}
        if log:
            log(f"round {rounds}: {len(batch)} units, {len(changed)} symbols, {wfchanged}")
    return facts, wf, und, runs


def mentions(T, G, R, classes):
    """the unit of the rule may unfold one of the classes"""
    from .grammar import symfields
    for s in R.rhs:
        for f in symfields(T, G, s):
            t = f.own
            if t and t.startswith('vec<'):
                t = t[4:-1]
            if t in T.L.cls and (t in classes or T.L.subs[t] & classes or True):
                return True
    return False


# ------------------------------------------------------------------ discarded symbols

def destruct_units(T, G, facts, wf):
    name = next((n for n in T.M.fn_ref if T.dem.get(n, n).startswith('yydestruct(')), None)
    us = []
    from .grammar import symfields
    for s, num in sorted(G.symnum.items(), key=lambda x: x[1]):
        if symfields(T, G, s):
            us.append((f"discarded symbol {s}", destruct_unit(T, G, name, s, num, facts, wf)))
    return us


def destruct_unit(T, G, name, s, num, facts, wf):
    def run(E):
        if name is None:
            raise Unsupported("no function discards symbols")
        E.wf_hook = wf.assume
        st = State()
        val = st.alloc('stack', E.lay.cls['HSQL_STYPE'].size)
        symval(E, G, st, val, 0, s, "$$", facts)
        l = st.alloc('stack', E.lay.cls['HSQL_CUST_LTYPE'].size)
        loc(E, st, l, 0, "@$")
        args = [Ptr(('g', next(g for g in E.M.gl_ref if g.startswith('.str')))), num, Ptr(val), Ptr(l), Ptr(('s', 'result')), Ptr(('s', 'scanner'))]
        n = E.M.fn(name).nargs
        E.inlined.add(name)
        for s2, v in E.call_fn(st, name, args[:n], None):
            own.noleak(E, s2, f"discarding {s}", ignore=[val, l])
    return run
