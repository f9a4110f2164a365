"""Contracts of the printing functions: they return for every well-formed statement, read only present, owned and determined parts of
it, write nothing but the output stream, and descend the (finite, acyclic) ownership tree with every recursive call."""
import re
import z3
from . import sym, units, models, own
from .sym import Ptr, State, Str, Tm, Vec, UNDEF, Unsupported, DeadPath, simp, bv
from .models import content, use_str

STRT = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
OSTR = 'std::basic_ostream<char, std::char_traits<char> >'

# the printing interface: function, may its argument be null?
API = {"printStatementInfo": False, "printSelectStatementInfo": False, "printImportStatementInfo": False, "printExportStatementInfo": False,
       "printInsertStatementInfo": False, "printCreateStatementInfo": False, "printTransactionStatementInfo": False, "printExpression": True,
       "printOrderBy": True, "printWindowDescription": False}


def argtype(T, n):
    """(simple name, class or vector type of the first parameter) of a printing function"""
    d = T.dem.get(n, n)
    m = re.match(r'(?:\w+ )?hsql::(?:\(anonymous namespace\)::)?(\w+)\((hsql::(\w+)(?: const)?\*|std::vector<hsql::(\w+)\*, .*> > (?:const)?\*)', d)
    if not m or not T.M.defined(n):
        return None
    t = m[3] if m[3] else 'vec<%s>' % m[4]
    if m[3] and m[3] not in T.L.cls:
        return None
    return m[1], t


def callees(T, n):
    out = set()
    for B in T.M.fn(n).blocks:
        for I in B.insts:
            if I.op in ('call', 'invoke') and I.x.k == 'func':
                out.add(I.x.v)
    return out


def graph(T):
    """the functions reachable from the interface, and those on a cycle of the call graph"""
    roots = {}
    for n in T.M.fn_ref:
        a = argtype(T, n)
        if a and a[0] in API:
            roots[a[0]] = n
    g, todo = {}, list(roots.values())
    while todo:
        n = todo.pop()
        if n in g or not T.M.defined(n) or 'hsql' not in T.dem.get(n, n):
            continue
        g[n] = {c for c in callees(T, n) if T.M.defined(c) and 'hsql::' in T.dem.get(c, c) and 'std::' not in T.dem.get(c, c).split('(')[0]}
        todo += g[n]
    rec = set()
    for n in g:
        seen, st = set(), list(g[n])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += g.get(x, ())
        if n in seen:
            rec.add(n)
    return roots, g, rec


# ------------------------------------------------------------------ library contracts

def put(E, st, p, size, v, I):
    key, off = E.key(st, p, I, "write")
    o = st.w(key)
    o.dirty = True
    E.clear(o, off, size)
    o.cells[off] = (size, v)


def out(E, name, d):
    def value(E, st, v, what, I):
        if v is UNDEF:
            E.fail(st, "uninit", f"an indeterminate {what} is printed", I)
            raise DeadPath()
    if re.match(re.escape(OSTR) + r'::operator<<\((bool|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|long double)\)', d):
        def h(E, st, a, I):
            value(E, st, a[1], "number", I)
            return [(st, a[0])]
        return h
    if re.match(re.escape(OSTR) + r'::operator<<\(' + re.escape(OSTR) + r'& \(\*\)', d) or re.match(r'std::ostream::flush|' + re.escape(OSTR) + r'::flush', d):
        return lambda E, st, a, I: [(st, a[0])]
    if re.match(re.escape(OSTR) + r'& std::(endl|flush|ends)<', d):
        return lambda E, st, a, I: [(st, a[0])]
    if re.match(re.escape(OSTR) + r'& std::operator<< ?<.*>\(' + re.escape(OSTR) + r'&, (un)?(signed )?char\)', d) or re.match(re.escape(OSTR) + r'::put\(|std::ostream::put\(', d):
        def h(E, st, a, I):
            value(E, st, a[1], "character", I)
            return [(st, a[0])]
        return h
    if re.match(re.escape(OSTR) + r'& std::operator<< ?<.*>\(' + re.escape(OSTR) + r'&, char const\*\)', d):
        def h(E, st, a, I):
            value(E, st, a[1], "string", I)
            use_str(E, st, a[1], I, "printing")
            return [(st, a[0])]
        return h
    if re.match(re.escape(OSTR) + r'& std::operator<< ?<.*>\(' + re.escape(OSTR) + r'&, ' + re.escape(STRT), d):
        def h(E, st, a, I):
            getstr(E, st, a[1], I)
            return [(st, a[0])]
        return h
    if re.match(r'std::__cxx11::basic_o?stringstream<char, .*>::basic_o?stringstream\(\)', d):
        def h(E, st, a, I):
            key, off = E.key(st, a[0], I, "write")
            st.notes['sstream:%s:%s' % (key[1], off)] = True
            # the output base is a part of the object at an unknown offset: pointers into the object stand for it
            return [(st, None)]
        return h
    if re.match(r'std::__cxx11::basic_o?stringstream<char, .*>::~basic_o?stringstream\(\)', d):
        return lambda E, st, a, I: [(st, None)]
    if re.match(r'std::__cxx11::basic_o?stringstream<.*>::str\(\) const', d):
        def h(E, st, a, I):
            put(E, st, a[0], 32, Str(Tm("printed", E_next(E))), I)
            return [(st, None)]
        return h
    return None


def E_next(E):
    E.nprinted = getattr(E, 'nprinted', 0) + 1
    return E.nprinted


def getstr(E, st, p, I):
    if isinstance(p, Ptr) and p.b is not None and p.b[0] == 's' and p.b[1].startswith('mapnode:'):
        return
    key, off = E.key(st, p, I, "string access")
    c = st.objs[key].cells.get(off)
    if c is None or not isinstance(c[1], Str):
        E.fail(st, "uninit", "use of a string that was not constructed", I)
        raise DeadPath()


def mapm(E, name, d):
    """std::map as a read-only dictionary with unknown contents: a find yields an element or the end"""
    if re.match(r'std::map<.*>::map\(', d) or re.match(r'std::map<.*>::~map\(', d):
        return lambda E, st, a, I: [(st, None)]
    if re.match(r'std::pair<.*>::~?pair<?', d) and ('basic_string' in d) or (name.startswith('_ZNSt4pair') and 'C2' in name):
        return lambda E, st, a, I: [(st, None)]
    if re.match(r'std::map<.*>::c?end\(\) const|std::map<.*>::end\(\)', d):
        return lambda E, st, a, I: [(st, Ptr(('s', 'mapend')))]
    if re.match(r'std::map<.*>::find\(', d):
        def h(E, st, a, I):
            E.load(st, a[1], 4, models.I32, I)
            nm = 'mapnode:%d' % E_next(E)
            t = st.clone()
            return [(st, Ptr(('s', nm))), (t, Ptr(('s', 'mapend')))]
        return h
    if re.match(r'std::(_Rb_tree_const_iterator|_Rb_tree_iterator)<.*>::operator(\*|->)\(\) const', d):
        def h(E, st, a, I):
            v = E.load(st, a[0], 8, P8, I)
            if not (isinstance(v, Ptr) and v.b and v.b[0] == 's' and v.b[1].startswith('mapnode:')):
                E.fail(st, "dangling", "the end of a map is dereferenced", I)
                raise DeadPath()
            return [(st, v)]
        return h
    if re.match(r'(bool )?std::operator(==|!=) ?(<.*>)?\(std::_Rb_tree_(const_)?iterator', d):
        neg = 'operator!=' in d

        def h(E, st, a, I):
            x, y = E.load(st, a[0], 8, P8, I), E.load(st, a[1], 8, P8, I)
            r = x.b == y.b
            return [(st, 1 if r != neg else 0)]
        return h
    if re.match(r'std::map<.*>::(count|empty|size)\(', d):
        return lambda E, st, a, I: [(st, z3.BitVec('map:%d' % E_next(E), 64 if 'empty' not in d else 1))]
    return None


class _P8:
    k, w, size = 'ptr', 64, 8


P8 = _P8()


def strm(E, name, d):
    d = d.replace(STRT, 'STR')
    if re.match(r'STR::basic_string(<.*>)?\(unsigned long, char, ', d):
        def h(E, st, a, I):
            if a[1] is UNDEF:
                E.fail(st, "uninit", "a string of indeterminate length is constructed", I)
                raise DeadPath()
            put(E, st, a[0], 32, Str(Tm("repeat", a[1], a[2])), I)
            return [(st, None)]
        return h
    return None


def guard(E, name):
    if name == '__cxa_guard_acquire':
        def h(E, st, a, I):
            t = st.clone()
            return [(st, 1), (t, 0)]
        return h
    if name in ('__cxa_guard_release', '__cxa_atexit'):
        return lambda E, st, a, I: [(st, 0)]
    return None


def lib(E, name):
    r = guard(E, name)
    if r:
        return r
    d = E.dem.get(name, name)
    if 'std::' not in d or d.startswith('hsql::'):
        return None
    return out(E, name, d) or strm(E, name, d) or mapm(E, name, d)


# ------------------------------------------------------------------ contracts

def descend(E, st, fn, root, p, rank):
    """a recursive call works on a smaller part of the tree, or on the same part at a lower rank"""
    if not (isinstance(p, Ptr) and p.b is not None and p.b[0] == 's'):
        raise Unsupported("argument of a recursive call")
    nm = p.b[1]
    x = nm
    seen = 0
    while x is not None and seen < 50:
        seen += 1
        if x == root:
            return nm != root or rank
        if x in E.elems:
            x = E.elems[x][0]
            continue
        par = E.parent.get(x)
        x = par if par is not None else (x.rsplit('.', 1)[0] if '.' in x else None)
    return None


def contract(T, info, nonnull):
    """contract of a recursive function"""
    def make(n):
        name, typ = info[n]

        def h(E, st, a, I):
            p = a[0]
            if p is UNDEF:
                E.fail(st, "uninit", f"{name} is called with an indeterminate pointer", I)
                raise DeadPath()
            nl = E.isnull(st, p)
            if n in nonnull:
                E.check(st, "null", z3.Not(nl) if sym.isz(nl) else not nl, f"{name} is called with a null pointer", I)
            if nl is True:
                return [(st, None)]
            dec = E.decide(st, nl) if sym.isz(nl) else False
            if dec is True:
                return [(st, None)]
            q = Ptr(p.b, p.o)
            if p.b is not None and p.b[0] == 'o':
                k = p.b
                lz = st.objs[k].lazy if k in st.objs else None
                nm = next((x for x, kk in st.mat.items() if kk == k), None)
                if nm is None:
                    raise Unsupported("argument of a recursive call")
                q = Ptr(('s', nm), p.o)
            if not (isinstance(q.o, int) and q.o == 0):
                raise Unsupported("argument of a recursive call")
            ct = st.borrow.get(q.b[1]) or E.own_type(st, q.b[1])
            if q.b[1] not in st.mat and ct is None:
                E.take(st, q.b[1])
                ct = st.borrow.get(q.b[1]) or E.own_type(st, q.b[1])
            if ct is None:
                E.fail(st, "dangling", f"{name} is called with a pointer to something that does not belong to the statement ({q.b[1]})", I)
                raise DeadPath()
            ok = ct == typ or typ in E.lay.subs and ct in E.lay.subs[typ] or ct in E.lay.subs and typ in E.lay.subs[ct] and q.b[1] in st.cls and all(c in E.lay.subs[typ] for c in st.cls[q.b[1]])
            E.check(st, "type", ok, f"{name} is called with a {ct}", I)
            r = descend(E, st, n, E.root, q, None)
            if r is None and q.b[1] == E.root:
                E.samecalls.add(n)
                r = True
            E.check(st, "termination", bool(r), f"{name} is called for something that is not a part of the argument ({q.b[1]}): the recursion may not end", I)
            return [(st, None)]
        return h
    return make


def unit(T, n, info, rec, nonnull, hook, rootnull, cls=None):
    name, typ = info[n]

    def run(E):
        E.models.insert(0, lib)
        E.wf_hook = hook(E) if hook else None
        E.root, E.rootfn, E.samecalls = 'arg', n, set()
        mk = contract(T, info, nonnull)
        for c in rec:
            if c != n:
                E.contracts[c] = mk(c)
        selfc = mk(n)
        first = [True]

        def entry(E, st, a, I):
            if first[0]:
                first[0] = False
                E.inlined.add(n)
                return E.call_fn(st, n, a, I)
            return selfc(E, st, a, I)
        E.contracts[n] = entry
        st = State()
        st.borrow['arg'] = cls or typ
        if cls:
            st.cls['arg'] = frozenset([cls])
        elif typ in E.lay.cls and E.lay.poly(typ):
            st.cls['arg'] = frozenset(c for c in E.lay.subs[typ] if E.concrete(c))
        if not rootnull:
            E.assume(st, z3.Not(E.nullv('arg')))
        outs = entry(E, st, [Ptr(('s', 'arg'))] + [z3.BitVec(f"p{i}", 64) for i in range(1, T.M.fn(n).nargs)], None)
        if not outs:
            E.fail(st, "termination", f"{name} never returns")
        for s, v in outs:
            own.noleak(E, s, name)
            w = [x for x in s.log if isinstance(x, tuple) and x and x[0] == 'gwrite' and not x[1].startswith('_ZGV')]
            E.check(s, "frame", not w, f"{name} writes the global {w[0][1] if w else ''}")
        return sorted((n, c) for c in E.samecalls)
    return run


def reductions(ctx, facts, wf):
    """the invariants are established and kept by every reduction"""
    T, G = ctx.T, ctx.G
    us = []
    for R in G.rules:
        if R.num:
            us.append((f"invariants kept by {R}", invariant_unit(T, G, R, facts, wf), {"prods": [(R.lhs, tuple(R.rhs))]}))
    return us


def invariant_unit(T, G, R, facts, wf):
    fin = units.ownership_finish(T, G, R, facts, wf)

    def finish(E, s, fr, rk, way):
        n = len(E.fails)
        r = fin(E, s, fr, rk, way)
        del E.fails[n:]
        bad = [b for b in r["wf"]]
        E.check(s, "invariant", not bad, "; ".join(f"{c}.{f} {describe(k)}" for c, f, k in bad[:3]))
        return r
    f = units.reduce_unit(T, G, R, facts, wf, finish)

    def run(E):
        r = f(E)
        # memory safety of the actions is the subject of C01: only the invariants are counted here
        E.fails[:] = [x for x in E.fails if x["kind"] == "invariant"]
        E.kinds = {k: v for k, v in E.kinds.items() if k == "invariant"}
        E.obl = E.kinds.get("invariant", 0)
        E.disch = E.obl - len(E.fails)
        return None
    return run


def describe(k):
    if k is None:
        return "is null"
    if k[0] == '!init':
        return "is indeterminate"
    if k[0] == '!ne':
        return f"has the value {k[1]}"
    if k[0] == '!edge':
        return f"holds an object whose {k[1]} is null"
    if k[1] == '!null':
        return f"and {k[0]} are both null"
    return f"is null although {k[0]} is {k[1]}"


def infer(ctx):
    import multiprocessing as mp
    T, G = ctx.T, ctx.G
    units._W.update(T=T, G=G)
    units.instantiated(T)
    with mp.Pool(ctx.workers) as P:
        return units.infer_contracts(T, G, P, cands=units.WF.rich(T.L))


def mkhook(T, wf):
    rich = units.WF.rich(T.L)
    undef = {c: [f for f, k in rich[c] if k == ('!init',) and (f, k) not in wf.c[c]] for c in rich}

    class H:
        def __init__(self, E):
            self.E = E

        def edges(self, e):
            return wf.edges(e)

        def hook(self, st, name, cls):
            k = st.mat[name]
            for f in undef.get(cls, ()):
                fl = T.L.field(cls, f)
                st.objs[k].cells[fl.off] = (fl.size, UNDEF)
            return wf.assume(st, name, cls)
    return lambda E: H(E).hook


def stage(ctx):
    from . import check
    T = ctx.T
    facts, wf, und, runs = infer(ctx)
    us = reductions(ctx, facts, wf)
    roots, g, rec = graph(T)
    info = {n: argtype(T, n) for n in g if argtype(T, n)}
    hook = mkhook(T, wf)
    rec = {n for n in rec}
    targets = set(roots.values()) | (rec & set(info))
    # may the argument be null? (optimistic for functions outside of the interface, verified for all)
    nonnull = set()
    for rnd in range(6):
        probe = [(n, unit(T, n, info, rec & set(info), nonnull, hook, True), {}) for n in sorted(targets - nonnull)]
        rs = check.run_units(ctx, probe)
        bad = {n for (n, f, a), r in zip(probe, rs) if r.status == 'failed'}
        if not bad:
            break
        nonnull |= bad
    for n in sorted(targets):
        nm, typ = info[n]
        if n in rec:
            us.append((f"{nm}: contract (argument {'not null' if n in nonnull else 'may be null'})", unit(T, n, info, rec & set(info), nonnull, hook, n not in nonnull), {}))
        elif typ in T.L.cls and T.L.poly(typ) and len(T.L.subs[typ]) > 1:
            for c in sorted(c for c in T.L.subs[typ] if c in units.instantiated(T)):
                us.append((f"{nm} of a {c}", unit(T, n, info, rec & set(info), nonnull, hook, False, c), {}))
        else:
            us.append((f"{nm}: contract", unit(T, n, info, rec & set(info), nonnull, hook, n not in nonnull and API.get(nm, False)), {}))
    rs = check.run_units(ctx, us)
    # recursive calls on the same part of the tree must not form a cycle
    same = {}
    for r in rs:
        for a, b in getattr(r, 'same', None) or ():
            same.setdefault(a, set()).add(b)
    r = units.Result("printing: recursion descends")
    r.obl = 1

    def reach(a, seen):
        for b in same.get(a, ()):
            if b not in seen:
                seen.add(b)
                reach(b, seen)
        return seen
    cyc = [a for a in same if a in reach(a, set())]
    if cyc:
        r.status = 'failed'
        r.fails = [{"kind": "termination", "msg": "recursive calls for the same part of the statement: " + ", ".join(T.dem[x][:60] for x in cyc), "inst": None}]
    else:
        r.disch = 1
    rs.append(r)
    for nm in API:
        if nm not in roots:
            x = units.Result(f"{nm}: contract")
            x.status, x.reason = 'undecided', "the function is not defined in this form"
            rs.append(x)
    return rs
