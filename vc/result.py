"""Contracts of SQLParserResult. The state of a result is what its accessors return; every method is verified for an arbitrary result."""
import z3
from . import own, sym
from .sym import Ptr, Vec, State, Tm, UNDEF, ZERO, Unsupported, isz, simp, bv, veq, tobool

C = 'SQLParserResult'
Q = 'hsql::SQLParserResult::'
OBS = [('valid', 'isValid() const', 'bool'), ('msg', 'errorMsg() const', 'ptr'), ('line', 'errorLine() const', 'int'), ('column', 'errorColumn() const', 'int'),
       ('statements', 'getStatements() const', 'vec'), ('parameters', 'parameters()', 'vec'), ('size', 'size() const', 'size')]


def fn(T, sig):
    n = T.undem.get(Q + sig)
    if n is None and sig.endswith(' const'):
        n = T.undem.get(Q + sig[:-6])
    elif n is None:
        n = T.undem.get(Q + sig + ' const')
    if n is None or not T.M.defined(n):
        raise Unsupported("no function " + Q + sig)
    return n


def make(E, st, nm):
    """an arbitrary result that owns its statements and message"""
    k = ('o', nm)
    o = sym.Obj()
    o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = 'ext', E.lay.cls[C].size, C, {}, ('cls', nm, C), st.sid, True, False
    st.objs[k] = o
    for f in E.lay.fields(C):
        if f.own:
            st.own[nm + '.' + f.name] = f.own
        elif f.kind == 'vec':
            if (C, f.name) in E.nonowning:
                st.borrow[nm + '.' + f.name] = 'vec<' + f.elt + '>'
            else:
                st.osl[nm + '.' + f.name] = ((0, E.veclen(st, nm + '.' + f.name)),)
                E.vectypes[nm + '.' + f.name] = f.elt
    if E.lay.poly(C):
        st.cls[nm] = frozenset([C])
    return k


def raw(E, st, nm):
    """memory for a result"""
    k = ('o', nm)
    o = sym.Obj()
    o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = 'ext', E.lay.cls[C].size, None, {}, None, st.sid, True, False
    st.objs[k] = o
    return k


def observe(E, s, k):
    """what the accessors return; they change nothing"""
    d = {}
    for nm, sig, kind in OBS:
        t = s.clone()
        rs = [r for r in E.call_fn(t, fn(E.T, sig), [Ptr(k)], None)]
        E.inlined.add(fn(E.T, sig))
        if len(rs) != 1:
            raise Unsupported("accessor with several outcomes")
        t, v = rs[0]
        if kind == 'vec':
            if not isinstance(v, Ptr) or v.b is None:
                raise Unsupported("accessor of a list")
            vv = E.vecat(t, v.b, v.o)
            if vv is None:
                E.fail(s, "uninit", f"{sig} is not a list")
                vv = Vec('?')
            E.norm(t)
            v = E.vecat(t, v.b, v.o) or vv
        d[nm] = v
    return d


def same(E, s, a, b, kind):
    if a is UNDEF or b is UNDEF:
        return False
    if kind == 'ptr':
        if a is ZERO:
            a = Ptr(None, 0)
        if b is ZERO:
            b = Ptr(None, 0)
        if a == b:
            return True
        r = E.ptreq(s, a, b)
        return E.valid(s, r) if isz(r) else bool(r)
    if kind == 'vec':
        return samevec(E, s, a, b)
    w = {'bool': 1, 'int': 32, 'size': 64}[kind]
    if kind == 'bool':
        a, b = tobool(a), tobool(b)
        f = simp((a if isz(a) else z3.BoolVal(a)) == (b if isz(b) else z3.BoolVal(b)))
    else:
        f = simp(bv(a, w) == bv(b, w))
    return E.valid(s, f) if isz(f) else bool(f)


def samevec(E, s, a, b):
    def flat(v):
        out = []
        for g in v.segs:
            if g[0] == 's' and E.valid(s, bv(g[2], 64) == bv(g[3], 64)):
                continue
            out.append(g)
        return out
    x, y = flat(a), flat(b)
    if len(x) != len(y):
        return False
    for g, h in zip(x, y):
        if g[0] != h[0]:
            return False
        if g[0] == 'e':
            if not same(E, s, g[1], h[1], 'ptr'):
                return False
        elif g[0] == 's':
            if g[1] != h[1] or not E.valid(s, z3.And(bv(g[2], 64) == bv(h[2], 64), bv(g[3], 64) == bv(h[3], 64))):
                return False
        elif g != h:
            return False
    return True


NEW = {'valid': 0, 'msg': Ptr(None, 0), 'line': 0xffffffff, 'column': 0xffffffff, 'statements': Vec('SQLStatement'), 'parameters': Vec('Expr'), 'size': 0}


def expect(E, s, k, want, what):
    got = observe(E, s, k)
    for nm, sig, kind in OBS:
        if nm in want:
            E.check(s, "value", same(E, s, got[nm], want[nm], kind), f"after {what}: {sig} is {show(got[nm])}, expected {show(want[nm])}")


def show(v):
    if isinstance(v, Vec):
        return "[" + ", ".join(str(g[1]) if g[0] == 'e' else f"{g[1]}[{g[2]}..{g[3]})" for g in v.segs)[:120] + "]"
    return str(v)[:80]


def owned_by(E, s, k, what):
    """the result still owns exactly its statements and message"""
    if k not in s.objs:
        E.fail(s, "ownership", f"after {what}: the object itself is released")
        return
    for f in E.lay.fields(C):
        if f.own:
            own.consume(E, s, own.fieldget(E, s, k, f.off), f.own, f.name)
        elif f.kind == 'vec' and (C, f.name) not in E.nonowning:
            v = E.vecat(s, k, f.off)
            if v is None:
                E.fail(s, "uninit", f"{f.name} is not a list")
            else:
                own.consume_vec(E, s, v, f.elt, f.name)


def done(E, s, what, *ks):
    for k in ks:
        owned_by(E, s, k, what)
    own.noleak(E, s, what, ignore=list(ks))


def call(E, st, sig, args):
    n = fn(E.T, sig)
    E.inlined.add(n)
    rs = E.call_fn(st, n, args, None)
    rs = [(s, v) for s, v in rs if E.sat(s)]
    if not rs:
        E.fail(st, "control", f"{sig} does not return")
    return rs


def stmt(st, E, nm='stmt'):
    st.own[nm] = 'SQLStatement'
    E.assume(st, z3.Not(E.nullv(nm)))
    return Ptr(('s', nm))


def cat(v, p):
    return Vec(v.et, v.segs + (('e', p),))


def u_ctor(E):
    st = State()
    k = raw(E, st, 'r')
    for s, v in call(E, st, C + '()', [Ptr(k)]):
        expect(E, s, k, NEW, "construction")
        done(E, s, "construction", k)


def u_ctor_stmt(E):
    st = State()
    k = raw(E, st, 'r')
    p = stmt(st, E)
    for s, v in call(E, st, C + '(hsql::SQLStatement*)', [Ptr(k), p]):
        expect(E, s, k, {**NEW, 'statements': cat(NEW['statements'], p), 'size': 1}, "construction from a statement")
        done(E, s, "construction from a statement", k)


def u_add(E):
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    p = stmt(st, E)
    for s, v in call(E, st, 'addStatement(hsql::SQLStatement*)', [Ptr(k), p]):
        expect(E, s, k, {**o, 'statements': cat(o['statements'], p), 'size': simp(bv(o['size'], 64) + 1)}, "addStatement")
        done(E, s, "addStatement", k)


def u_valid(E):
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    b = z3.BitVec('b', 1)
    for s, v in call(E, st, 'setIsValid(bool)', [Ptr(k), b]):
        expect(E, s, k, {**o, 'valid': b == 1}, "setIsValid")
        done(E, s, "setIsValid", k)


def u_error(E):
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    st.own['message'] = 'char'
    m, l, c = Ptr(('s', 'message')), z3.BitVec('l', 32), z3.BitVec('c', 32)
    for s, v in call(E, st, 'setErrorDetails(char*, int, int)', [Ptr(k), m, l, c]):
        expect(E, s, k, {**o, 'msg': m, 'line': l, 'column': c}, "setErrorDetails")
        done(E, s, "setErrorDetails", k)


def u_release(E):
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    ret = ('o', 'ret')
    x = sym.Obj()
    x.kind, x.size, x.cls, x.cells, x.lazy, x.sid, x.dirty, x.ro = 'ext', 24, None, {}, None, st.sid, True, False
    st.objs[ret] = x
    for s, v in call(E, st, 'releaseStatements()', [Ptr(ret), Ptr(k)]):
        E.norm(s)
        rv = E.vecat(s, ret, 0)
        E.check(s, "value", rv is not None and samevec(E, s, rv, o['statements']), f"releaseStatements returns {show(rv)}")
        expect(E, s, k, {n: o[n] for n in ('valid', 'msg', 'line', 'column')} | {'statements': NEW['statements'], 'size': 0}, "releaseStatements")
        owned_by(E, s, k, "releaseStatements")
        if rv is not None:
            own.consume_vec(E, s, rv, 'SQLStatement', "the released statements")
        own.noleak(E, s, "releaseStatements", ignore=[k, ret])


def u_reset(E):
    st = State()
    k = make(E, st, 'r')
    for s, v in call(E, st, 'reset()', [Ptr(k)]):
        expect(E, s, k, NEW, "reset")
        done(E, s, "reset", k)


def u_dtor(variant):
    def run(E):
        st = State()
        names = [n for n in E.T.M.fn_ref if n == f'_ZN4hsql15SQLParserResultD{variant}Ev' and E.T.M.defined(n)]
        if not names:
            raise Unsupported("no destructor")
        k = make(E, st, 'r')
        if variant == 0:
            st.objs[k].kind = 'new'
        E.bodies.add((C, names[0]))
        E.inlined.add(names[0])
        for s, v in E.call_fn(st, names[0], [Ptr(k)], None):
            if variant == 0:
                E.check(s, "ownership", k not in s.objs, "deleting a result leaves its memory")
                own.noleak(E, s, "deletion")
            else:
                E.check(s, "ownership", k in s.objs, "the destructor releases the object itself")
                own.noleak(E, s, "destruction", ignore=[k])
    return run


def u_move_ctor(E):
    st = State()
    src = make(E, st, 's')
    o = observe(E, st, src)
    k = raw(E, st, 'r')
    for s, v in call(E, st, C + '(hsql::SQLParserResult&&)', [Ptr(k), Ptr(src)]):
        expect(E, s, k, o, "move construction (target)")
        expect(E, s, src, NEW, "move construction (source)")
        done(E, s, "move construction", k, src)


def u_move_assign(E):
    st = State()
    src = make(E, st, 's')
    k = make(E, st, 'r')
    o = observe(E, st, src)
    for s, v in call(E, st, 'operator=(hsql::SQLParserResult&&)', [Ptr(k), Ptr(src)]):
        E.check(s, "value", v == Ptr(k), "move assignment does not return the target")
        expect(E, s, k, o, "move assignment (target)")
        expect(E, s, src, NEW, "move assignment (source)")
        done(E, s, "move assignment", k, src)


def u_self_assign(E):
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    for s, v in call(E, st, 'operator=(hsql::SQLParserResult&&)', [Ptr(k), Ptr(k)]):
        expect(E, s, k, o, "self assignment")
        done(E, s, "self assignment", k)


def u_get(sig):
    def run(E):
        st = State()
        k = make(E, st, 'r')
        o = observe(E, st, k)
        i = z3.BitVec('i', 64)
        st.pc.append(z3.ULT(i, bv(o['size'], 64)))
        want = Ptr(('vb', k, 0), 0)
        for s, v in call(E, st, sig, [Ptr(k), i]):
            e = o['statements'].segs
            if len(e) != 1 or e[0][0] != 's':
                raise Unsupported("statements")
            p = E.elem(s, e[0][1], i, 'SQLStatement')
            E.check(s, "value", isinstance(v, Ptr) and same(E, s, v, p, 'ptr'), f"{sig} at i returns {show(v)}, expected {show(p)}")
            expect(E, s, k, o, sig)
    return run


def u_sizes(E):
    """the accessors agree with each other and change nothing"""
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    E.check(st, "value", same(E, st, o['size'], E.vlen(o['statements']), 'size'), "size() is the number of statements")
    for nm, sig, kind in OBS:
        t = st.clone()
        for s, v in call(E, t, sig, [Ptr(k)]):
            expect(E, s, k, o, sig)
            done(E, s, sig, k)


def u_param(E):
    """one more parameter, numbered behind the others"""
    from .units import sort_model, bound_model
    E.sort_model, E.bound_model, E.sort_fail = sort_model, bound_model, True
    st = State()
    k = make(E, st, 'r')
    o = observe(E, st, k)
    f = E.lay.field('Expr', 'ival')
    vs = o['parameters'].segs
    if len(vs) != 1 or vs[0][0] != 's' or f is None:
        raise Unsupported("parameters")
    nm = vs[0][1]
    st.borrow['p'] = 'Expr'
    st.pc.append(z3.Not(E.nullv('p')))
    n = E.vlen(o['parameters'])
    # the numbers of the listed parameters ascend and lie below that of the new one
    kk = z3.BitVec("each:" + nm, 64)
    st.notes[('each', nm)] = (0, n, {f.off: (8, kk)})
    st.pc.append(z3.BitVec('p.ival', 64) >= bv(n, 64))
    st.pc.append(z3.ULT(bv(n, 64), z3.BitVecVal(1 << 31, 64)))
    for s, v in call(E, st, 'addParameter(hsql::Expr*)', [Ptr(k), Ptr(('s', 'p'))]):
        expect(E, s, k, {**o, 'parameters': cat(o['parameters'], Ptr(('s', 'p')))}, "addParameter")
        done(E, s, "addParameter", k)


MEMORY = [("SQLParserResult()", u_ctor), ("SQLParserResult(SQLStatement*)", u_ctor_stmt), ("addStatement", u_add), ("setIsValid", u_valid), ("setErrorDetails", u_error), ("releaseStatements", u_release),
          ("reset", u_reset), ("~SQLParserResult [object]", u_dtor(2)), ("~SQLParserResult [deleting]", u_dtor(0)), ("move construction", u_move_ctor), ("move assignment", u_move_assign), ("self assignment", u_self_assign)]
LOOKUP = [("getStatement", u_get('getStatement(unsigned long) const')), ("getMutableStatement", u_get('getMutableStatement(unsigned long)')), ("accessors", u_sizes)]
PARAMS = [("addParameter", u_param), ("accessors", u_sizes)]
UNITS = {"C01": MEMORY, "C02": MEMORY + LOOKUP, "C12": PARAMS}


def ignoring(f, kinds):
    def run(E):
        E.ignored = kinds
        return f(E)
    return run


def freezing(f):
    """what a result holds is passed on, not changed"""
    def run(E):
        E.frozen = FROZEN
        return f(E)
    return run


FROZEN = ('r.', 'after.', 'moved.', 'other.', 'stmt', 'target.', 'source.')


def stage(prop):
    def run(ctx):
        from . import check
        return check.run_units(ctx, [("result: " + n, ignoring(f, ('value',)) if prop == "C01" else freezing(f), {}) for n, f in UNITS[prop]])
    run.__name__ = "result"
    return run
