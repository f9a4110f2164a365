"""Contracts of the value helpers: comparison and output of column types, predicates and accessors of statements, expressions and tables."""
import re
import z3
from . import sym, own, printing
from .sym import Ptr, State, Str, Tm, UNDEF, Unsupported, DeadPath, simp, bv, tobool
from .models import content, use_str

LITERALS = ("kExprLiteralInt", "kExprLiteralFloat", "kExprLiteralString", "kExprParameter", "kExprLiteralNull", "kExprLiteralDate", "kExprLiteralInterval")


def find(T, *sigs):
    for s in sigs:
        n = T.undem.get(s)
        if n is not None and T.M.defined(n):
            return n
    raise Unsupported("no function " + sigs[0])


def call(E, st, n, args):
    E.inlined.add(n)
    outs = E.call_fn(st, n, args, None)
    if not outs:
        E.fail(st, "termination", "the function never returns")
    for s, v in outs:
        w = [x for x in s.log if isinstance(x, tuple) and x and x[0] == 'gwrite' and not x[1].startswith('_ZGV')]
        E.check(s, "frame", not w, f"a global is written: {w[0][1] if w else ''}")
        own.noleak(E, s, "call")
    return outs


def obj(E, st, name, cls):
    st.borrow[name] = cls
    st.cls[name] = frozenset([cls])
    E.assume(st, z3.Not(E.nullv(name)))
    return Ptr(('s', name))


def fld(T, name, cls, f):
    fl = T.L.field(cls, f)
    if fl is None:
        raise Unsupported(f"no field {cls}.{f}")
    if fl.kind == 'ptr':
        return z3.Bool(f"null:{name}.{f}")
    return z3.BitVec(f"{name}.{f}", 8 * fl.size)


def truth(E, s, v, want, what):
    """a returned bool is the wanted formula"""
    if v is UNDEF:
        E.fail(s, "uninit", what + ": the result is indeterminate")
        return
    r = tobool(v)
    r = r if sym.isz(r) else z3.BoolVal(bool(r))
    E.check(s, "value", simp(r == want), what)


# ------------------------------------------------------------------ column types

EQ = "hsql::operator{}(hsql::ColumnType const&, hsql::ColumnType const&)"
FIELDS = ("data_type", "length", "precision", "scale")


def u_eq(op):
    def run(E):
        st = State()
        a, b = obj(E, st, 'lhs', 'ColumnType'), obj(E, st, 'rhs', 'ColumnType')
        same = z3.And(*[fld(E.T, 'lhs', 'ColumnType', f) == fld(E.T, 'rhs', 'ColumnType', f) for f in FIELDS])
        for s, v in call(E, st, find(E.T, EQ.format(op)), [a, b]):
            truth(E, s, v, same if op == '==' else z3.Not(same), f"a {op} b is true exactly when type, length, precision and scale are " + ("all equal" if op == '==' else "not all equal"))
    return run


def u_eq_self(op):
    def run(E):
        st = State()
        a = obj(E, st, 'lhs', 'ColumnType')
        for s, v in call(E, st, find(E.T, EQ.format(op)), [a, a]):
            truth(E, s, v, z3.BoolVal(op == '=='), f"a {op} a is {'true' if op == '==' else 'false'}")
    return run


def u_ctor(E):
    T = E.T
    n = next((n for d, n in T.undem.items() if re.match(r'hsql::ColumnType::ColumnType\(hsql::DataType, long, long, long\)$', d)), None)
    if n is None:
        raise Unsupported("constructor of a column type")
    n = next((x for x in T.M.fn_ref if x.startswith('_ZN4hsql10ColumnTypeC1') and T.M.defined(x) or x == n and T.M.defined(x)), n)
    st = State()
    k = st.alloc('stack', T.L.cls['ColumnType'].size)
    vs = [z3.BitVec('data_type', 32)] + [z3.BitVec(x, 64) for x in FIELDS[1:]]
    for s, v in call(E, st, n, [Ptr(k)] + vs):
        for f, want in zip(FIELDS, vs):
            fl = T.L.field('ColumnType', f)
            x = own.fieldget(E, s, k, fl.off, fl.size)
            if sym.isz(x) and x.size() < want.size():
                ok = z3.Or(z3.SignExt(want.size() - x.size(), x) == want, z3.ZeroExt(want.size() - x.size(), x) == want)
            else:
                ok = x is not UNDEF and (x == want if sym.isz(x) or isinstance(x, int) else None)
            E.check(s, "value", simp(ok) if sym.isz(ok) else bool(ok), f"the column type has the {f} it was constructed with")


# ---- output

def items(t):
    """flat sequence of literal texts and numbers"""
    if isinstance(t, Tm) and t.op == 'cat':
        return items(t.a[0]) + items(t.a[1])
    if isinstance(t, Tm) and t.op.startswith('lit:'):
        return [t.op[4:]] if t.op[4:] else []
    return [t]


def joined(l):
    out = []
    for x in l:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def emit(st, x):
    st.notes['out'] = st.notes.get('out', ()) + tuple(x)


def olib(E, name):
    d = E.dem.get(name, name)
    if 'std::' not in d or d.startswith('hsql::'):
        return None
    O = re.escape(printing.OSTR)
    if re.match(O + r'::operator<<\((short|int|long|long long|unsigned int|unsigned long|unsigned long long)\)', d):
        def h(E, st, a, I):
            if a[1] is UNDEF:
                E.fail(st, "uninit", "an indeterminate number is written", I)
                raise DeadPath()
            x = simp(bv(a[1], 64)) if not sym.isz(a[1]) or a[1].size() == 64 else Tm("narrow", a[1])
            emit(st, [Tm("num", x)])
            return [(st, a[0])]
        return h
    if re.match(O + r'& std::operator<< ?<.*>\(' + O + r'&, char\)', d):
        def h(E, st, a, I):
            emit(st, [chr(a[1])] if isinstance(a[1], int) else [Tm("char", a[1])])
            return [(st, a[0])]
        return h
    if re.match(O + r'& std::operator<< ?<.*>\(' + O + r'&, char const\*\)', d):
        def h(E, st, a, I):
            use_str(E, st, a[1], I, "printing")
            emit(st, items(content(E, st, a[1])))
            return [(st, a[0])]
        return h
    if re.match(O + r'& std::operator<< ?<.*>\(' + O + r'&, ' + re.escape(printing.STRT), d):
        def h(E, st, a, I):
            key, off = E.key(st, a[1], I, "string access")
            c = st.objs[key].cells.get(off)
            if c is None or not isinstance(c[1], Str):
                E.fail(st, "uninit", "use of a string that was not constructed", I)
                raise DeadPath()
            emit(st, items(c[1].v))
            return [(st, a[0])]
        return h
    if re.match(r'std::__cxx11::to_string\((int|long|long long)\)', d):
        def h(E, st, a, I):
            printing.put(E, st, a[0], 32, Str(Tm("num", simp(bv(a[1], 64)) if not sym.isz(a[1]) or a[1].size() == 64 else Tm("narrow", a[1]))), I)
            return [(st, None)]
        return h
    return None


def u_out(name, value):
    def run(E):
        T = E.T
        E.models.insert(0, olib)
        E.models.insert(1, printing.guard)
        st = State()
        a = obj(E, st, 'type', 'ColumnType')
        E.assume(st, fld(T, 'type', 'ColumnType', 'data_type') == value)
        osk = st.alloc('stack', 272)
        ln = fld(T, 'type', 'ColumnType', 'length')
        want = [name + "(", Tm("num", ln), ")"] if name in ('CHAR', 'VARCHAR') else [name]
        for s, v in call(E, st, find(T, "hsql::operator<<(std::basic_ostream<char, std::char_traits<char> >&, hsql::ColumnType const&)", "hsql::operator<<(std::ostream&, hsql::ColumnType const&)"), [Ptr(osk), a]):
            got = joined(s.notes.get('out', ()))
            ok = len(got) == len(want)
            for x, y in zip(got, want):
                if not ok:
                    break
                if isinstance(x, str) or isinstance(y, str):
                    ok = isinstance(x, str) and isinstance(y, str) and x == y
                    if not ok and not isinstance(x, str) and not (isinstance(x, Tm) and x.op == 'num'):
                        raise Unsupported("text written by the output operator")
                elif x.op == 'num' and not isinstance(x.a[0], Tm):
                    ok = E.valid(s, sym.bv(x.a[0], 64) == y.a[0])
                else:
                    ok = False
            if not ok and any(not isinstance(x, str) and not (isinstance(x, Tm) and x.op == 'num') for x in got):
                raise Unsupported("text written by the output operator")
            E.check(s, "value", ok, f"the column type {name} is written as {''.join(x if isinstance(x, str) else '<length>' for x in want)}, not as {''.join(x if isinstance(x, str) else '<number>' for x in got)!r}")
            E.check(s, "value", isinstance(v, Ptr) and v == Ptr(osk), "the output operator returns its stream")
    return run


# ------------------------------------------------------------------ predicates and accessors

def u_pred(cls, sig, args, want, what):
    def run(E):
        T = E.T
        st = State()
        a = obj(E, st, 'this', cls)
        xs = [z3.BitVec(x, 32) for x in args]
        for s, v in call(E, st, find(T, f"hsql::{cls}::{sig} const", f"hsql::{cls}::{sig}"), [a] + xs):
            truth(E, s, v, want(T, *xs), what)
    return run


def u_type(cls):
    def run(E):
        T = E.T
        st = State()
        a = obj(E, st, 'this', cls)
        for s, v in call(E, st, find(T, "hsql::SQLStatement::type() const"), [a]):
            ok = v is not UNDEF and (bv(v, 32) == fld(T, 'this', 'SQLStatement', 'type_'))
            E.check(s, "value", simp(ok) if sym.isz(ok) else False, "type() returns the kind of the statement")
    return run


def u_name(cls, viaalias):
    """the name is the alias when there is one"""
    def run(E):
        T = E.T
        st = State()
        a = obj(E, st, 'this', cls)
        E.wf_hook = lambda s, n, c: [z3.Not(E.nullv(n + ".name"))] if c == 'Alias' else []
        for s, v in call(E, st, find(T, f"hsql::{cls}::getName() const"), [a]):
            for t, al in ((s.clone(), True), (s, False)):
                E.assume(t, z3.Not(E.nullv('this.alias')) if al else E.nullv('this.alias'))
                if not E.sat(t):
                    continue
                w = 'this.alias' + viaalias if al else 'this.name'
                if isinstance(v, Ptr) and v.b == ('s', w) and v.o == 0:
                    E.check(t, "value", True, "")
                    continue
                # equal also when both are null
                n1 = E.isnull(t, v) if isinstance(v, Ptr) else False
                n1 = n1 if sym.isz(n1) else z3.BoolVal(bool(n1))
                E.check(t, "value", z3.And(n1, E.nullv(w)), f"getName() is the {'alias' if al else 'name'} when {'there is one' if al else 'there is no alias'}")
    return run


def kind(T, v, names, enum):
    e = T.L.enums[enum]
    return z3.Or(*[v == e[n] for n in names])


def stage(ctx):
    from . import check
    T = ctx.T
    us = []

    def add(name, f):
        us.append((name, f, {}))
    for op in ('==', '!='):
        add(f"ColumnType: a {op} b", u_eq(op))
        add(f"ColumnType: a {op} a", u_eq_self(op))
    add("ColumnType: constructor", u_ctor)
    for name, value in T.L.enums['DataType'].items():
        add(f"ColumnType: output of {name}", u_out(name, value))
    F = lambda c, f: (lambda T, *xs: fld(T, 'this', c, f))
    add("Expr::isType", u_pred('Expr', "isType(hsql::ExprType)", ["t"], lambda T, t: fld(T, 'this', 'Expr', 'type') == t, "isType(t) is true exactly for the type of the expression"))
    add("Expr::isLiteral", u_pred('Expr', "isLiteral()", [], lambda T: kind(T, fld(T, 'this', 'Expr', 'type'), LITERALS, 'ExprType'), "isLiteral() is true exactly for literals and parameters"))
    add("Expr::hasAlias", u_pred('Expr', "hasAlias()", [], lambda T: z3.Not(fld(T, 'this', 'Expr', 'alias')), "hasAlias() is true exactly when there is an alias"))
    add("Expr::hasTable", u_pred('Expr', "hasTable()", [], lambda T: z3.Not(fld(T, 'this', 'Expr', 'table')), "hasTable() is true exactly when there is a table qualifier"))
    add("Expr::getName", u_name('Expr', ''))
    add("TableRef::hasSchema", u_pred('TableRef', "hasSchema()", [], lambda T: z3.Not(fld(T, 'this', 'TableRef', 'schema')), "hasSchema() is true exactly when there is a schema"))
    add("TableRef::getName", u_name('TableRef', '.name'))
    for c in ('SQLStatement',):
        add("SQLStatement::type", u_type(c))
        for m in ("isType", "is"):
            add("SQLStatement::" + m, u_pred(c, f"{m}(hsql::StatementType)", ["t"], lambda T, t: fld(T, 'this', 'SQLStatement', 'type_') == t, f"{m}(t) is true exactly for the type of the statement"))
    return check.run_units(ctx, us)
