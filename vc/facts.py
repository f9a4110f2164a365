"""Inference of the contracts of grammar symbols: what every semantic value of a symbol satisfies (nullness, nullness and values of
its fields, dynamic class, non-emptiness). Computed bottom-up; the final contracts are re-verified by every reduction unit."""
import z3
from . import sym, own
from .sym import Ptr, Vec, UNDEF, Unsupported, isz, simp, bv
from .grammar import symfields

TOP = None
MAXV = 24


def cand_fields(E_or_L, typ):
    L = E_or_L
    if typ in L.cls:
        return [f for f in L.fields(typ) if f.kind == 'ptr' and f.own or f.kind in ('int', 'bool') and f.size in (1, 4)]
    return []


def keyof(s, f):
    return s + ("" if '.' not in f.name else "." + f.name.split('.', 1)[1])


class Fact:
    """join semi-lattice element for one symbol value"""
    __slots__ = ("null", "fields", "cls", "ne", "val")

    def __init__(self):
        self.null, self.fields, self.cls, self.ne, self.val = frozenset(), None, frozenset(), True, frozenset()

    def copy(self):
        f = Fact()
        f.null, f.fields, f.cls, f.ne, f.val = self.null, None if self.fields is None else dict(self.fields), self.cls, self.ne, self.val
        return f

    def key(self):
        return (self.null, None if self.fields is None else tuple(sorted((k, v if v is TOP else tuple(sorted(v, key=repr))) for k, v in self.fields.items())), self.cls, self.ne, self.val)

    def join(self, o):
        """returns True when something changed"""
        k = self.key()
        self.null = self.null | o.null
        self.cls = self.cls | o.cls
        self.ne = self.ne and o.ne
        self.val = jv(self.val, o.val)
        if o.fields is not None:
            if self.fields is None:
                self.fields = dict(o.fields)
            else:
                for f in self.fields:
                    self.fields[f] = jv(self.fields[f], o.fields.get(f, TOP))
        return self.key() != k

    def __repr__(self):
        return f"{set(self.null)} {({k: v for k, v in (self.fields or {}).items() if v is not TOP and len(v) == 1})} {set(self.cls)} ne={self.ne} val={self.val}"


def jv(a, b):
    if a is TOP or b is TOP:
        return TOP
    r = a | b
    return TOP if len(r) > MAXV else r


def nullstat(E, st, v):
    n = E.isnull(st, v)
    if isinstance(n, bool):
        return frozenset(['null' if n else 'nonnull'])
    d = E.decide(st, n)
    if d is None:
        return frozenset(['null', 'nonnull'])
    return frozenset(['null' if d else 'nonnull'])


def values(E, st, v, w):
    """finite set of possible values, or TOP"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return frozenset([v])
    if isz(v):
        if z3.is_bool(v):
            v = bv(v, w)
        out = set()
        s = z3.Solver()
        s.set("timeout", 5000)
        for p in st.pc:
            if isz(p):
                s.add(p)
        while True:
            r = s.check()
            if r == z3.unsat:
                return frozenset(out)
            if r != z3.sat or len(out) > MAXV:
                return TOP
            x = s.model().eval(v, model_completion=True).as_long()
            out.add(x)
            s.add(v != x)
    return TOP


def observe(E, st, v, typ):
    """abstraction of a value of static type typ (before it is consumed)"""
    f = Fact()
    f.null = nullstat(E, st, v)
    if 'nonnull' not in f.null:
        return f
    if len(f.null) == 2:
        st = st.clone()
        E.assume(st, z3.Not(E.isnull(st, v)))
    if typ.startswith('vec<'):
        k = st.mat.get(v.b[1]) if v.b[0] == 's' else v.b
        if k is not None and k in st.objs:
            vec = E.vecat(st, k, 0)
            n = E.vlen(vec) if vec is not None else 0
            f.ne = E.valid(st, simp(z3.UGE(bv(n, 64), 1)))
        elif v.b[0] == 's':
            ln = z3.BitVec("len:" + v.b[1], 64)
            f.ne = v.b[1] in E.nonempty or E.valid(st, z3.UGE(ln, 1))
        else:
            f.ne = False
        return f
    if typ not in E.lay.cls:
        return f
    cls = None
    if v.b[0] == 's' and v.b[1] not in st.mat:
        nm = v.b[1]
        if nm in st.cls:
            f.cls = st.cls[nm]
        else:
            ct = E.own_type(st, nm) or typ
            f.cls = frozenset(c for c in E.lay.subs[ct] if E.concrete(c) or c == ct and not E.lay.poly(c))
        f.fields = {}
        for fl in cand_fields(E.lay, typ):
            fn = nm + "." + fl.name
            if fl.kind == 'ptr':
                d = E.decide(st, E.nullv(fn))
                f.fields[fl.name] = frozenset(['null', 'nonnull']) if d is None else frozenset(['null' if d else 'nonnull'])
            else:
                f.fields[fl.name] = values(E, st, z3.BitVec(fn, 8 * fl.size), 8 * fl.size)
        return f
    k = st.mat[v.b[1]] if v.b[0] == 's' else v.b
    if k not in st.objs:
        return f
    if E.lay.poly(typ):
        c = own.exact(E, st, k)
        if c is not None:
            f.cls = frozenset([c])
        else:
            o = st.objs[k]
            ct = o.lazy[2] if o.lazy and o.lazy[0] == 'cls' else typ
            nm = o.lazy[1] if o.lazy and o.lazy[0] == 'cls' else None
            f.cls = st.cls.get(nm) or frozenset(c for c in E.lay.subs[ct] if E.concrete(c))
    f.fields = {}
    for fl in cand_fields(E.lay, typ):
        x = own.fieldget(E, st, k, fl.off, fl.size)
        if x is UNDEF:
            f.fields[fl.name] = TOP
        elif fl.kind == 'ptr':
            f.fields[fl.name] = nullstat(E, st, x) if isinstance(x, Ptr) else TOP
        else:
            if isinstance(x, Ptr) and x.b is None and x.o == 0:
                x = 0
            f.fields[fl.name] = values(E, st, x, 8 * fl.size)
    return f


def assume(E, st, name, typ, f):
    """add the contract of a symbol to a state"""
    if f.null == frozenset(['nonnull']):
        E.assume(st, z3.Not(E.nullv(name)))
    elif f.null == frozenset(['null']):
        E.assume(st, E.nullv(name))
        return
    guard = E.nullv(name) if 'null' in f.null else None

    def add(x):
        if guard is not None:
            x = z3.Or(guard, x)
        E.assume(st, x)
    if typ.startswith('vec<'):
        if f.ne:
            add(z3.UGE(z3.BitVec("len:" + name, 64), 1))
        return
    if typ not in E.lay.cls:
        return
    if E.lay.poly(typ) and f.cls:
        st.cls[name] = f.cls
    for fl in cand_fields(E.lay, typ):
        v = (f.fields or {}).get(fl.name, TOP)
        if v is TOP:
            continue
        fn = name + "." + fl.name
        if fl.kind == 'ptr':
            if v == frozenset(['null']):
                add(E.nullv(fn))
            elif v == frozenset(['nonnull']):
                add(z3.Not(E.nullv(fn)))
        else:
            x = z3.BitVec(fn, 8 * fl.size)
            add(z3.Or(*[x == c for c in sorted(v)]) if v else z3.BoolVal(False))


def covered(new, old):
    """the observation satisfies the contract"""
    c = old.copy()
    return not c.join(new)
