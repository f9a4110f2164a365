"""Ownership: what a value of a given type owns, consumption of owned values, and destructor contracts."""
import re
import z3
from .sym import Ptr, Vec, UNDEF, ZERO, Unsupported, DeadPath, isz, simp, bv, veq
from .loops import HAVOC
from . import models


def exact(E, st, key):
    """dynamic class of a materialised object, or None"""
    o = st.objs[key]
    c = o.cells.get(0)
    if c is not None and isinstance(c[1], Ptr):
        if c[1].b and c[1].b[0] == 'vptr':
            nm = c[1].b[1]
            if nm in st.cls and len(st.cls[nm]) == 1:
                return next(iter(st.cls[nm]))
            return None
        v = models.vt_cls(c[1])
        if v:
            return v
    if o.lazy is not None and o.lazy[0] == 'cls':
        nm = o.lazy[1]
        if nm in st.cls and len(st.cls[nm]) == 1:
            return next(iter(st.cls[nm]))
    return None


def fieldget(E, st, key, off, size=8):
    o = st.objs[key]
    c = o.cells.get(off)
    if c is not None and c[0] == size:
        if c[1] is ZERO:
            return Ptr(None, 0)
        return c[1]
    for a, (n, v) in o.cells.items():
        if a <= off and off + size <= a + n:
            if v is ZERO:
                return Ptr(None, 0)
            return UNDEF
    if o.lazy is not None and o.lazy[0] == 'cls':
        v = E.lazyload(st, o, key, off, size, None)
        return UNDEF if v is None else v
    return UNDEF


class Sink:
    """what consume() reports; overridden by the matcher"""
    def folded(self, E, st, cls, key, path):
        pass


def consume(E, st, v, typ, path, sink=None):
    """Give up ownership of everything reachable from v (of static type typ)."""
    if typ is None:
        return
    if v is HAVOC:
        raise Unsupported("ownership of an unknown value")
    if v is UNDEF:
        E.fail(st, "uninit", f"{path} is left indeterminate")
        return
    if v is ZERO:
        return
    if not isinstance(v, Ptr):
        raise Unsupported(f"consume {v!r}")
    n = E.isnull(st, v)
    if n is True:
        return
    b = v.b
    if b is None:
        raise Unsupported("integer used as a pointer")
    if not (isinstance(v.o, int) and v.o == 0):
        E.fail(st, "ownership", f"{path} does not point to the start of an allocation")
        return
    if b[0] == 's':
        nm = b[1]
        if nm in st.mat:
            k = st.mat[nm]
        else:
            if E.take(st, nm):
                E.check(st, "ownership", okty(E, st, nm, st.own[nm], typ), f"{path} has type {typ} but holds a {st.own[nm]}")
                if typ in E.lay.cls and sink is not None and hasattr(sink, 'symbol'):
                    sink.symbol(E, st, nm, typ, path)
                elif typ.startswith('vec<') and sink is not None and hasattr(sink, 'slice'):
                    sink.slice(E, st, nm)
                del st.own[nm]
                return
            if E.decide(st, n) is True:
                return
            if nm in st.borrow:
                E.fail(st, "ownership", f"{path} holds memory that belongs to someone else ({nm})")
            else:
                E.fail(st, "ownership", f"{path} holds memory that is released or owned twice ({nm})")
            return
    elif b[0] == 'o':
        k = b
    elif b[0] == 'g':
        E.fail(st, "ownership", f"{path} holds the address of static memory {b[1]}, which would be released")
        return
    else:
        raise Unsupported(f"consume {v!r}")
    o = st.objs.get(k)
    if o is None:
        E.fail(st, "ownership", f"{path} holds memory that is released or owned twice")
        return
    if o.ro:
        E.fail(st, "ownership", f"{path} holds memory that belongs to someone else")
        return
    if typ == 'char':
        E.check(st, "ownership", o.kind == 'malloc', f"{path} is a string that was not allocated with malloc ({o.kind})")
        if o.lazy is None and not o.cells:
            E.fail(st, "uninit", f"{path} is a string without contents")
        del st.objs[k]
        return
    E.check(st, "ownership", o.kind == 'new', f"{path} was not allocated with new ({o.kind})")
    if typ.startswith('vec<'):
        et = typ[4:-1]
        c = o.cells.get(0)
        if c is None or not isinstance(c[1], Vec):
            E.fail(st, "uninit", f"{path} is not a constructed vector")
        else:
            if isinstance(o.size, int):
                E.check(st, "ownership", o.size == 24, f"{path}: wrong allocation size")
            if sink is not None and hasattr(sink, 'vector'):
                sink.vector(E, st, c[1], et, path)
            consume_vec(E, st, c[1], et, path, sink)
        st.objs.pop(k, None)
        return
    if typ == 'set':
        c = o.cells.get(0)
        if c is None or not isinstance(c[1], models.SetV):
            E.fail(st, "uninit", f"{path} is not a constructed set")
        del st.objs[k]
        return
    if typ not in E.lay.cls:
        raise Unsupported(f"consume type {typ}")
    if o.cls is not None and (o.cls == 'char' or o.cls.startswith('vec<') or o.cls == 'set'):
        E.fail(st, "ownership", f"{path} of type {typ} holds a {o.cls}")
        del st.objs[k]
        return
    cls = typ
    if E.lay.poly(typ):
        c = exact(E, st, k)
        if c is None:
            if o.lazy is None or o.lazy[0] != 'cls':
                E.fail(st, "uninit", f"{path} is not a constructed object")
                del st.objs[k]
                return
            c = o.lazy[2]
            if len(E.lay.subs[c]) > 1:
                # unknown subclass, fields of the static class only: the others are untouched
                E.check(st, "ownership", c in E.lay.subs[typ], f"{path} has type {typ} but holds a {c}")
            cls = c
        else:
            E.check(st, "ownership", c in E.lay.subs.get(typ, ()), f"{path} has type {typ} but holds a {c}")
            cls = c
    if isinstance(o.size, int) and not (o.lazy is not None and o.lazy[0] == 'cls'):
        E.check(st, "ownership", o.size == E.lay.cls[cls].size, f"{path}: object of {o.size} bytes used as {cls} ({E.lay.cls[cls].size} bytes)")
    if sink is not None:
        sink.folded(E, st, cls, k, path)
    st.objs[k] = o = st.w(k)
    vals = []
    for f in E.lay.fields(cls):
        if f.own and (cls, f.name) not in E.nonowning:
            vals.append((f, fieldget(E, st, k, f.off)))
        elif f.kind == 'vec' and (cls, f.name) not in E.nonowning:
            vv = E.vecat(st, k, f.off)
            if vv is None:
                E.fail(st, "uninit", f"{path}.{f.name} is not a constructed vector")
            else:
                if sink is not None:
                    sink.edge = (cls, f.name)
                consume_vec(E, st, vv, f.elt, path + "." + f.name, sink)
    del st.objs[k]
    for f, x in vals:
        if sink is not None:
            sink.edge = (cls, f.name)
        consume(E, st, x, f.own, path + "." + f.name, sink)


def okty(E, st, nm, have, want):
    if have == want:
        return True
    if want in E.lay.subs and have in E.lay.subs[want]:
        return True
    if have in E.lay.subs and want in E.lay.subs[have]:
        # downcast: the dynamic class has to be known
        return nm in st.cls and all(c in E.lay.subs[want] for c in st.cls[nm])
    return False


def take_slice(E, st, vs, lo, hi):
    """remove [lo,hi) from the owned slices of vs; False when it is not owned"""
    sl = list(st.osl.get(vs, ()))
    if E.decide(st, simp(z3.UGE(bv(lo, 64), bv(hi, 64)))) is True:
        return True
    for j, (a, b) in enumerate(sl):
        if E.valid(st, z3.And(z3.ULE(bv(a, 64), bv(lo, 64)), z3.ULE(bv(hi, 64), bv(b, 64)))):
            new = []
            if E.decide(st, simp(bv(a, 64) == bv(lo, 64))) is not True:
                new.append((a, lo))
            if E.decide(st, simp(bv(b, 64) == bv(hi, 64))) is not True:
                new.append((hi, b))
            sl[j:j + 1] = new
            if sl:
                st.osl[vs] = tuple(sl)
            else:
                del st.osl[vs]
            return True
    return False


def consume_vec(E, st, v, et, path, sink=None):
    if not E.owning_elem(et):
        return
    parts = {}
    E.norm(st)
    edge = getattr(sink, 'edge', None)
    for s in v.segs:
        if sink is not None:
            sink.edge = edge
            if s[0] != 'e' and hasattr(sink, 'slice'):
                sink.slice(E, st, s[1])
        if s[0] == 'e':
            n = E.isnull(st, s[1]) if isinstance(s[1], Ptr) else False
            if n is not False:
                E.check(st, "element", z3.Not(n) if isz(n) else False, f"{path} contains a null element")
            consume(E, st, s[1], et, path + "[]", sink)
        elif s[0] == 's':
            if not take_slice(E, st, s[1], s[2], s[3]):
                if s[1] in st.borrow:
                    E.fail(st, "ownership", f"{path} holds elements that belong to someone else ({s[1]})")
                else:
                    E.fail(st, "ownership", f"{path} holds elements that are released or owned twice ({s[1]})")
        else:
            parts.setdefault((s[1], repr(s[3]), repr(s[4])), []).append(s)
    for k, ss in parts.items():
        st.notes['F:' + repr(k)] = tuple(st.notes.get('F:' + repr(k), ())) + tuple(sorted(c for s in ss for c in s[2]))
        got = st.notes['F:' + repr(k)]
        if len(got) != len(set(got)):
            E.fail(st, "ownership", f"{path}: elements are owned twice")
        base = E.vectype(st, k[0])
        if base is not None and set(got) >= {c for c in E.lay.subs[base] if E.concrete(c)}:
            s = ss[0]
            if not take_slice(E, st, s[1], s[3], s[4]):
                E.fail(st, "ownership", f"{path} holds elements that are not owned here ({s[1]})")


def absent(E, st, nm):
    """the symbol is a null pointer after all: there is nothing behind it"""
    return '[' not in nm and '|' not in nm and E.decide(st, simp(E.nullv(nm))) is True


def leftovers(E, st, ignore=()):
    """every owned object that is still there is a leak"""
    E.norm(st)
    out = []
    for nm, t in st.own.items():
        n = E.decide(st, simp(E.nullv(nm)))
        if n is True:
            continue
        out.append(f"{t} {nm}")
    for v, sl in st.osl.items():
        if absent(E, st, v):
            continue
        for a, b in sl:
            if E.decide(st, simp(bv(a, 64) == bv(b, 64))) is not True:
                out.append(f"elements of {v}[{a}..{b})")
    for k, o in st.objs.items():
        if k in ignore or o.ro:
            continue
        if o.kind in ('new', 'malloc') and not (isinstance(k[1], str) and k[1].startswith('S:') and absent(E, st, k[1][2:])):
            out.append(f"{o.cls or 'object'} {k[1]} ({o.size} bytes)")
    return out


def noleak(E, st, what, ignore=()):
    l = leftovers(E, st, ignore)
    E.obl += 1
    E.kinds["leak"] = E.kinds.get("leak", 0) + 1
    if l and E.sat(st):
        E.fail(st, "leak", f"{what}: not released: {', '.join(sorted(l)[:4])}", counted=True)
    else:
        E.disch += 1


# ------------------------------------------------------------------ destructor contracts

def install(E):
    """~C(this): the object has to be owned; the fields are released, the memory stays raw until it is deallocated.
    D0: also deallocates. Verified by the dtor units; used only for objects that are still folded, other objects run the real body."""
    E.dtors = {}
    for n in list(E.M.fn_ref):
        m = re.match(r'_ZN4hsql(\d+)(\w+)D([012])Ev$', n)
        if m and m[2][:int(m[1])] == m[2] and m[2] in E.lay.cls:
            E.contracts[n] = dtor(m[2], int(m[3]), n)


def dtor(cls, variant, name):
    def h(E, st, a, I):
        p = a[0]
        if isinstance(p, Ptr) and p.b is not None and p.b[0] == 's' and p.o == 0 and (cls, name) not in E.bodies:
            E.norm(st)
            nm = p.b[1]
            if nm not in st.mat and nm not in st.own:
                E.take(st, nm)
            if nm in st.own and (st.own[nm] == cls or cls in E.lay.subs.get(st.own[nm], ()) and st.cls.get(nm) == frozenset([cls])) and (variant == 0 or not E.lay.poly(cls)):
                n = E.isnull(st, p)
                E.check(st, "null", z3.Not(n) if isz(n) else not n, f"destructor of {cls} called on a null pointer", I)
                if variant != 0 and not E.lay.poly(cls):
                    from . import units
                    may = (st.cls[nm] if nm in st.cls else E.lay.subs[cls]) & (units.instantiated(E.T) | {cls}) - {cls}
                    if may:
                        E.check(st, "type", False, f"the destructor of {cls} does not release an object that may be a {', '.join(sorted(may))}", I)
                E.kinds["delete-contract"] = E.kinds.get("delete-contract", 0) + 1
                if variant == 0:
                    del st.own[nm]
                    return [(st, None)]
                k = E.unfold(st, nm, I, "delete")
                o = st.w(k)
                o.dirty = True
                o.lazy = None
                o.cells = {}
                for f in E.lay.fields(cls):
                    if f.own:
                        st.own.pop(nm + "." + f.name, None)
                    elif f.kind == 'vec':
                        st.osl.pop(nm + "." + f.name, None)
                return [(st, None)]
        E.inlined.add(name)
        return E.call_fn(st, name, a, I)
    return h
