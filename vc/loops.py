"""Loops: concrete unrolling when the number of iterations is decided, otherwise an inductive invariant over the iteration count
is inferred (linear cursors, consumed slices, appended and filtered sequences) and checked."""
import itertools
import re
import z3
from .sym import Ptr, Vec, Obj, SetV, Str, Tm, UNDEF, Unsupported, DeadPath, isz, simp, bv, veq

_k = itertools.count(1)


class _Havoc:
    def __repr__(self):
        return "HAVOC"


HAVOC = _Havoc()
MAXUNROLL = 12


def phis(E, F, H, e, pred):
    out = dict(e)
    for I in H.insts:
        if I.op != 'phi':
            break
        for pb, v in I.x:
            if pb.id == pred.id:
                out[I.id] = E.ev(e, v)
                break
    keep = E.live(F)[H.id] | {I.id for I in H.insts if I.op == 'phi'}
    return {k: v for k, v in out.items() if k in keep or k == 'allocas'}


class Trial:
    def __init__(self, E):
        self.E = E

    def __enter__(self):
        E = self.E
        self.s = (list(E.fails), E.obl, E.disch, dict(E.kinds), E.paths)
        return self

    def rollback(self):
        E = self.E
        E.fails, E.obl, E.disch, E.kinds, E.paths = list(self.s[0]), self.s[1], self.s[2], dict(self.s[3]), self.s[4]

    def failed(self):
        return len(self.E.fails) > len(self.s[0])

    def __exit__(self, *a):
        return False


def run_loop(E, F, H, body, st, env):
    with Trial(E) as T:
        outs = {}
        cur = [(st.clone(), dict(env))]
        ok = True
        n = 0
        while cur:
            n += 1
            if n > MAXUNROLL or len(cur) > 16:
                ok = False
                break
            nxt = []
            for s, e in cur:
                r = E.run(F, H, s, e, body=body)
                back = r.pop(H.id, [])
                if back and r and any(r.values()):
                    ok = False      # the exit is not decided
                    break
                for kk, lst in r.items():
                    outs.setdefault(kk, []).extend(lst)
                for s2, e2, pred in back:
                    nxt.append((s2, phis(E, F, H, e2, pred)))
            if not ok:
                break
            # merge equal states
            m = []
            for s2, e2 in nxt:
                for g in m:
                    if g[1].get('allocas') == e2.get('allocas'):
                        x = E.merge(g[0], g[1], s2, e2, [q for q in e2 if q != 'allocas'])
                        if x is not None:
                            g[0], g[1] = x
                            break
                else:
                    m.append([s2, e2])
            cur = [(a, b) for a, b in m]
        if ok:
            return outs
        T.rollback()
    return infer(E, F, H, body, st, env)


# ------------------------------------------------------------------ state traversal

def vmap(v, f):
    if isinstance(v, Ptr):
        b = v.b
        if b is not None and b[0] == 's':
            nb = ('s', f('name', b[1]))
            return Ptr(nb, vmap(v.o, f))
        if b is not None and b[0] == 'vb':
            return Ptr(('vb', keymap(b[1], f), b[2]), vmap(v.o, f))
        if b is not None and b[0] == 'o':
            return Ptr(keymap(b, f), vmap(v.o, f))
        return Ptr(b, vmap(v.o, f))
    if isz(v):
        return f('z', v)
    if isinstance(v, Vec):
        return Vec(v.et, [segmap(s, f) for s in v.segs])
    if isinstance(v, Tm):
        return Tm(v.op, *[vmap(x, f) for x in v.a])
    if isinstance(v, SetV):
        return SetV(v.base, [vmap(x, f) for x in v.ins])
    if isinstance(v, Str):
        return Str(vmap(v.v, f))
    return v


def keymap(k, f):
    if k[0] == 'o' and isinstance(k[1], str) and k[1].startswith('S:'):
        return ('o', 'S:' + f('name', k[1][2:]))
    return k


def segmap(s, f):
    if s[0] == 'e':
        return ('e', vmap(s[1], f))
    if s[0] == 's':
        return ('s', f('name', s[1]), vmap(s[2], f), vmap(s[3], f))
    return ('F', f('name', s[1]), s[2], vmap(s[3], f), vmap(s[4], f))


def subst_state(E, st, env, old, new):
    """Replace the z3 constant `old` by `new` everywhere (also inside of element names)."""
    so, sn = str(old), str(new)

    def f(kind, v):
        if kind == 'z':
            return simp(z3.substitute(v, (old, bv(new, 64))))
        if '[' in v and so in v:
            # element names carry the index expression
            def rep(nm):
                i = nm.find('[')
                base = nm[:i]
                depth, j = 0, i
                while True:
                    if nm[j] == '[':
                        depth += 1
                    elif nm[j] == ']':
                        depth -= 1
                        if depth == 0:
                            break
                    j += 1
                el = nm[:j + 1]
                rest = nm[j + 1:]
                if el in E.elems:
                    vs, ix, et = E.elems[el]
                    ix2 = simp(z3.substitute(bv(ix, 64), (old, bv(new, 64)))) if isz(ix) else ix
                    vs2 = f('name', vs)
                    el2 = f"{vs2}[{ix2}]"
                    E.elems[el2] = (vs2, ix2, et)
                    return el2 + (rep2(el, el2, rest) if rest else "")
                return nm

            def rep2(el, el2, rest):
                return rest
            return rep(v)
        return v
    env2 = {k: (v if k == 'allocas' else vmap(v, f)) for k, v in env.items()}
    n = st.clone()
    n.objs = {}
    for k, o in st.objs.items():
        k2 = keymap(k, f)
        ch = {off: (m, vmap(v, f)) for off, (m, v) in o.cells.items()}
        if k2 == k and all(ch[x][1] is o.cells[x][1] or veq(ch[x][1], o.cells[x][1]) for x in ch):
            n.objs[k2] = o
            continue
        c = o.copy(n.sid)
        c.cells = ch
        if c.lazy and c.lazy[0] == 'cls':
            c.lazy = ('cls', f('name', c.lazy[1]), c.lazy[2])
        n.objs[k2] = c
    n.own = {f('name', k): v for k, v in st.own.items()}
    n.borrow = {f('name', k): v for k, v in st.borrow.items()}
    n.cls = {f('name', k): v for k, v in st.cls.items()}
    n.mat = {f('name', k): keymap(v, f) for k, v in st.mat.items()}
    n.osl = {f('name', k): tuple((vmap(a, f), vmap(b, f)) for a, b in v) for k, v in st.osl.items()}
    n.pc = []
    for p in st.pc:
        q = simp(z3.substitute(p, (old, bv(new, 64)))) if isz(p) else p
        if q is True:
            continue
        n.pc.append(q)
    n.notes = {}
    for k, v in st.notes.items():
        if isinstance(k, tuple) and k and k[0] == 'each':
            v = (vmap(v[0], f), vmap(v[1], f), {a: (m, vmap(x, f)) for a, (m, x) in v[2].items()})
        n.notes[k] = v
    return n, env2


def clean_osl(E, st):
    for v, sl in list(st.osl.items()):
        out = []
        for a, b in sl:
            if veq(a, b) or E.decide(st, simp(bv(a, 64) == bv(b, 64))) is True:
                continue
            out.append((a, b))
        if out:
            st.osl[v] = tuple(out)
        else:
            del st.osl[v]


# ------------------------------------------------------------------ inference

def delta(E, st, a, b):
    """constant b - a, or None"""
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return int(b) - int(a)
    if (isz(a) or isinstance(a, int)) and (isz(b) or isinstance(b, int)):
        w = a.size() if isz(a) and not z3.is_bool(a) else b.size() if isz(b) and not z3.is_bool(b) else 64
        d = simp(bv(b, w) - bv(a, w))
        if isinstance(d, int):
            return d - (1 << w) if d >= 1 << (w - 1) else d
    return None


def lin(v, d, k, w=64):
    kk = k if w == 64 else z3.Extract(w - 1, 0, k)
    return simp(bv(v, w) + kk * z3.BitVecVal(d, w))


class NotInductive(Exception):
    def __init__(self, place, why=""):
        self.place, self.why = place, why


def infer(E, F, H, body, st0, env0):
    E.norm(st0)
    with Trial(E) as T:
        s = st0.clone()
        r = E.run(F, H, s, dict(env0), body=body)
        backs = r.get(H.id, [])
        if not backs:
            return r
        T.rollback()
    backs = [(b, phis(E, F, H, e, pred)) for b, e, pred in backs]
    seen = set()
    for b, e in backs:
        for nm, key in b.mat.items():
            if key in b.objs and key not in st0.objs and (b.objs[key].cls or '').startswith('vec<') and '[' not in nm:
                seen.add(nm)
        E.norm(b)
    seen = sorted(seen)
    ch = True
    while ch:
        ch = False
        for b, e in backs:
            for name, key in list(b.mat.items()):
                if name not in st0.mat and key in b.objs and (name in st0.own or name not in E.elems and E.take(st0, name)):
                    E.unfold(st0, name, None, "loop")
                    ch = True
    for key, o in list(st0.objs.items()):
        for b, e in backs:
            q = b.objs.get(key)
            if q is None or q is o:
                continue
            for off, (n, v) in q.cells.items():
                if off not in st0.objs[key].cells and o.lazy is not None and isinstance(off, int) and not any(a < off + n and off < a + m for a, (m, x) in st0.objs[key].cells.items()):
                    x = E.lazyload(st0, o, key, off, n, None)
                    if x is not None:
                        st0.w(key).cells[off] = (n, x)
                        for b2, e2 in backs:
                            if off not in b2.objs[key].cells:
                                b2.w(key).cells[off] = (n, x)
    for b, e in backs:
        # objects that were folded in the iteration but not before it
        for name in list(st0.mat):
            if name not in b.mat and name in b.own:
                E.unfold(b, name, None, "loop")
    havoc = set()
    last = None
    for attempt in range(6):
        try:
            return attempt_inv(E, F, H, body, st0, env0, backs, havoc, seen)
        except NotInductive as x:
            last = x
            if x.place is None or x.place in havoc:
                break
            havoc.add(x.place)
    raise Unsupported(f"no loop invariant found in {F.name}:{H.name} ({last.place} {last.why})")


def width(E, v, size):
    return 8 * size


def generalize(E, v0, vs, k, place, havoc, size):
    """template for a scalar that was v0 before the loop and vs after one iteration"""
    if place in havoc:
        if isz(v0) and not z3.is_bool(v0) or isinstance(v0, int) and not isinstance(v0, bool):
            w = v0.size() if isz(v0) else 8 * size
            return z3.BitVec(f"hv{next(_k)}", w)
        return HAVOC
    if all(veq(v0, v) for v in vs):
        return v0
    if isinstance(v0, Ptr) and all(isinstance(v, Ptr) and v.b == v0.b for v in vs):
        ds = {delta(E, None, v0.o, v.o) for v in vs}
        if len(ds) == 1 and None not in ds:
            return Ptr(v0.b, lin(v0.o, ds.pop(), k))
        return HAVOC
    if isinstance(v0, (int,)) and not isinstance(v0, bool) or isz(v0) and not z3.is_bool(v0):
        if all(isinstance(v, int) or isz(v) for v in vs):
            ds = {delta(E, None, v0, v) for v in vs}
            w = v0.size() if isz(v0) else next((v.size() for v in vs if isz(v) and not z3.is_bool(v)), 8 * size)
            if len(ds) == 1 and None not in ds:
                return lin(v0, ds.pop(), k, w)
            havoc.add(place)
            return z3.BitVec(f"hv{next(_k)}", w)
    if isinstance(v0, bool) or isz(v0) and z3.is_bool(v0):
        havoc.add(place)
        return z3.Bool(f"hv{next(_k)}")
    return HAVOC


def elem_of(E, v):
    """(vector symbol, index) when the value is an element pointer of a vector"""
    if isinstance(v, Ptr) and v.b and v.b[0] == 's' and v.b[1] in E.elems and isinstance(v.o, int) and v.o == 0:
        vs, i, et = E.elems[v.b[1]]
        return vs, i, et
    return None


def attempt_inv(E, F, H, body, st0, env0, backs, havoc, seen):
    k = z3.BitVec(f"k{next(_k)}", 64)
    G = st0.clone()
    genv = {}
    phi_w = {}
    for B in F.blocks:
        for I in B.insts:
            if I.ty is not None:
                phi_w[I.id] = max(I.ty.size, 1)
    for i, v in env0.items():
        if i == 'allocas':
            genv[i] = v
            continue
        vs = [e.get(i) for b, e in backs]
        genv[i] = generalize(E, v, vs, k, ('env', i), havoc, phi_w.get(i, 8))
    vecs = {}
    # memory
    for key, o in st0.objs.items():
        for b, e in backs:
            if key not in b.objs:
                raise Unsupported(f"the loop releases {key} that exists before it")
        offs = set(o.cells)
        for b, e in backs:
            offs |= set(b.objs[key].cells)
        for off in offs:
            c0 = o.cells.get(off)
            cs = [b.objs[key].cells.get(off) for b, e in backs]
            if c0 is None:
                if o.lazy is not None and not any(b.objs[key].dirty for b, e in backs):
                    continue        # only read
                if o.kind == 'stack' or (o.lazy is None):
                    # written for the first time inside of the loop: indeterminate at its head
                    w = G.w(key)
                    E.clear(w, off, next(c[0] for c in cs if c))
                    w.cells[off] = (next(c[0] for c in cs if c), HAVOC)
                    continue
                raise Unsupported("field written in a loop")
            if any(c is None or c[0] != c0[0] for c in cs):
                w = G.w(key)
                w.cells[off] = (c0[0], HAVOC)
                continue
            if all(veq(c0[1], c[1]) for c in cs) and ('cell', key, off) not in havoc:
                continue
            w = G.w(key)
            w.dirty = True
            if isinstance(c0[1], Vec):
                if not all(isinstance(c[1], Vec) for c in cs):
                    w.cells[off] = (c0[0], HAVOC)
                    continue
                nv = genvec(E, st0, c0[1], [(c[1], b) for c, (b, e) in zip(cs, backs)], k)
                w.cells[off] = (24, nv)
                vecs[(key, off)] = nv
                continue
            w.cells[off] = (c0[0], generalize(E, c0[1], [c[1] for c in cs], k, ('cell', key, off), havoc, c0[0]))
    # ownership
    for v in set(st0.osl) | {x for b, e in backs for x in b.osl}:
        o0 = st0.osl.get(v, ())
        os_ = [b.osl.get(v, ()) for b, e in backs]
        if all(veq(o0, x) for x in os_):
            continue
        G.osl[v] = gen_slices(E, st0, o0, os_, k)
        if not G.osl[v]:
            del G.osl[v]
    for b, e in backs:
        for nme in st0.own:
            if nme not in b.own:
                raise Unsupported(f"the loop consumes {nme}")
    # elements written through borrowed pointers ("for each" effects)
    each = {}
    for b, e in backs:
        for nm, key in b.mat.items():
            if key in b.objs and key not in st0.objs and nm in E.elems and b.objs[key].dirty and b.objs[key].ro:
                vs, i, et = E.elems[nm]
                if vs in each and not veq(each[vs][0], i):
                    raise Unsupported("several elements are written in one iteration")
                each[vs] = [i, None]
    if each:
        E.trial += 1
        try:
            with Trial(E) as T:
                S = G.clone()
                S.pc.append(z3.ULE(k, 1 << 40))
                for key2, o2 in st0.objs.items():
                    for off, (n, v) in o2.cells.items():
                        if isinstance(v, Vec):
                            S.pc.append(z3.ULE(k, bv(E.vlen(v), 64)))
                r = E.run(F, H, S, dict(genv), body=body)
                for b, e, pred in r.get(H.id, []):
                    for vs, w in each.items():
                        idx = lin(w[0], 1, k)
                        nm = f"{vs}[{idx}]"
                        key = b.mat.get(nm)
                        o = b.objs.get(key)
                        if o is None or not o.dirty:
                            raise Unsupported("elements are written in some iterations only")
                        ix = z3.BitVec("each:" + vs, 64)
                        cells = {}
                        for off, (n, val) in o.cells.items():
                            base = E.lazyload(b, o, key, off, n, None)
                            if base is not None and veq(base, val):
                                continue
                            if isz(val):
                                val = simp(z3.substitute(val, (k, simp(ix - bv(w[0], 64)))))
                            elif not isinstance(val, int):
                                raise Unsupported("pointer written into traversed elements")
                            cells[off] = (n, val)
                        if w[1] is not None and w[1] != cells and repr(w[1]) != repr(cells):
                            raise Unsupported("different values are written to the elements")
                        w[1] = cells
                T.rollback()
        finally:
            E.trial -= 1
        for vs, w in each.items():
            if w[1] is None:
                raise Unsupported("no effect on the elements found")
            if ('each', vs) in G.notes:
                raise Unsupported("elements are written twice")
            G.notes[('each', vs)] = (w[0], lin(w[0], 1, k), w[1])
    given = not each and exact(F, body, st0, env0, G, genv, havoc)
    if not given:
        G.notes['weak'] = True
    # bounds
    cands = []
    lens = []
    for key, o in st0.objs.items():
        for off, (n, v) in o.cells.items():
            if isinstance(v, Vec):
                l = E.vlen(v)
                if not any(veq(l, x) for x in lens):
                    lens.append(l)
    for nm in seen:
        l = E.veclen(G, nm)
        if not any(veq(l, x) for x in lens):
            lens.append(l)
    for (name, l) in list(getattr(E, 'bounds', {}).items()):
        lens.append(l)
    for B in F.blocks:
        if B.id in body or B in body:
            for I in B.insts:
                if I.op == 'icmp':
                    lens += [c for c in consts(I) if not any(veq(c, x) for x in lens)]
    for i, v in list(genv.items()) + [(None, c[1]) for o in G.objs.values() for c in o.cells.values()]:
        if isinstance(v, Ptr) and v.b and v.b[0] == 'vb' and not isz(v.b[1]):
            vv = E.vecat(st0, v.b[1], v.b[2])
            if vv is not None:
                l = E.vlen(vv)
                if not any(veq(l, x) for x in lens):
                    lens.append(l)
    cands = [l for l in lens]
    G.pc.append(z3.ULE(k, 1 << 40))
    base_pc = list(G.pc)
    # conditions that every iteration has found to hold and that do not change: they hold once the loop has started
    facts = []
    if backs:
        old = {x.get_id() for x in st0.pc}
        for c in backs[0][0].pc:
            if c.get_id() not in old and stable(c) and not any(c.eq(x) for x in facts):
                facts.append(c)
    # Houdini over the bounds
    while True:
        S = G.clone()
        S.pc = list(base_pc)
        for l in cands:
            S.pc.append(z3.ULE(k, bv(l, 64)))       # 0 <= l holds trivially
        for c in facts:
            S.pc.append(z3.Or(k == 0, c))
        with Trial(E) as T:
            r = E.run(F, H, S.clone(), dict(genv), body=body)
            bad = []
            for b, e, pred in r.get(H.id, []):
                for l in cands:
                    if not E.valid(b, z3.ULE(k + 1, bv(l, 64))):
                        if not any(l is x for x in bad):
                            bad.append(l)
            weak = [c for c in facts if not all(E.valid(b, c) for b, e, pred in r.get(H.id, []))]
            if bad or weak:
                facts = [c for c in facts if not any(c.eq(x) for x in weak)]
                cands = [l for l in cands if not any(l is x for x in bad)]
                T.rollback()
                continue
            if T.failed():
                # a failing obligation is reported when it also fails with the final invariant; keep it
                pass
            # inductiveness
            k1 = simp(k + 1)
            T1, e1 = subst_state(E, G, genv, k, k1)
            hz = set()
            for b, e, pred in r.get(H.id, []):
                e = phis(E, F, H, e, pred)
                compare(E, b, e, T1, e1, k, H, havoc, each, G)
            break
    outs = {}
    if given:
        # every iteration that starts below the bounds ends at the head again: then the states at the head are exactly those with
        # a number of iterations up to the bounds
        for kk, lst in r.items():
            for s2, e2, x in lst if kk != H.id else ():
                t = s2.clone()
                t.pc = t.pc + [z3.ULT(k, bv(l, 64)) for l in cands] + facts
                if E.sat(t):
                    given = False
        if not given:
            for f in E.fails[len(T.s[0]):]:
                f["weak"] = True
    for kk, lst in r.items():
        if kk == H.id:
            continue
        for s2, e2, x in lst:
            if not given:
                s2.notes['weak'] = True
            for l in cands:
                if E.valid(s2, k == bv(l, 64)):
                    env_all = dict(e2)
                    if kk == 'ret':
                        env_all['ret'] = x if x is not None else UNDEF
                    s3, e3 = subst_state(E, s2, env_all, k, l)
                    if kk == 'ret':
                        x = e3.pop('ret')
                    s2, e2 = s3, e3
                    break
            clean_osl(E, s2)
            partition(E, s2)
            outs.setdefault(kk, []).append((s2, e2, x))
    return outs


def partition(E, st):
    """Lemma: a sequence split by the dynamic class of its elements into filters that cover all classes owns what the filters own.
    The filtered sequences become vectors of their own."""
    from . import own
    groups = {}
    for key, o in st.objs.items():
        for off, (n, v) in o.cells.items():
            if isinstance(v, Vec):
                for s in v.segs:
                    if s[0] == 'F':
                        groups.setdefault((s[1], repr(s[3]), repr(s[4])), []).append((key, off, s))
    for (vs, a, b), lst in groups.items():
        base = E.vectype(st, vs)
        got = [c for key, off, s in lst for c in s[2]]
        if base is None or len(got) != len(set(got)) or not set(got) >= {c for c in E.lay.subs[base] if E.concrete(c)}:
            continue
        s = lst[0][2]
        if vs not in st.osl and (vs in st.own or E.take(st, vs)):
            E.unfold(st, vs, None, "partition")
        if not own.take_slice(E, st, vs, s[3], s[4]):
            continue
        for key, off, s in lst:
            v = E.vecat(st, key, off)
            nm = f"{vs}|{'|'.join(sorted(s[2]))}"
            E.vectypes[nm] = v.et
            E.filters[nm] = (vs, s[2], s[3], s[4])
            ln = E.veclen(st, nm)
            w = st.w(key)
            w.cells[off] = (24, Vec(v.et, [('s', nm, 0, ln) if x is s else x for x in v.segs]))
            st.osl[nm] = ((0, ln),)


def genvec(E, st0, v0, afters, k):
    """v0 before, v1 after one iteration: appended elements become a (filtered) copy of a traversed vector"""
    app = None
    for v1, b in afters:
        n = len(v0.segs)
        if len(v1.segs) == n and veq(v1.segs, v0.segs):
            continue
        if len(v1.segs) == n and n and v0.segs[-1][0] == v1.segs[-1][0] == 's' and veq(v0.segs[:-1], v1.segs[:-1]) and v0.segs[-1][1] == v1.segs[-1][1]:
            (_, nm, a, b0), (_, _, c, d) = v0.segs[-1][:4], v1.segs[-1][:4]
            da, db = delta(E, st0, a, c), delta(E, st0, b0, d)
            if da is not None and db is not None and (app is None or app[0] is None and app[1] == (da, db)) and (da or db):
                app = [None, (da, db), ('s', nm, lin(a, da, k) if da else a, lin(b0, db, k) if db else b0)]
                continue
        if len(v1.segs) != n + 1 or not veq(v1.segs[:n], v0.segs) or v1.segs[n][0] not in ('e', 's'):
            # appended segment may have been absorbed
            raise Unsupported("vector changed by a loop in an unknown way")
        sg = v1.segs[n]
        x = elem_of(E, sg[1]) if sg[0] == 'e' else (sg[1], sg[2], None)
        if x is None:
            raise Unsupported("a loop appends values that are not elements of a traversed vector")
        if app is None:
            app = [x[0], x[1], set()]
        elif app[0] != x[0] or not veq(app[1], x[1]):
            raise Unsupported("a loop appends from several vectors")
        nm = f"{x[0]}[{x[1]}]"
        app[2].add(frozenset(b.cls[nm]) if nm in b.cls else None)
    if app is None:
        return v0
    if app[0] is None:
        if not all(not veq(v1.segs, v0.segs) for v1, b in afters):
            raise Unsupported("elements are removed in some iterations only")
        return Vec(v0.et, v0.segs[:-1] + (app[2],))
    i0 = app[1]
    hi = simp(bv(i0, 64) + k)
    allapp = all(not veq(v1.segs, v0.segs) for v1, b in afters)
    if allapp:
        return Vec(v0.et, v0.segs + (('s', app[0], i0, hi),))
    cs = set()
    for c in app[2]:
        if c is None:
            raise Unsupported("a loop appends under an unknown condition")
        cs |= c
    return Vec(v0.et, v0.segs + (('F', app[0], frozenset(cs), i0, hi),))


def gen_slices(E, st0, o0, os_, k):
    first = os_[0]
    if not all(veq(first, x) for x in os_[1:]):
        raise Unsupported("a loop consumes elements on some paths only")
    # try: each slice's bounds move linearly
    if len(first) == len(o0):
        out = []
        for (a, b), (c, d) in zip(o0, first):
            da, db = delta(E, st0, a, c), delta(E, st0, b, d)
            if da is None or db is None:
                raise Unsupported("slice bounds are not linear")
            out.append((lin(a, da, k) if da else a, lin(b, db, k) if db else b))
        return tuple(out)
    if len(first) == len(o0) + 1:
        # an element in the middle or a new slice was consumed: (a,b) -> (a,i),(i+1,b)
        for j, (a, b) in enumerate(o0):
            rest = first[:j] + first[j + 2:]
            if veq(rest, o0[:j] + o0[j + 1:]):
                (c, d), (e, f) = first[j], first[j + 1]
                if veq(c, a) and veq(f, b) and delta(E, st0, d, e) == 1:
                    return o0[:j] + ((a, d), (lin(d, 1, k), b)) + o0[j + 1:]
    if len(o0) == 1 and len(first) == 0:
        # a vector with one element left: the rest is consumed from the front
        a, b = o0[0]
        return ((lin(a, 1, k), b),)
    raise Unsupported(f"ownership changes in an unknown way {o0} {first}")


def absorb(E, st, v):
    """normalise appended elements into the preceding segment"""
    segs = list(v.segs)
    ch = True
    while ch:
        ch = False
        for i in range(len(segs) - 1):
            p, q = segs[i], segs[i + 1]
            if q[0] == 'e' and p[0] in ('s', 'F'):
                x = elem_of(E, q[1])
                hi = p[3] if p[0] == 's' else p[4]
                if x and x[0] == p[1] and veq(simp(bv(x[1], 64)), simp(bv(hi, 64))):
                    nm = q[1].b[1]
                    if p[0] == 's':
                        segs[i:i + 2] = [('s', p[1], p[2], simp(bv(hi, 64) + 1))]
                        ch = True
                        break
                    c = st.cls.get(nm)
                    if c is not None and c <= p[2]:
                        segs[i:i + 2] = [('F', p[1], p[2], p[3], simp(bv(hi, 64) + 1))]
                        ch = True
                        break
    return Vec(v.et, segs)


def extend_filter(E, st, v, k, k1):
    """F(.., k) equals F(.., k+1) when element k does not match"""
    segs = []
    for p in v.segs:
        if p[0] == 'F' and isz(p[4]):
            nm = f"{p[1]}[{p[4]}]"
            c = st.cls.get(nm)
            if c is not None and not (c & p[2]):
                p = ('F', p[1], p[2], p[3], simp(bv(p[4], 64) + 1))
        segs.append(p)
    return Vec(v.et, segs)


def num_eq(E, st, a, b):
    if veq(a, b):
        return True
    if (isz(a) or isinstance(a, (int, bool))) and (isz(b) or isinstance(b, (int, bool))):
        w = a.size() if isz(a) and not z3.is_bool(a) else b.size() if isz(b) and not z3.is_bool(b) else 64
        if isz(a) and z3.is_bool(a) or isz(b) and z3.is_bool(b):
            return E.valid(st, a == b)
        return E.valid(st, bv(a, w) == bv(b, w))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
        return num_eq(E, st, a.o, b.o)
    return False


def consts(I):
    """constants that a number of iterations may be compared with"""
    return [o.v for o in I.ops if o.k == 'int' and isinstance(o.v, int) and 1 < o.v < 1 << 20]


STABLE = re.compile(r'(null:)?[A-Za-z_$@][\w$@]*(\.\w+)+$')


def stable(c):
    """the condition is about values found in the memory before the loop"""
    todo, n = [c], 0
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n += 1
            if not STABLE.match(x.decl().name()):
                return False
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        todo += x.children()
    return n > 0


def is_hv(v):
    return v is HAVOC or isz(v) and z3.is_const(v) and str(v).startswith('hv')


def exact(F, body, st0, env0, G, genv, havoc):
    """the summary describes every state at the head and no other: one way out of the loop, and every value is given in terms
    of the number of iterations"""
    if havoc:
        return False
    out = 0
    for b in F.blocks:
        if b.id in body or b in body:
            for t in b.succ:
                if not (t.id in body or t in body) and not (t.insts and t.insts[-1].op == 'unreachable'):
                    out += 1
    if out != 1:
        return False
    for i, v in genv.items():
        if i != 'allocas' and is_hv(v) and not is_hv(env0.get(i)):
            return False
    for key, o in G.objs.items():
        q = st0.objs.get(key)
        for off, (n, v) in o.cells.items():
            if is_hv(v) and q is not None and off in q.cells and not is_hv(q.cells[off][1]):
                return False
            if isinstance(v, Vec) and any(is_hv(x) for sg in v.segs for x in sg[1:]):
                return False
    return True


def compare(E, b, e, T, te, k, H, havoc, each, G):
    E.norm(b)
    for i, v in te.items():
        if i == 'allocas' or is_hv(v):
            continue
        if i not in e:
            continue
        if not num_eq(E, b, e[i], v):
            raise NotInductive(('env', i), f"{e[i]} vs {v}")
    for key, o in T.objs.items():
        p = b.objs.get(key)
        if p is None:
            raise NotInductive(None, f"{key} was released")
        for off, (n, v) in o.cells.items():
            if is_hv(v):
                continue
            c = p.cells.get(off)
            if c is None or c[0] != n:
                raise NotInductive(None, f"cell {key}+{off} lost")
            if isinstance(v, Vec):
                if not isinstance(c[1], Vec):
                    raise NotInductive(None, "vector lost")
                cv = absorb(E, b, extend_filter(E, b, c[1], k, None) if not veq(c[1], v) else c[1])
                if not veq(cv, v):
                    cv = extend_filter(E, b, absorb(E, b, c[1]), k, None)
                    if not veq(cv, v):
                        raise NotInductive(None, f"vector {cv} vs {v}")
                continue
            if not num_eq(E, b, c[1], v):
                raise NotInductive(('cell', key, off), f"{c[1]} vs {v}")
    for key, p in b.objs.items():
        if key in T.objs or key in G.objs:
            continue
        if p.kind in ('stack', 'global'):
            continue
        nm = next((n for n, q in b.mat.items() if q == key), None)
        if p.ro and nm in E.elems and E.elems[nm][0] in each:
            w = each[E.elems[nm][0]]
            ix = z3.BitVec("each:" + E.elems[nm][0], 64)
            if not num_eq(E, b, E.elems[nm][1], lin(w[0], 1, k)):
                raise NotInductive(None, "another element is written")
            for off, (n, val) in p.cells.items():
                if off in w[1]:
                    want = w[1][off][1]
                    if isz(want):
                        want = simp(z3.substitute(want, (ix, lin(w[0], 1, k))))
                    if not num_eq(E, b, val, want):
                        raise NotInductive(None, "the value written to the elements varies")
                else:
                    base = E.lazyload(b, p, key, off, n, None)
                    if base is None or not veq(base, val):
                        raise NotInductive(None, "another field of the elements is written")
            continue
        raise NotInductive(None, f"object {key} {p} appears in every iteration")
    if set(b.own) != set(T.own):
        raise NotInductive(None, f"ownership of {sorted(set(b.own) ^ set(T.own))[:3]} changes")
    clean_osl(E, b)
    tb = T.clone()
    tb.pc = list(b.pc)
    clean_osl(E, tb)
    for v in set(b.osl) | set(tb.osl):
        x, y = b.osl.get(v, ()), tb.osl.get(v, ())
        if len(x) != len(y) or not all(num_eq(E, b, p, q) and num_eq(E, b, r, s) for (p, r), (q, s) in zip(x, y)):
            raise NotInductive(None, f"slices of {v}: {x} vs {y}")
    # facts about havocked values do not survive; path conditions of the invariant state mention only k
    for p in G.pc:
        pass
