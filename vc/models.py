"""Contracts for the standard library (trusted; listed in the evidence)."""
import re
import z3
from .sym import Ptr, NULL, Vec, Str, SetV, Tm, Opaque, UNDEF, ZERO, Unsupported, DeadPath, isz, simp, bv, veq, Agg

TRUSTED = {
    "operator new / malloc": "returns a fresh block and never fails",
    "operator delete / free": "releases exactly the given live block (or null)",
    "std::vector": "sequence semantics of construction, copy, move, push_back, emplace_back, size, empty, element access, iteration and clear",
    "std::unordered_set": "set semantics of insert and count",
    "std::string": "value semantics",
    "std::sort": "sorts by the given comparator, which has to be a strict weak ordering",
    "strcasecmp/sscanf/strdup/strncpy/strlen/memcpy/memset": "ISO C / POSIX semantics, values uninterpreted",
    "__dynamic_cast": "succeeds iff the dynamic class derives from the target",
    "iostreams": "printing has no effect on the syntax tree",
}


def content(E, st, p):
    """Term for the characters a char pointer points to."""
    if p.b is None:
        return Tm("null")
    if p.b[0] == 'g':
        t, init, const, tl = E.M.glob(p.b[1])
        if const and init is not None and init.k in ('str', 'zero') and isinstance(p.o, int):
            b = init.v if init.k == 'str' else b'\0'
            b = b[p.o:]
            return Tm("lit:" + b.split(b'\0')[0].decode('latin1'))
        return Tm("g:" + p.b[1])
    if p.b[0] == 's':
        nm = p.b[1]
        if nm in st.mat:
            k = st.mat[nm]
            o = st.objs.get(k)
            if o is not None and o.dirty:
                return Tm(f"mod:{nm}:{len(o.cells)}")
        base = Tm("str:" + nm)
    else:
        o = st.objs.get(p.b)
        if o is None:
            return Tm("dangling")
        if o.lazy is not None and o.lazy[0] == 'content':
            base = o.lazy[1]
        else:
            base = Tm("buf:" + str(p.b[1]))
    if isinstance(p.o, int) and p.o == 0:
        return base
    return Tm("sub", base, p.o)


def use_str(E, st, p, I, what):
    """The pointer has to designate a live string."""
    if p is UNDEF:
        E.fail(st, "uninit", f"{what} on an indeterminate pointer", I)
        raise DeadPath()
    if p.b is not None and p.b[0] in ('f', 'vptr', 'vfn'):
        raise Unsupported("string operation on " + repr(p))
    key, off = E.key(st, p, I, what)
    return key, off


# ------------------------------------------------------------------ allocation

def m_new(E, st, a, I):
    n = a[0]
    if isz(n):
        k = st.alloc('new', n)
        st.objs[k].lazy = ('buf',)
        return [(st, Ptr(k))]
    k = st.alloc('new', int(n))
    return [(st, Ptr(k))]


def m_malloc(E, st, a, I):
    n = a[0]
    k = st.alloc('malloc', n)
    if isz(n):
        st.w(k).lazy = ('buf',)
    return [(st, Ptr(k))]


def release(E, st, p, kinds, what, I, size=None):
    if p is UNDEF:
        E.fail(st, "uninit", f"{what} of an indeterminate pointer", I)
        raise DeadPath()
    if not isinstance(p, Ptr):
        raise Unsupported(f"{what} of {p!r}")
    n = E.isnull(st, p)
    if n is True:
        return
    if p.b[0] == 's' and p.b[1] not in st.mat:
        nm = p.b[1]
        if E.take(st, nm, I):
            ct = st.own[nm]
            if ct == 'char':
                E.check(st, "dealloc", 'malloc' in kinds, f"{what} of memory that was not allocated for it ({nm})", I)
                if not (isinstance(p.o, int) and p.o == 0):
                    E.fail(st, "dealloc", f"{what} of an interior pointer ({nm})", I)
                del st.own[nm]
                return
            # the contents have to be given up separately
            if n is not False:
                d = E.decide(st, n)
                if d is True:
                    return
                if d is None:
                    raise Unsupported(f"{what} of a possibly null object {nm}")
            k = E.unfold(st, nm, I, what)
        else:
            d = E.decide(st, n)
            if d is True:
                return
            if nm in st.borrow:
                E.fail(st, "dealloc", f"{what} of borrowed memory ({nm})", I)
            else:
                E.fail(st, "double-free", f"{what} of memory that is not owned here any more ({nm})", I)
            raise DeadPath()
    elif p.b[0] == 's':
        k = st.mat[p.b[1]]
    elif p.b[0] == 'o':
        k = p.b
    else:
        E.fail(st, "dealloc", f"{what} of memory that was not allocated dynamically", I)
        raise DeadPath()
    o = st.objs.get(k)
    if o is None:
        E.fail(st, "double-free", f"{what} of memory that was already released", I)
        raise DeadPath()
    if o.ro:
        E.fail(st, "dealloc", f"{what} of borrowed memory ({k[1]})", I)
        raise DeadPath()
    if not (isinstance(p.o, int) and p.o == 0):
        E.fail(st, "dealloc", f"{what} of an interior pointer", I)
        raise DeadPath()
    E.check(st, "dealloc", o.kind in kinds, f"{what} of memory from {o.kind}", I)
    if size is not None and isinstance(o.size, int) and isinstance(size, int):
        E.check(st, "dealloc", o.size == size, f"{what} with size {size} of an object of size {o.size}", I)
    del st.objs[k]


def m_free(E, st, a, I):
    release(E, st, a[0], ('malloc',), "free", I)
    return [(st, None)]


def m_delete(E, st, a, I):
    size = a[1] if len(a) > 1 else None
    release(E, st, a[0], ('new',), "delete", I, size)
    return [(st, None)]


def strobj(E, st, term, kind='malloc', size=None):
    k = st.alloc(kind, size)
    o = st.objs[k]
    o.cls = 'char'
    o.lazy = ('content', term)
    return Ptr(k)


def m_strdup(E, st, a, I):
    use_str(E, st, a[0], I, "strdup")
    return [(st, strobj(E, st, content(E, st, a[0])))]


def m_strncpy(E, st, a, I):
    key, off = E.key(st, a[0], I, "strncpy")
    use_str(E, st, a[1], I, "strncpy")
    o = st.w(key)
    if o.size is not None:
        E.check(st, "bounds", simp(z3.ULE(bv(off, 64) + bv(a[2], 64), bv(o.size, 64))), "strncpy beyond the end of the buffer", I)
    o.lazy = ('content', Tm("strn", content(E, st, a[1]), a[2]))
    o.cls = 'char'
    return [(st, a[0])]


def m_strlen(E, st, a, I):
    use_str(E, st, a[0], I, "strlen")
    c = content(E, st, a[0])
    if c.op.startswith("lit:"):
        return [(st, len(c.op) - 4)]
    v = z3.BitVec("strlen:" + (c.op[4:] if c.op.startswith("str:") else repr(c)), 64)
    E.assume(st, z3.ULE(v, 1 << 31))
    return [(st, v)]


def cmpvar(E, st, f, x, y):
    if x.op.startswith("lit:") and not y.op.startswith("lit:"):
        x, y = y, x
    if x.op.startswith("lit:") and y.op.startswith("lit:"):
        p, q = x.op[4:], y.op[4:]
        if f == 'strcasecmp':
            p, q = p.lower(), q.lower()
        return 0 if p == q else (1 if p > q else (1 << 32) - 1)
    v = z3.BitVec(f"{f}({x!r},{y!r})", 32)
    if y.op.startswith("lit:"):
        fam = ('cmp', f, repr(x))
        known = st.notes.get(fam, ())
        for k in known:
            if (k.lower() if f == 'strcasecmp' else k) != (y.op[4:].lower() if f == 'strcasecmp' else y.op[4:]):
                w = z3.BitVec(f"{f}({x!r},{Tm('lit:' + k)!r})", 32)
                E.assume(st, z3.Not(z3.And(v == 0, w == 0)))
        if y.op[4:] not in known:
            st.notes[fam] = tuple(sorted(known + (y.op[4:],)))
    return v


def m_cmp(name):
    def h(E, st, a, I):
        use_str(E, st, a[0], I, name)
        use_str(E, st, a[1], I, name)
        return [(st, cmpvar(E, st, name, content(E, st, a[0]), content(E, st, a[1])))]
    return h


def fmtdirs(f):
    return re.findall(r'%(\*?)(\d*)(?:l|h|ll)?([dsnciuxfg%])', f)


def m_sscanf(E, st, a, I):
    use_str(E, st, a[0], I, "sscanf")
    c = content(E, st, a[0])
    f = content(E, st, a[1])
    if not f.op.startswith("lit:"):
        raise Unsupported("sscanf format")
    fmt = f.op[4:]
    nm = f"sscanf({c!r},{fmt!r})"
    ret = z3.BitVec(nm, 32)
    dirs = fmtdirs(fmt)
    total = sum(1 for d in dirs if d[2] not in 'n%' and not d[0])
    E.assume(st, z3.And(ret >= -1, ret <= total))
    done, ai = 0, 2
    for star, width, t in dirs:
        if star or t == '%':
            continue
        if ai >= len(a):
            E.fail(st, "bounds", "sscanf with too few arguments", I)
            break
        p = a[ai]
        ai += 1
        if t == 'n':
            old = E.load(st, p, 4, None, I)
            v = z3.BitVec(f"{nm}.n", 32)
            ln = z3.BitVec("strlen:" + (c.op[4:] if c.op.startswith("str:") else repr(c)), 64)
            E.assume(st, z3.ULE(ln, 1 << 31))
            E.assume(st, z3.And(v >= 0, z3.ULE(z3.ZeroExt(32, v), ln)))
            E.store(st, p, 4, simp(z3.If(ret == total, v, bv(old if old is not UNDEF else 0, 32))), I)
        elif t == 's':
            key, off = E.key(st, p, I, "sscanf")
            o = st.w(key)
            if not width:
                E.fail(st, "bounds", "sscanf %s without a width", I)
            elif isinstance(o.size, int):
                E.check(st, "bounds", off + int(width) + 1 <= o.size, f"sscanf %{width}s into a buffer of {o.size - off} bytes", I)
            o.lazy = ('content', Tm(f"{nm}.{done}"))
            o.cells = {}
            o.cls = 'char'
            done += 1
        else:
            sz = 8 if t in 'd' and re.search(r'%\d*ll?d', fmt) else 4
            v = z3.BitVec(f"{nm}.{done}", 8 * sz)
            old = E.load(st, p, sz, None, I)
            done += 1
            E.store(st, p, sz, v if old is UNDEF else simp(z3.If(ret >= done, v, bv(old, 8 * sz))), I)
    return [(st, ret)]


def m_memcpy(E, st, a, I):
    n = a[2]
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and isinstance(n, int):
        E.memcpy(st, a[0], a[1], n, I)
        return [(st, a[0])]
    raise Unsupported("memcpy of a symbolic size")


def m_memset(E, st, a, I):
    if not isinstance(a[2], int):
        key, off = E.key(st, a[0], I, "memset")
        raise Unsupported("memset of a symbolic size")
    E.memset(st, a[0], a[1], a[2], I)
    return [(st, a[0])]


def m_nop(E, st, a, I):
    return [(st, None)]


def m_lifetime(E, st, a, I):
    p = a[1] if len(a) > 1 else a[0]
    if isinstance(p, Ptr) and p.b and p.b[0] == 'o' and p.b in st.objs:
        o = st.objs[p.b]
        if o.cells and not any(isinstance(v, (Vec, Str, SetV)) for n, v in o.cells.values()) and o.kind == 'stack' and p.o == 0 and not (o.lazy and o.lazy[0] == 'fn'):
            o = st.w(p.b)
            o.cells = {}
            o.lazy = None
    return [(st, None)]


def m_arg0(E, st, a, I):
    return [(st, a[0])]


def m_retarg0(E, st, a, I):
    return [(st, a[0])]


def m_dyncast(E, st, a, I):
    p = a[0]
    n = E.isnull(st, p)
    if n is not False:
        d = E.decide(st, n)
        if d is True:
            return [(st, NULL)]
        if d is None:
            raise Unsupported("dynamic_cast of a possibly null pointer")
    src, dst = clsname_ti(a[1]), clsname_ti(a[2])
    res = []
    opts = classes(E, st, p, src, I)
    yes = [c for c in opts if dst in E.hier_up(c)]
    no = [c for c in opts if c not in yes]
    if yes:
        s = st.clone() if no else st
        if no:
            setcls(s, p, yes)
        res.append((s, p))
    if no:
        if yes:
            setcls(st, p, no)
        res.append((st, NULL))
    return res


def clsname_ti(p):
    m = re.match(r'_ZTIN4hsql(\d+)(\w+)E$', p.b[1])
    return m[2] if m else p.b[1]


def vt_cls(p):
    m = re.match(r'_ZTVN4hsql(\d+)(\w+)E$', p.b[1]) if p.b and p.b[0] == 'g' else None
    return m[2] if m else None


def classes(E, st, p, static, I):
    if p.b[0] == 's' and p.b[1] not in st.mat or p.b[0] == 's':
        nm = p.b[1]
        if nm in st.cls:
            return sorted(st.cls[nm])
        ct = E.own_type(st, nm) or static
        if ct not in E.lay.subs:
            ct = static
        if nm in st.mat and st.objs[st.mat[nm]].cells.get(0):
            c = vt_cls(st.objs[st.mat[nm]].cells[0][1]) if isinstance(st.objs[st.mat[nm]].cells[0][1], Ptr) else None
            if c:
                return [c]
        return sorted(c for c in E.lay.subs[ct] if E.concrete(c))
    o = st.objs.get(p.b)
    if o is not None and 0 in o.cells:
        c = vt_cls(o.cells[0][1])
        if c:
            return [c]
    raise Unsupported("dynamic class of " + repr(p))


def setcls(st, p, cs):
    st.cls[p.b[1]] = frozenset(cs)


# ------------------------------------------------------------------ vectors

def vecof(E, st, p, I, et=None):
    key, off = E.key(st, p, I, "vector access")
    v = E.vecat(st, key, off)
    if v is None:
        o = st.objs[key]
        c = o.cells.get(off)
        z = c and c[1]
        if c is None:
            for a, (n, x) in o.cells.items():
                if x is ZERO and a <= off and off + 24 <= a + n:
                    z = ZERO
        if z is ZERO:
            v = Vec(et or '?')
            setvec(E, st, key, off, v)
            return key, off, v
        E.fail(st, "uninit", "use of a vector that was not constructed", I)
        raise DeadPath()
    return key, off, v


def setvec(E, st, key, off, v):
    o = st.w(key)
    o.dirty = True
    E.clear(o, off, 24)
    o.cells[off] = (24, v)


def span(E, st, a, b):
    """the elements between two iterators: all of one vector, or of known positions"""
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b and a.b and a.b[0] == 'vb'):
        raise Unsupported("range of elements")
    v = E.vecat(st, a.b[1], a.b[2])
    n = E.vlen(v)
    if E.valid(st, z3.And(bv(a.o, 64) == 0, bv(b.o, 64) == bv(n, 64) * 8)):
        return v.segs
    if not isz(a.o) and not isz(b.o) and all(x[0] == 'e' for x in v.segs):
        return v.segs[a.o // 8:b.o // 8]
    raise Unsupported("part of a vector")


def vec_method(E, name, dem):
    if dem.startswith('__gnu_cxx') or 'gnu_cxx::operator' in dem:
        return None
    m = re.match(r'(?:.*? )?std::vector<(.*?)\*(?: const)?, std::allocator<.*?> >::(~?\w+|operator\[\]|operator=)(<.*>)?\((.*)\)( const)?$', dem)
    if not m or ' ' in dem.split('std::vector')[0].strip() and 'std::vector' not in dem:
        return None
    et = m[1].replace('hsql::', '').strip()
    meth, args = m[2], m[4]
    if et == 'char':
        et = 'char'

    def base(st, a, I):
        return vecof(E, st, a[0], I, et)

    if meth == 'vector':
        if args == '':
            def h(E, st, a, I):
                key, off = E.key(st, a[0], I, "write")
                setvec(E, st, key, off, Vec(et))
                return [(st, None)]
            return h
        if args.startswith('std::vector'):
            mv = '&&' in args

            def h(E, st, a, I):
                k2, o2, v = vecof(E, st, a[1], I, et)
                key, off = E.key(st, a[0], I, "write")
                setvec(E, st, key, off, v)
                if mv:
                    setvec(E, st, k2, o2, Vec(v.et))
                return [(st, None)]
            return h
        if args.startswith('std::initializer_list'):
            def h(E, st, a, I):
                n = a[2]
                if isz(n):
                    raise Unsupported("vector construction from a list of unknown length")
                xs = tuple(('e', E.load(st, Ptr(a[1].b, simp(bv(a[1].o, 64) + 8 * i) if isz(a[1].o) else a[1].o + 8 * i), 8, PTRTY, I)) for i in range(n))
                key, off = E.key(st, a[0], I, "write")
                setvec(E, st, key, off, Vec(et, xs))
                return [(st, None)]
            return h
        if args.startswith('__gnu_cxx::__normal_iterator') and args.count('__normal_iterator') >= 2:
            def h(E, st, a, I):
                segs = span(E, st, a[1], a[2])
                key, off = E.key(st, a[0], I, "write")
                setvec(E, st, key, off, Vec(et, segs))
                return [(st, None)]
            return h
        return lambda E, st, a, I: (_ for _ in ()).throw(Unsupported("vector constructor " + dem))
    if meth == '~vector':
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            o = st.w(key)
            o.dirty = True
            o.cells[off] = (24, UNDEF)
            return [(st, None)]
        return h
    if meth in ('push_back', 'emplace_back'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            x = E.load(st, a[1], 8, PTRTY, I)
            if x is UNDEF:
                E.fail(st, "uninit", "an indeterminate pointer is added to a vector", I)
                raise DeadPath()
            if st.objs[key].ro and not E.borrow_write_ok(st, key, off):
                E.fail(st, "frame", "write to a borrowed vector", I)
            setvec(E, st, key, off, Vec(v.et, v.segs + (('e', x),)))
            n = E.vlen(v)
            return [(st, Ptr(('vb', key, off), n * 8 if not isz(n) else simp(bv(n, 64) * 8)))]
        return h
    if meth == 'size':
        return lambda E, st, a, I: [(st, E.vlen(base(st, a, I)[2]))]
    if meth == 'empty':
        def h(E, st, a, I):
            n = E.vlen(base(st, a, I)[2])
            return [(st, simp(bv(n, 64) == 0) if isz(n) else n == 0)]
        return h
    if meth in ('begin', 'cbegin', 'data'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            return [(st, Ptr(('vb', key, off), 0))]
        return h
    if meth in ('end', 'cend'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            n = E.vlen(v)
            return [(st, Ptr(('vb', key, off), simp(bv(n, 64) * 8) if isz(n) else 8 * n))]
        return h
    if meth in ('back', 'front'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            n = E.vlen(v)
            E.check(st, "bounds", simp(z3.UGE(bv(n, 64), 1)) if isz(n) else n >= 1, f"{meth}() of a possibly empty vector", I)
            if meth == 'front':
                return [(st, Ptr(('vb', key, off), 0))]
            return [(st, Ptr(('vb', key, off), simp((bv(n, 64) - 1) * 8) if isz(n) else 8 * (n - 1)))]
        return h
    if meth in ('operator[]', 'at'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            n = E.vlen(v)
            i = a[1]
            E.check(st, "bounds", simp(z3.ULT(bv(i, 64), bv(n, 64))) if isz(i) or isz(n) else i < n, "vector index out of bounds", I)
            return [(st, Ptr(('vb', key, off), simp(bv(i, 64) * 8) if isz(i) else 8 * i))]
        return h
    if meth == 'clear':
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            setvec(E, st, key, off, Vec(v.et))
            return [(st, None)]
        return h
    if meth in ('insert', 'emplace'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            p = a[1]
            if not (isinstance(p, Ptr) and p.b == ('vb', key, off)):
                raise Unsupported("insertion at a position of another vector")
            if st.objs[key].ro and not E.borrow_write_ok(st, key, off):
                E.fail(st, "frame", "write to a borrowed vector", I)
            if '__normal_iterator' in args.split(',', 1)[-1] and len(a) == 4:
                new = span(E, st, a[2], a[3])
            elif len(a) == 3 and '&' in args:
                new = (('e', E.load(st, a[2], 8, PTRTY, I)),)
                if new[0][1] is UNDEF:
                    E.fail(st, "uninit", "an indeterminate pointer is added to a vector", I)
                    raise DeadPath()
            else:
                raise Unsupported("vector method " + dem[:120])
            n = E.vlen(v)
            if E.valid(st, bv(p.o, 64) == bv(n, 64) * 8):
                segs = v.segs + new
            elif E.valid(st, bv(p.o, 64) == 0):
                segs = new + v.segs
            elif not isz(p.o) and all(x[0] == 'e' for x in v.segs):
                segs = v.segs[:p.o // 8] + new + v.segs[p.o // 8:]
            else:
                raise Unsupported("insertion into the middle of a vector")
            setvec(E, st, key, off, Vec(v.et, segs))
            return [(st, p)]
        return h
    if meth == 'assign' and args.count('__normal_iterator') >= 2:
        def h(E, st, a, I):
            segs = span(E, st, a[1], a[2])
            key, off, v = base(st, a, I)
            setvec(E, st, key, off, Vec(v.et, segs))
            return [(st, None)]
        return h
    if meth == 'pop_back':
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            n = E.vlen(v)
            E.check(st, "bounds", simp(z3.UGE(bv(n, 64), 1)) if isz(n) else n >= 1, "pop_back() of a possibly empty vector", I)
            if v.segs and v.segs[-1][0] == 's':
                q = v.segs[-1]
                if E.valid(st, z3.ULT(bv(q[2], 64), bv(q[3], 64))):
                    setvec(E, st, key, off, Vec(v.et, v.segs[:-1] + (q[:3] + (simp(bv(q[3], 64) - 1),) + q[4:],)))
                    return [(st, None)]
            if v.segs and v.segs[-1][0] == 'e':
                setvec(E, st, key, off, Vec(v.et, v.segs[:-1]))
                return [(st, None)]
            raise Unsupported("pop_back")
        return h
    if meth in ('reserve', 'shrink_to_fit'):
        return lambda E, st, a, I: [(st, None)]
    if meth == 'operator=':
        mv = '&&' in args

        def h(E, st, a, I):
            k2, o2, v = vecof(E, st, a[1], I, et)
            key, off, old = base(st, a, I)
            setvec(E, st, key, off, v)
            if mv and (key, off) != (k2, o2):
                setvec(E, st, k2, o2, Vec(v.et))
            return [(st, a[0])]
        return h
    if meth == 'swap':
        def h(E, st, a, I):
            k2, o2, v = vecof(E, st, a[1], I, et)
            key, off, old = base(st, a, I)
            setvec(E, st, key, off, v)
            setvec(E, st, k2, o2, old)
            return [(st, None)]
        return h
    if meth.startswith('_'):
        return None
    return lambda E, st, a, I: (_ for _ in ()).throw(Unsupported("vector method " + dem[:120]))


class _PT:
    k, w, size = 'ptr', 0, 8


PTRTY = _PT()


# ------------------------------------------------------------------ unordered_set<enum>

def set_method(E, name, dem):
    m = re.match(r'(?:.*? )?std::unordered_set<hsql::(\w+), .*>::(~?\w+)\((.*)\)( const)?$', dem)
    if not m:
        return None
    meth, args = m[2], m[3]

    def base(st, a, I):
        key, off = E.key(st, a[0], I, "set access")
        c = st.objs[key].cells.get(off)
        if c is None or not isinstance(c[1], SetV):
            E.fail(st, "uninit", "use of a set that was not constructed", I)
            raise DeadPath()
        return key, off, c[1]

    def put(st, key, off, v):
        o = st.w(key)
        o.dirty = True
        E.clear(o, off, E.lay.setsize)
        o.cells[off] = (E.lay.setsize, v)

    if meth == 'unordered_set' and args == '':
        def h(E, st, a, I):
            key, off = E.key(st, a[0], I, "write")
            put(st, key, off, SetV(None))
            return [(st, None)]
        return h
    if meth == '~unordered_set':
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            st.w(key).cells[off] = (E.lay.setsize, UNDEF)
            return [(st, None)]
        return h
    if meth in ('insert', 'emplace'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            x = E.load(st, a[1], 4, I32, I)
            if not any(veq(x, y) for y in v.ins):
                put(st, key, off, SetV(v.base, tuple(sorted(v.ins + (x,), key=repr))))
            return [(st, Agg((UNDEF, UNDEF)))]
        return h
    if meth == 'count':
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            x = E.load(st, a[1], 4, I32, I)
            return [(st, member(E, st, v, x))]
        return h
    if meth in ('find', 'contains'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            x = E.load(st, a[1], 4, I32, I)
            n = member(E, st, v, x)
            if meth == 'contains':
                return [(st, n != 0)]
            return [(st, Ptr(('setit', key, off), simp(bv(n, 64) * 8) if isz(n) else 8 * n))]
        return h
    if meth in ('end', 'cend'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            return [(st, Ptr(('setit', key, off), 0))]
        return h
    if meth in ('size', 'empty'):
        def h(E, st, a, I):
            key, off, v = base(st, a, I)
            n, seen = 0, []
            for c in sorted({E.lay.enumval[(en, k)] for (en, k) in E.lay.enumval if en == m[1]}):
                # the members are enumerators
                x = member(E, st, v, c)
                n = simp(bv(n, 64) + bv(x, 64)) if isz(n) or isz(x) else n + x
                seen.append(c)
            if any(isz(y) or y not in seen for y in v.ins):
                raise Unsupported("number of members")
            return [(st, n if meth == 'size' else simp(n == 0) if isz(n) else n == 0)]
        return h
    return lambda E, st, a, I: (_ for _ in ()).throw(Unsupported("set method " + dem[:100]))


def member(E, st, v, x):
    f = False
    for y in v.ins:
        if isz(x) or isz(y):
            f = z3.Or(f, bv(x, 32) == bv(y, 32))
        elif x == y:
            return 1
    if v.base is not None:
        b = z3.Function("in:" + v.base, z3.BitVecSort(32), z3.BoolSort())(bv(x, 32))
        f = b if f is False else z3.Or(f, b)
    if f is False:
        return 0
    return simp(z3.If(f, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))


class _I32:
    k, w, size = 'int', 32, 4


I32 = _I32()


# ------------------------------------------------------------------ std::string

def nulfree(E, c):
    """the text has no null character: it comes from C strings"""
    if c.op.startswith("lit:"):
        return "\0" not in c.op
    if c.op == 'cat':
        return all(nulfree(E, x) for x in c.a)
    return c.op not in getattr(E, 'binary', ()) and not c.op.startswith('moved:') and c.op != 'sub' and c.op != 'cstr'


def str_method(E, name, dem):
    d = dem.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'STR')
    if not (d.startswith('STR') or 'operator+<char' in d):
        return None
    m = re.match(r'STR::(~?\w+|operator\W+)(?:<.*?>)?\((.*?)\)( const)?$', d)

    def get(st, p, I):
        key, off = E.key(st, p, I, "string access")
        c = st.objs[key].cells.get(off)
        if c is None or not isinstance(c[1], Str):
            v = E.lazyload(st, st.objs[key], key, off, 32, I) if st.objs[key].lazy else None
            if isinstance(v, Str):
                st.w(key).cells[off] = (32, v)
                return key, off, v
            E.fail(st, "uninit", "use of a string that was not constructed", I)
            raise DeadPath()
        return key, off, c[1]

    def put(st, p, v, I):
        key, off = E.key(st, p, I, "write")
        o = st.w(key)
        o.dirty = True
        E.clear(o, off, 32)
        o.cells[off] = (32, v)
    if 'operator+<char' in d:
        def h(E, st, a, I):
            def val(p):
                key, off = E.key(st, p, I, "string access")
                c = st.objs[key].cells.get(off)
                if c is not None and isinstance(c[1], Str):
                    return c[1].v
                return content(E, st, p)
            x, y = val(a[1]), val(a[2])
            put(st, a[0], Str(Tm("cat", x, y)), I)
            return [(st, a[0])]
        return h
    if not m:
        return None
    meth, args = m[1], m[2]
    if meth == 'basic_string':
        if args.startswith('char const*, unsigned long'):
            def h(E, st, a, I):
                use_str(E, st, a[1], I, "std::string construction")
                c = content(E, st, a[1])
                n = z3.BitVec("size:" + repr(c), 64)
                if not (a[1].o == 0 and E.valid(st, bv(a[2], 64) == n)):
                    raise Unsupported("part of a text")
                put(st, a[0], Str(c), I)
                return [(st, None)]
            return h
        if args.startswith('char const*'):
            def h(E, st, a, I):
                use_str(E, st, a[1], I, "std::string construction")
                c = content(E, st, a[1])
                if not nulfree(E, c):
                    c = Tm("cstr", c)       # ends at the first null character
                put(st, a[0], Str(c), I)
                return [(st, None)]
            return h
        if args.startswith('STR const&') or args.startswith('STR&&'):
            def h(E, st, a, I):
                v = get(st, a[1], I)[2]
                put(st, a[0], v, I)
                if args.startswith('STR&&'):
                    E.fresh_no = getattr(E, 'fresh_no', 0) + 1
                    put(st, a[1], Str(Tm(f"moved:{E.fresh_no}")), I)
                return [(st, None)]
            return h
        if args == '':
            def h(E, st, a, I):
                put(st, a[0], Str(Tm("lit:")), I)
                return [(st, None)]
            return h
    if meth == '~basic_string':
        def h(E, st, a, I):
            key, off, v = get(st, a[0], I)
            st.w(key).cells[off] = (32, UNDEF)
            st.objs.pop(('o', 'strdata:%s:%s' % (key[1], off)), None)
            return [(st, None)]
        return h
    if meth in ('c_str', 'data'):
        def h(E, st, a, I):
            key, off, v = get(st, a[0], I)
            k = ('o', 'strdata:%s:%s' % (key[1], off))
            if k not in st.objs:
                st.alloc('strbuf', None, 'char', 'strdata:%s:%s' % (key[1], off))
            o = st.w(k)
            o.lazy = ('content', v.v)
            return [(st, Ptr(k))]
        return h
    if meth in ('size', 'length'):
        def h(E, st, a, I):
            key, off, v = get(st, a[0], I)
            x = z3.BitVec("size:" + repr(v.v), 64)
            return [(st, x)]
        return h
    if meth == 'empty':
        def h(E, st, a, I):
            key, off, v = get(st, a[0], I)
            return [(st, z3.BitVec("size:" + repr(v.v), 64) == 0)]
        return h
    if meth in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of') and m[3]:
        def h(E, st, a, I):
            # some position of the text, or none
            key, off, v = get(st, a[0], I)
            E.fresh_no = getattr(E, 'fresh_no', 0) + 1
            r, n = z3.BitVec(f"{meth}:{E.fresh_no}", 64), z3.BitVec("size:" + repr(v.v), 64)
            st.pc.append(z3.Or(r == z3.BitVecVal(-1, 64), z3.ULT(r, n)) if meth != 'find' and meth != 'rfind' else z3.Or(r == z3.BitVecVal(-1, 64), z3.ULE(r, n)))
            return [(st, r)]
        return h
    if meth == 'capacity':
        def h(E, st, a, I):
            key, off, v = get(st, a[0], I)
            E.fresh_no = getattr(E, 'fresh_no', 0) + 1
            r, n = z3.BitVec(f"{meth}:{E.fresh_no}", 64), z3.BitVec("size:" + repr(v.v), 64)
            st.pc.append(z3.UGE(r, n))
            return [(st, r)]
        return h
    if meth in ('operator[]', 'at', 'front', 'back') and m[3]:
        data = str_method(E, name, 'STR::data() const')

        def h(E, st, a, I):
            key, off, v = get(st, a[0], I)
            n = z3.BitVec("size:" + repr(v.v), 64)
            i = a[1] if len(a) > 1 else 0 if meth == 'front' else simp(n - 1)
            E.check(st, "bounds", simp(z3.ULE(bv(i, 64), n) if meth == 'operator[]' else z3.ULT(bv(i, 64), n)), "string element access out of bounds", I)
            (st, p), = data(E, st, a[:1], I)
            return [(st, Ptr(p.b, i))]
        return h
    return lambda E, st, a, I: (_ for _ in ()).throw(Unsupported("string method " + d[:100]))


# ------------------------------------------------------------------ dispatch

def m_sort(E, st, a, I):
    raise Unsupported("std::sort")


PLAIN = {
    '_Znwm': m_new, '_ZdlPv': m_delete, '_ZdlPvm': m_delete, 'malloc': m_malloc, 'free': m_free,
    'strdup': m_strdup, 'strncpy': m_strncpy, 'strlen': m_strlen, 'strcasecmp': m_cmp('strcasecmp'), 'strcmp': m_cmp('strcmp'),
    '__isoc23_sscanf': m_sscanf, 'sscanf': m_sscanf, '__isoc99_sscanf': m_sscanf,
    'fprintf': m_nop, '__dynamic_cast': m_dyncast,
    'strtoll': None, 'abort': None,
}


def plain(E, name):
    if name in PLAIN:
        return PLAIN[name]
    if name.startswith('llvm.lifetime'):
        return m_lifetime
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        return m_memcpy
    if name.startswith('llvm.memset'):
        return m_memset
    if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith('llvm.strip'):
        return m_arg0
    if name.startswith('llvm.assume') or name.startswith('llvm.experimental.noalias') or name.startswith('llvm.dbg'):
        return m_nop
    if name == 'llvm.trap':
        return lambda E, st, a, I: []
    return None


def library(E, name):
    d = E.dem.get(name, name)
    if 'std::' not in d:
        return None
    if re.match(r'(std::(__new_)?allocator<.*>::~?(__new_)?allocator\()', d):
        return m_nop
    r = vec_method(E, name, d)
    if r:
        return r
    r = set_method(E, name, d)
    if r:
        return r
    r = str_method(E, name, d)
    if r:
        return r
    if getattr(E, 'bound_model', None) and re.match(r'[^(]*std::(upper|lower)_bound<', d):
        return E.bound_model(re.search(r'std::(\w+_bound)<', d)[1])
    if d.startswith('void std::sort<') or d.startswith('void std::stable_sort<'):
        return E.sort_model if getattr(E, 'sort_model', None) else m_sort
    if 'basic_ostream' in d or 'basic_stringstream' in d or 'basic_ios' in d or 'std::ios_base' in d:
        if d.startswith('hsql::'):
            return None
        return E.stream_model if getattr(E, 'stream_model', None) else None
    return None


def install(E, dem):
    E.dem = dem
    E.models += [plain, library]
