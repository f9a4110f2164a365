"""Symbolic execution of LLVM IR with ownership (separation-logic style) contracts: the VC generator.

Every load, store, free, delete and contract use emits obligations. Integers are bit-vectors (exact machine arithmetic),
obligations that are not decided syntactically go to z3. Loops are cut by inductive invariants (loops.py)."""
import itertools
import re
import time
import z3
from . import llvm


class Unsupported(Exception):
    pass


class DeadPath(Exception):
    pass


class _Undef:
    def __repr__(self):
        return "UNDEF"
UNDEF = _Undef()
ZERO = "ZERO"


class Ptr:
    __slots__ = ("b", "o")

    def __init__(self, b, o=0):
        self.b, self.o = b, o

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.b == other.b and veq(self.o, other.o)

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        if self.b is None:
            return "null" if self.o == 0 else f"null+{self.o}"
        n = self.b[1] if self.b[0] == 's' else "".join(map(str, self.b))
        return n if isinstance(self.o, int) and self.o == 0 else f"{n}+{self.o}"


NULL = Ptr(None, 0)


class Tm:
    """Uninterpreted term (string contents, floating point values, results of external functions)."""
    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __eq__(self, o):
        return isinstance(o, Tm) and o.op == self.op and len(o.a) == len(self.a) and all(veq(x, y) for x, y in zip(self.a, o.a))

    def __hash__(self):
        return hash(self.op)

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.a))})" if self.a else self.op


class Agg(tuple):
    """first-class aggregate"""


def isz(v):
    return isinstance(v, z3.ExprRef)


def veq(a, b):
    if a is b:
        return True
    if isz(a) or isz(b):
        return isz(a) and isz(b) and a.eq(b)
    if type(a) is not type(b):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return int(a) == int(b)
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return a == b


def simp(e):
    if not isz(e):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def bv(v, w):
    if isz(v):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v
    return z3.BitVecVal(int(v), w)


def tobool(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return bool(v & 1)
    if isz(v):
        if z3.is_bool(v):
            return v
        return simp(z3.Extract(0, 0, v) == 1)
    raise Unsupported(f"condition {v!r}")


def sgn(v, w):
    return v - (1 << w) if v >= (1 << (w - 1)) else v


class Vec:
    """Abstract std::vector<T*> contents: segs is a tuple of
    ('e', value) | ('s', name, lo, hi) | ('F', tag, length)"""
    __slots__ = ("segs", "et")

    def __init__(self, et, segs=()):
        self.et, self.segs = et, tuple(segs)

    def __eq__(self, o):
        return isinstance(o, Vec) and self.et == o.et and veq(self.segs, o.segs)

    def __hash__(self):
        return hash(self.et)

    def __repr__(self):
        return f"Vec<{self.et}>{list(self.segs)}"


class Str:
    """Abstract std::string contents."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Str) and veq(self.v, o.v)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Str({self.v!r})"


class SetV:
    """Abstract std::unordered_set<enum>: base symbol (or None) plus inserted values."""
    __slots__ = ("base", "ins")

    def __init__(self, base, ins=()):
        self.base, self.ins = base, tuple(ins)

    def __eq__(self, o):
        return isinstance(o, SetV) and self.base == o.base and veq(self.ins, o.ins)

    def __hash__(self):
        return 9

    def __repr__(self):
        return f"Set({self.base}+{list(self.ins)})"


class Opaque:
    """Object content we do not look into (iostreams and the like)."""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.tag == o.tag

    def __hash__(self):
        return hash(self.tag)

    def __repr__(self):
        return f"Opaque({self.tag})"


class Obj:
    __slots__ = ("kind", "size", "cls", "cells", "lazy", "sid", "dirty", "ro")

    def copy(self, sid):
        o = Obj()
        o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = self.kind, self.size, self.cls, dict(self.cells), self.lazy, sid, self.dirty, self.ro
        return o

    def __repr__(self):
        return f"<{self.kind} {self.cls or ''} {self.size} {self.cells}>"


_sid = itertools.count(1)


class State:
    __slots__ = ("objs", "own", "osl", "mat", "cls", "pc", "log", "n", "sid", "borrow", "notes")

    def __init__(self):
        self.objs, self.own, self.osl, self.mat, self.cls = {}, {}, {}, {}, {}
        self.pc, self.log, self.n, self.sid = [], (), 0, next(_sid)
        self.borrow = {}
        self.notes = {}

    def clone(self):
        s = State.__new__(State)
        s.objs, s.own, s.osl, s.mat, s.cls = dict(self.objs), dict(self.own), dict(self.osl), dict(self.mat), dict(self.cls)
        s.pc, s.log, s.n = list(self.pc), self.log, self.n
        s.borrow, s.notes = dict(self.borrow), dict(self.notes)
        s.sid = next(_sid)
        self.sid = next(_sid)
        return s

    def w(self, key):
        o = self.objs[key]
        if o.sid != self.sid:
            o = o.copy(self.sid)
            self.objs[key] = o
        return o

    def alloc(self, kind, size, cls=None, tag=None):
        self.n += 1
        o = Obj()
        o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = kind, size, cls, {}, None, self.sid, True, False
        key = ('o', self.n) if tag is None else ('o', tag)
        self.objs[key] = o
        return key


class Eng:
    def __init__(self, mod, layout, hier, cfg=None):
        self.M, self.lay, self.hier = mod, layout, hier
        self.models = []         # (predicate on name) handlers
        self.contracts = {}      # exact name -> handler(eng, st, args, inst)
        self.cache = {}
        self.fails, self.obl, self.disch = [], 0, 0
        self.unit = None
        self.z3time, self.z3calls = 0.0, 0
        self.depth = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.satcache = {}
        self.nofail = 0
        self.kinds = {}
        self.log_calls = {}
        self.paths = 0
        self.deadline = None
        self.smtdump = None
        self.fieldof = {}
        self.parent, self.vectypes, self.elems, self.inlined, self.stack = {}, {}, {}, set(), []
        self.bodies = set()
        self.trial, self.filters = 0, {}
        self.kf, self.kfkeep = {}, []
        self.level, self.runs, self.reached = 0, 0, 0       # outermost executions, and their ends under satisfiable conditions
        self.ignored = ()       # kinds of obligations that belong to other properties

    # ---------------- solver
    def sat(self, st, *extra):
        fs = list(st.pc) + [e for e in extra if e is not True]
        if any(e is False for e in fs):
            return False
        if not any(isz(e) for e in fs):
            return True
        key = frozenset(e.get_id() for e in fs if isz(e))
        hit = self.satcache.get(key)
        if hit is not None:
            return hit[0]
        t = time.time()
        s = self.solver
        s.push()
        for e in fs:
            if isz(e):
                s.add(e)
        r = s.check()
        s.pop()
        self.z3time += time.time() - t
        self.z3calls += 1
        if r == z3.unknown:
            raise Unsupported("solver gave no answer")
        res = r == z3.sat
        self.satcache[key] = (res, fs)
        return res

    def valid(self, st, f):
        if f is True:
            return True
        if f is False:
            return not self.sat(st)
        return not self.sat(st, z3.Not(f))

    def decide(self, st, f):
        """True/False when the path condition decides f, otherwise None."""
        f = simp(f)
        if f is True or f is False:
            return f
        if not self.sat(st, f):
            return False
        if not self.sat(st, z3.Not(f)):
            return True
        return None

    # ---------------- obligations
    def check(self, st, kind, cond, msg, inst=None):
        """cond: bool or z3 Bool that has to be valid on this path."""
        if kind in self.ignored:
            return True
        self.obl += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        ok = self.valid(st, cond) if isz(cond) else bool(cond)
        if not ok and not isz(cond) and not self.sat(st):
            ok = True
        if ok:
            self.disch += 1
            return True
        self.fail(st, kind, msg, inst, counted=True, cond=cond)
        return False

    def fail(self, st, kind, msg, inst=None, counted=False, cond=None):
        if kind in self.ignored:
            return
        if not counted:
            self.obl += 1
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            if not self.sat(st):
                self.disch += 1
                return
        where = ""
        if inst is not None:
            where = f"{inst.fn.name}:{inst.blk.name}"
        model = ""
        try:
            s = z3.Solver()
            s.set("timeout", 5000)
            for e in st.pc:
                if isz(e):
                    s.add(e)
            if isz(cond):
                s.add(z3.Not(cond))
            if s.check() == z3.sat:
                model = "; ".join(f"{d.name()}={s.model()[d]}" for d in s.model().decls())[:800]
        except Exception:
            pass
        rec = {"unit": self.unit, "kind": kind, "msg": msg, "where": where, "model": model}
        if st.notes.get('weak'):
            rec["weak"] = True      # the state went through an inferred loop invariant, which may be too weak
        if not any(f["unit"] == rec["unit"] and f["kind"] == kind and f["msg"] == msg for f in self.fails):
            self.fails.append(rec)

    # ---------------- nullness
    def nullv(self, name):
        return z3.Bool("null:" + name)

    def isnull(self, st, p):
        """bool or z3 Bool"""
        if p.b is None:
            if isz(p.o):
                return simp(p.o == 0)
            return p.o == 0
        if p.b[0] == 's':
            return simp(self.nullv(p.b[1]))
        return False

    def assume(self, st, f):
        f = simp(f)
        if f is True:
            return True
        if f is False:
            return False
        if z3.is_and(f):
            return all([self.assume(st, c) for c in f.children()])
        if any(isz(p) and p.eq(f) for p in st.pc):
            return True
        st.pc.append(f)
        # drop empty ownership: own(p) with p null is emp
        if z3.is_const(f) and f.decl().name().startswith("null:"):
            nm = f.decl().name()[5:]
            st.own.pop(nm, None)
        return True

    # ---------------- memory
    def key(self, st, p, inst, what="access"):
        """Resolve a pointer to (object key, offset); unfolds owned symbolic objects."""
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.fail(st, "uninit", f"{what} through an indeterminate pointer", inst)
                raise DeadPath()
            raise Unsupported(f"{what} through {p!r}")
        if p.b is None:
            self.fail(st, "null", f"{what} through a null pointer", inst)
            raise DeadPath()
        t = p.b[0]
        if t == 'o':
            if p.b not in st.objs:
                self.fail(st, "dangling", f"{what} to memory that was already released", inst)
                raise DeadPath()
            return p.b, p.o
        if t == 'g':
            if p.b not in st.objs:
                self.mkglobal(st, p.b[1])
            return p.b, p.o
        if t == 's':
            name = p.b[1]
            if name in st.mat:
                k = st.mat[name]
                if k not in st.objs:
                    self.fail(st, "dangling", f"{what} to memory that was already released ({name})", inst)
                    raise DeadPath()
                return k, p.o
            n = self.isnull(st, p)
            d = self.decide(st, n)
            self.obl += 1
            self.kinds["null"] = self.kinds.get("null", 0) + 1
            if d is not False:
                self.fail(st, "null", f"{what} through a possibly null pointer ({name})", inst, counted=True)
                if d is True:
                    raise DeadPath()
                self.assume(st, z3.Not(n))
            else:
                self.disch += 1
            return self.unfold(st, name, inst, what), p.o
        if t == 'vb':
            return p.b, p.o
        if t == 'f':
            raise Unsupported("data access to code")
        raise Unsupported(f"{what} to {p!r}")

    def ctype_of(self, st, name):
        return st.own.get(name) or st.borrow.get(name)

    def take(self, st, name, inst=None):
        """Make sure that ownership of symbol `name` is an individual chunk (split it off a vector slice)."""
        if name in st.own:
            return True
        e = self.elems.get(name) if hasattr(self, "elems") else None
        if e:
            vs, i, et = e
            out, found = [], False
            for lo, hi in st.osl.get(vs, ()):
                if not found and self.valid(st, z3.And(z3.ULE(bv(lo, 64), bv(i, 64)), z3.ULT(bv(i, 64), bv(hi, 64)))):
                    found = True
                    for a, b in ((lo, i), (simp(bv(i, 64) + 1), hi)):
                        if not (self.decide(st, simp(bv(a, 64) == bv(b, 64))) is True):
                            out.append((a, b))
                else:
                    out.append((lo, hi))
            if found:
                st.osl[vs] = tuple(out)
                if not out:
                    del st.osl[vs]
                st.own[name] = et
                return True
            if vs not in st.mat and (vs in st.own or self.take(st, vs, inst)) and st.own.get(vs, '').startswith('vec<'):
                self.unfold(st, vs, inst, "access")
                return self.take(st, name, inst)
            return False
        p = self.parent.get(name)
        if p is not None and p not in st.mat and (p in st.own or self.take(st, p, inst)):
            self.unfold(st, p, inst, "access")
            return name in st.own
        return False

    def unfold(self, st, name, inst, what):
        borrowed = False
        if not self.take(st, name, inst):
            if name in st.borrow:
                borrowed = True
            else:
                self.fail(st, "dangling", f"{what} to memory that is no longer owned here ({name})", inst)
                raise DeadPath()
        ct = st.borrow[name] if borrowed else st.own[name]
        k = ('o', 'S:' + name)
        o = Obj()
        o.sid, o.cells, o.dirty, o.ro = st.sid, {}, False, borrowed
        if ct == 'char':
            o.kind, o.size, o.cls, o.lazy = 'malloc', None, 'char', ('str', name)
        elif ct.startswith('vec<'):
            o.kind, o.size, o.cls, o.lazy = 'new', 24, ct, None
            et = ct[4:-1]
            o.cells[0] = (24, Vec(et, (('s', name, 0, self.veclen(st, name)),)))
            self.vectypes[name] = et
            if not borrowed:
                if self.owning_elem(et):
                    st.osl[name] = ((0, self.veclen(st, name)),)
        elif ct == 'set':
            o.kind, o.size, o.cls, o.lazy = 'new', self.lay.setsize, ct, None
            o.cells[0] = (self.lay.setsize, SetV(name))
        elif ct in self.lay.cls:
            o.kind, o.size, o.cls, o.lazy = 'new', self.lay.cls[ct].size, ct, ('cls', name, ct)
            # reserve chunks of the owned fields
            for f in self.lay.fields(ct):
                if f.own or f.kind == 'vec':
                    self.fieldof[name + "." + f.name] = (ct, f.name)
                if f.own:
                    fn = name + "." + f.name
                    self.parent[fn] = name
                    if borrowed:
                        st.borrow[fn] = f.own
                    else:
                        st.own[fn] = f.own
                elif f.kind == 'vec':
                    fn = name + "." + f.name
                    if borrowed or (ct, f.name) in self.nonowning:
                        st.borrow[fn] = 'vec<' + f.elt + '>'
                    elif self.owning_elem(f.elt):
                        self.vectypes[fn] = f.elt
                        st.osl[fn] = ((0, self.veclen(st, fn)),)
        else:
            raise Unsupported(f"cannot unfold {ct}")
        if not borrowed:
            del st.own[name]
            # chunks of fields that are known to be null are empty
            for p in st.pc:
                if isz(p) and z3.is_const(p) and p.decl().name().startswith("null:"):
                    st.own.pop(p.decl().name()[5:], None)
        st.objs[k] = o
        st.mat[name] = k
        if ct in self.lay.cls and self.wf_hook:
            for f in self.wf_hook(st, name, ct):
                self.assume(st, f)
            w = getattr(self.wf_hook, '__self__', None)
            e = self.fieldof.get(name) or self.fieldof.get(self.elems[name][0] if name in self.elems else None)
            if w is not None and e is not None:
                for g in w.edges(e):
                    self.assume(st, z3.Not(self.nullv(name + "." + g)))
        return k

    wf_hook = None
    nonowning = frozenset([('SQLParserResult', 'parameters_')])

    def owning_elem(self, et):
        return et not in ('void', '?') and not et.startswith('=')

    def veclen(self, st, name):
        v = z3.BitVec("len:" + name, 64)
        f = z3.ULE(v, 1 << 32)
        if not any(isz(p) and p.eq(f) for p in st.pc):
            st.pc.append(f)
        if name in self.nonempty:
            g = z3.UGE(v, 1)
            if not any(isz(p) and p.eq(g) for p in st.pc):
                st.pc.append(g)
        return v

    nonempty = frozenset()

    def mkglobal(self, st, name):
        t, init, const, tl = self.M.glob(name)
        o = Obj()
        o.kind, o.size, o.cls, o.cells, o.sid, o.dirty, o.ro = 'global', t.size, None, {}, st.sid, True, const
        o.lazy = ('global', name)
        st.objs[('g', name)] = o

    def const_at(self, val, ty, off, size):
        """read from a constant initializer"""
        while True:
            if val is None:
                return None
            if val.k in ('zero',):
                return ZERO
            if val.k == 'undef':
                return UNDEF
            if val.k == 'str':
                b = val.v
                if off + size <= len(b):
                    return int.from_bytes(b[off:off + size], 'little')
                return None
            if val.k == 'agg':
                t = ty
                if t.k == 'struct':
                    for i in range(len(t.elts) - 1, -1, -1):
                        if t.offs[i] <= off:
                            val, ty, off = val.ops[i], t.elts[i], off - t.offs[i]
                            break
                    continue
                es = t.elts[0].size
                i = off // es
                if i >= len(val.ops):
                    return None
                val, ty, off = val.ops[i], t.elts[0], off - i * es
                continue
            if off != 0:
                return None
            return self.cval(val)

    def cval(self, v):
        k = v.k
        if k == 'int':
            return v.v
        if k == 'null':
            return NULL
        if k == 'fp':
            return v.v
        if k == 'undef':
            return UNDEF
        if k == 'func':
            return Ptr(('f', v.v))
        if k == 'glob':
            return Ptr(('g', v.v))
        if k == 'zero':
            return ZERO
        if k == 'expr':
            if v.v == 'gep':
                base = self.cval(v.ops[0])
                return self.gep(None, base, v.x, [self.cval(o) for o in v.ops[1:]], [o.ty for o in v.ops[1:]])
            if v.v in ('bitcast', 'addrspacecast'):
                return self.cval(v.ops[0])
        raise Unsupported(f"constant {v!r}")

    def lazyload(self, st, o, key, off, size, inst):
        z = o.lazy
        if z is None:
            return None
        if z[0] == 'cls':
            _, name, cls = z
            f = self.lay.at(cls, off)
            if f is None or f.size != size:
                if off == 0 and size == 8 and self.lay.poly(cls):
                    return Ptr(('vptr', name))
                # partial access to an embedded struct or vector
                if f is not None and f.kind in ('vec',) and size == 24:
                    return Vec(f.elt, (('s', name + "." + f.name, 0, self.veclen(st, name + "." + f.name)),))
                return None
            return self.fieldval(st, name, f)
        if z[0] == 'global':
            t, init, const, tl = self.M.glob(z[1])
            if const and init is not None:
                if not isinstance(off, int):
                    return None
                return self.const_at(init, t, off, size)
            return None
        if z[0] == 'fn':
            return z[1](st, off, size)
        return None

    def fieldval(self, st, name, f):
        fn = name + "." + f.name
        if f.kind == 'ptr':
            return Ptr(('s', fn))
        if f.kind == 'int':
            v = z3.BitVec(fn, f.size * 8)
            if f.enum:
                self.assume(st, z3.ULE(v, f.enum - 1)) if False else None
            return v
        if f.kind == 'bool':
            v = z3.BitVec(fn, 8)
            self.assume(st, z3.ULE(v, 1))
            return v
        if f.kind == 'fp':
            return Tm("fp:" + fn)
        if f.kind == 'vec':
            return Vec(f.elt, (('s', fn, 0, self.veclen(st, fn)),))
        if f.kind == 'vptr':
            return Ptr(('vptr', name))
        raise Unsupported(f"field {f.name} of kind {f.kind}")

    def load(self, st, p, size, ty, inst):
        if isinstance(p, Ptr) and p.b is not None and p.b[0] == 'vptr':
            return Ptr(('vfn', p.b[1], p.o))
        key, off = self.key(st, p, inst, "read")
        if key[0] == 'vb':
            return self.vbload(st, key, off, size, inst)
        o = st.objs[key]
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None:
                if c[0] == size:
                    return self.conv(c[1], ty)
                if c[0] > size and (c[1] is ZERO or isinstance(c[1], int)):
                    return self.conv(ZERO if c[1] is ZERO else c[1] & ((1 << (8 * size)) - 1), ty)
            for a, (n, v) in o.cells.items():
                if a <= off and off + size <= a + n:
                    if v is ZERO:
                        return self.conv(ZERO, ty)
                    if v is UNDEF:
                        return UNDEF
                    if isinstance(v, int):
                        return self.conv((v >> (8 * (off - a))) & ((1 << (8 * size)) - 1), ty)
                    if isz(v) and not z3.is_bool(v):
                        lo = 8 * (off - a)
                        return simp(z3.Extract(lo + 8 * size - 1, lo, v))
                    return self.inner(st, key, a, v, off - a, size, ty, inst)
                if a < off + size and off < a + n:
                    return UNDEF
            if o.size is not None and off + size > o.size:
                self.fail(st, "bounds", f"read outside of an object of {o.size} bytes", inst)
                raise DeadPath()
            v = self.lazyload(st, o, key, off, size, inst)
            if v is None:
                if o.lazy is not None and o.lazy[0] == 'str':
                    return self.strbyte(st, o.lazy[1], off, size, inst)
                if o.lazy is not None and o.lazy[0] == 'content' and o.kind == 'strbuf':
                    return self.contentbyte(st, o.lazy[1], off, size, inst)
                if o.lazy is not None and o.lazy[0] == 'global':
                    if o.lazy[1] in ('stderr', 'stdout', 'stdin'):
                        return Ptr(('g', o.lazy[1]))
                    if o.lazy[1].startswith('_ZGV') and size == 1:      # guard of a local static: initialised or not
                        return z3.BitVec('guard:' + o.lazy[1], 8)
                    raise Unsupported(f"read of global {o.lazy[1]}")
                if o.lazy is not None and o.lazy[0] == 'cls':
                    raise Unsupported(f"read of {o.lazy[2]} at {off}/{size}")
                return UNDEF
            v = self.conv(v, ty)
            if v is not UNDEF:
                st.w(key).cells[off] = (size, v)
            return v
        if o.lazy is not None and o.lazy[0] == 'str':
            return self.strbyte(st, o.lazy[1], off, size, inst)
        if o.lazy is not None and o.lazy[0] == 'arr':
            return o.lazy[1](st, off, size, inst)
        if o.lazy is not None and o.lazy[0] == 'content' and o.kind == 'strbuf' and not o.cells:
            return self.contentbyte(st, o.lazy[1], off, size, inst)
        raise Unsupported("read at a symbolic offset")

    def inner(self, st, key, a, v, d, size, ty, inst):
        raise Unsupported(f"read inside of {v!r}")

    def conv(self, v, ty):
        if v is ZERO:
            if ty is None or ty.k == 'int':
                return 0
            if ty.k == 'ptr':
                return NULL
            if ty.k == 'fp':
                return 0.0
            return ZERO
        if ty is not None and ty.k == 'ptr' and isinstance(v, int):
            if v == 0:
                return NULL
            return Ptr(None, v)
        return v

    def strbyte(self, st, name, off, size, inst):
        if size != 1:
            raise Unsupported("wide read from a string")
        ln = z3.BitVec("strlen:" + name, 64)
        self.assume(st, z3.ULE(ln, 1 << 31))
        o64 = bv(off, 64)
        self.check(st, "bounds", simp(z3.ULE(o64, ln)), f"read beyond the end of string {name}", inst)
        f = z3.Function("byte:" + name, z3.BitVecSort(64), z3.BitVecSort(8))
        r = f(o64)
        self.assume(st, (r == 0) == (o64 == ln)) if self.decide(st, simp(z3.ULE(o64, ln))) else None
        return simp(r)

    def contentbyte(self, st, t, off, size, inst):
        """a byte of a std::string"""
        if size != 1:
            raise Unsupported("wide read from a string")
        n, o64 = z3.BitVec("size:" + repr(t), 64), bv(off, 64)
        self.check(st, "bounds", simp(z3.ULE(o64, n)), "read beyond the end of a string", inst)
        r = z3.Function("byte of " + repr(t), z3.BitVecSort(64), z3.BitVecSort(8))(o64)
        self.assume(st, z3.Implies(o64 == n, r == 0))
        return r

    def clear(self, o, off, size):
        for a in [a for a, (n, v) in o.cells.items() if a < off + size and off < a + n]:
            n, v = o.cells[a]
            if v is ZERO:
                del o.cells[a]
                if a < off:
                    o.cells[a] = (off - a, ZERO)
                if a + n > off + size:
                    o.cells[off + size] = (a + n - off - size, ZERO)
            elif a >= off and a + n <= off + size:
                del o.cells[a]
            else:
                o.cells[a] = (n, UNDEF)

    def store(self, st, p, size, v, inst):
        key, off = self.key(st, p, inst, "write")
        if key[0] == 'vb':
            return self.vbstore(st, key, off, size, v, inst)
        o = st.objs[key]
        if o.kind == 'global' and o.ro:
            self.fail(st, "write", "write to constant memory", inst)
            raise DeadPath()
        if self.frozen and key[0] == 's' and key[1].startswith(self.frozen):
            self.fail(st, "frame", f"a statement or parameter is changed ({key[1]}+{off})", inst)
        if o.ro and not self.borrow_write_ok(st, key, off):
            self.fail(st, "frame", f"write to borrowed memory {key[1]}+{off}", inst)
        if not isinstance(off, int):
            if o.lazy is not None and o.lazy[0] == 'buf':
                self.check(st, "bounds", z3.ULE(bv(off, 64) + size, bv(o.size, 64)), "write outside of a buffer", inst)
                return
            raise Unsupported("write at a symbolic offset")
        if o.size is not None and not isz(o.size) and off + size > o.size:
            self.fail(st, "bounds", f"write outside of an object of {o.size} bytes", inst)
            raise DeadPath()
        if isz(o.size):
            self.check(st, "bounds", z3.ULE(z3.BitVecVal(off + size, 64), o.size), "write outside of a buffer", inst)
        if o.kind == 'global':
            st.log = st.log + (('gwrite', key[1]),)
        o = st.w(key)
        o.dirty = True
        if o.lazy is not None and o.lazy[0] == 'cls':
            # fields that share the range have to exist before part of them is overwritten
            pass
        self.clear(o, off, size)
        o.cells[off] = (size, v)

    def borrow_write_ok(self, st, key, off):
        return any(key[1].startswith(p) and off == o for p, o in self.writable)

    writable = ()
    frozen = ()     # objects that may be read, released and given away, but not changed

    def memcpy(self, st, dst, src, n, inst):
        if n == 0:
            return
        dk, do = self.key(st, dst, inst, "write")
        sk, so = self.key(st, src, inst, "read")
        if not (isinstance(do, int) and isinstance(so, int) and isinstance(n, int)):
            raise Unsupported("memcpy with symbolic bounds")
        s = st.objs[sk]
        if s.size is not None and not isz(s.size):
            self.check(st, "bounds", so + n <= s.size, f"memcpy reads beyond {s.size} bytes", inst)
        if s.lazy is not None and s.lazy[0] == 'cls':
            for f in self.lay.fields(s.lazy[2]):
                if so <= f.off and f.off + f.size <= so + n and f.off not in s.cells:
                    self.load(st, Ptr(sk, f.off), f.size, None, inst)
        if s.lazy is not None and s.lazy[0] in ('global', 'fn'):
            for a in range(so, so + n, 8):
                if not any(c <= a < c + m for c, (m, v) in s.cells.items()):
                    v = self.lazyload(st, s, sk, a, min(8, so + n - a), inst)
                    if v is not None:
                        st.w(sk).cells[a] = (min(8, so + n - a), v)
        s = st.objs[sk]
        items = []
        for a, (m, v) in s.cells.items():
            if so <= a and a + m <= so + n:
                items.append((a - so + do, m, v))
            elif v is ZERO and a < so + n and so < a + m:
                lo, hi = max(a, so), min(a + m, so + n)
                items.append((lo - so + do, hi - lo, ZERO))
        d = st.objs[dk]
        if d.kind == 'global':
            st.log = st.log + (('gwrite', dk[1]),)
        if d.size is not None and not isz(d.size):
            self.check(st, "bounds", do + n <= d.size, f"memcpy writes beyond {d.size} bytes", inst)
        d = st.w(dk)
        d.dirty = True
        self.clear(d, do, n)
        for a, m, v in items:
            d.cells[a] = (m, v)

    def memset(self, st, dst, v, n, inst):
        dk, do = self.key(st, dst, inst, "write")
        if not (isinstance(do, int) and isinstance(n, int)):
            raise Unsupported("memset with symbolic bounds")
        if n == 0:
            return
        d = st.w(dk)
        d.dirty = True
        if d.size is not None:
            self.check(st, "bounds", do + n <= d.size, "memset out of bounds", inst)
        self.clear(d, do, n)
        d.cells[do] = (n, ZERO if v == 0 else UNDEF)

    # ---------------- vector buffers
    def vecat(self, st, oid, off):
        o = st.objs.get(oid)
        if o is None and oid[0] == 'o' and isinstance(oid[1], str) and oid[1].startswith('S:') and oid[1][2:] not in st.mat:
            self.key(st, Ptr(('s', oid[1][2:])), None, "vector access")
            o = st.objs.get(oid)
        if o is None:
            return None
        c = o.cells.get(off)
        if c is None and o.lazy is not None:
            v = self.lazyload(st, o, oid, off, 24, None)
            if isinstance(v, Vec):
                st.w(oid).cells[off] = (24, v)
                return v
        if c is not None and isinstance(c[1], Vec):
            return c[1]
        return None

    def seglen(self, seg):
        if seg[0] == 'e':
            return 1
        if seg[0] == 's':
            return simp(bv(seg[3], 64) - bv(seg[2], 64))
        return z3.BitVec(f"flen:{seg[1]}:{'|'.join(sorted(seg[2]))}:{seg[3]}:{seg[4]}", 64)

    def vlen(self, v):
        n = 0
        for s in v.segs:
            l = self.seglen(s)
            n = simp(bv(n, 64) + bv(l, 64)) if isz(n) or isz(l) else n + l
        return n

    def elem(self, st, name, i, et):
        nm = f"{name}[{i}]" if not isz(i) else f"{name}[{str(i)}]"
        ef = st.notes.get(('each', name))
        if ef is not None and nm not in st.mat and self.decide(st, simp(z3.Or(z3.ULT(bv(i, 64), bv(ef[0], 64)), z3.UGE(bv(i, 64), bv(ef[1], 64))))) is not True:
            raise Unsupported("access to elements that a loop has written")
        self.elems[nm] = (name, i, et)
        f = z3.Not(self.nullv(nm))
        if et not in ('?',):
            self.assume(st, f)
        if name in st.borrow or not self.owning_elem(et):
            st.borrow.setdefault(nm, et.lstrip('='))
        return Ptr(('s', nm))

    def vbload(self, st, key, off, size, inst):
        if size != 8:
            raise Unsupported("odd read from a vector")
        v = self.vecat(st, key[1], key[2])
        if v is None:
            self.fail(st, "dangling", "read from a vector that no longer exists", inst)
            raise DeadPath()
        if isinstance(off, int):
            if off % 8:
                raise Unsupported("misaligned vector read")
            idx = off // 8
        else:
            idx = simp(z3.LShR(off, 3))
            idx = self.unscale(off, idx)
        n = self.vlen(v)
        self.check(st, "bounds", simp(z3.ULT(bv(idx, 64), bv(n, 64))), "vector element access out of bounds", inst)
        base = 0
        for s in v.segs:
            l = self.seglen(s)
            end = simp(bv(base, 64) + bv(l, 64)) if isz(base) or isz(l) else base + l
            inside = simp(z3.And(z3.ULE(bv(base, 64), bv(idx, 64)), z3.ULT(bv(idx, 64), bv(end, 64))))
            d = self.decide(st, inside)
            if d is True:
                if s[0] == 'e':
                    return s[1]
                if s[0] == 's':
                    rel = simp(bv(idx, 64) - bv(base, 64) + bv(s[2], 64)) if (isz(idx) or isz(base) or isz(s[2])) else idx - base + s[2]
                    return self.elem(st, s[1], rel, v.et)
                raise Unsupported("element of a filtered sequence")
            if d is None:
                raise Unsupported("vector element in an undecided segment")
            base = end
        raise DeadPath()

    def unscale(self, off, dflt):
        """8*k -> k"""
        o = z3.simplify(off)
        if o.decl().kind() == z3.Z3_OP_CONCAT and o.num_args() == 2:
            hi, lo = o.arg(0), o.arg(1)
            if z3.is_bv_value(lo) and lo.as_long() == 0 and lo.size() == 3 and hi.decl().kind() == z3.Z3_OP_EXTRACT and hi.params()[1] == 0:
                return hi.arg(0)
        q = self.tryunscale(o)
        return dflt if q is None else q

    def tryunscale(self, o):
        if z3.is_bv_value(o):
            return z3.BitVecVal(sgn(o.as_long(), 64) // 8, 64) if o.as_long() % 8 == 0 else None
        k = o.decl().kind()
        if k == z3.Z3_OP_BADD:
            parts = [self.tryunscale(c) for c in o.children()]
            if any(p is None for p in parts):
                return None
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return simp(r)
        if k == z3.Z3_OP_BMUL and o.num_args() == 2 and z3.is_bv_value(o.arg(0)):
            c = sgn(o.arg(0).as_long(), 64)
            if c % 8 == 0:
                return simp(o.arg(1) * (c // 8))
            return None
        if k == z3.Z3_OP_CONCAT and o.num_args() == 2:
            hi, lo = o.arg(0), o.arg(1)
            if z3.is_bv_value(lo) and lo.as_long() == 0 and lo.size() == 3:
                return self.widen61(hi)
        return None

    def widen61(self, h):
        """64-bit k with 8*k == Concat(h, 000); an index is only used after it was shown to be within the bounds"""
        k = h.decl().kind()
        if z3.is_bv_value(h):
            return z3.BitVecVal(sgn(h.as_long(), 61), 64)
        if k == z3.Z3_OP_EXTRACT and h.params()[1] == 0:
            return h.arg(0)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            parts = [self.widen61(c) for c in h.children()]
            if any(p is None for p in parts):
                return None
            r = parts[0]
            for p in parts[1:]:
                r = r + p if k == z3.Z3_OP_BADD else r * p
            return simp(r)
        if k == z3.Z3_OP_BNOT:
            p = self.widen61(h.arg(0))
            return None if p is None else simp(~p)
        return None

    def vbstore(self, st, key, off, size, v, inst):
        vec = self.vecat(st, key[1], key[2])
        if vec is None:
            self.fail(st, "dangling", "write to a vector that no longer exists", inst)
            raise DeadPath()
        if isinstance(off, int) and all(s[0] == 'e' for s in vec.segs) and off % 8 == 0 and off // 8 < len(vec.segs):
            segs = list(vec.segs)
            segs[off // 8] = ('e', v)
            st.w(key[1]).cells[key[2]] = (24, Vec(vec.et, segs))
            return
        raise Unsupported("write into a vector")

    # ---------------- expressions
    def gep(self, st, base, ty, idx, idxty):
        if not isinstance(base, Ptr):
            if base is UNDEF:
                return UNDEF
            raise Unsupported(f"gep on {base!r}")
        off = base.o
        t = ty
        for n, i in enumerate(idx):
            w = idxty[n].w if idxty[n] is not None and idxty[n].k == 'int' else 64
            if n == 0:
                scale = t.size
            elif t.k == 'struct':
                if not isinstance(i, int):
                    raise Unsupported("symbolic struct index")
                off = off + t.offs[i]
                t = t.elts[i]
                continue
            else:
                t = t.elts[0]
                scale = t.size
            if isinstance(i, int):
                d = sgn(i, w) * scale
                off = off + d
            elif isz(i):
                e = z3.SignExt(64 - w, i) if w < 64 else i
                off = simp(bv(off, 64) + e * scale)
            elif i is UNDEF:
                return UNDEF
            else:
                raise Unsupported(f"index {i!r}")
        if isz(off):
            off = simp(off)
        return Ptr(base.b, off)

    def ev(self, env, v):
        k = v.k
        if k == 'local':
            return env[v.v]
        if k == 'int':
            if v.ty is not None and v.ty.k == 'int' and v.ty.w == 1:
                return bool(v.v)
            return v.v
        return self.cval(v)

    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unsupported("pointer compared with non-pointer")
            if pred in ('eq', 'ne'):
                r = self.ptreq(st, a, b)
            else:
                if a.b != b.b:
                    raise Unsupported("ordering of unrelated pointers")
                return self.icmp(st, pred, a.o, b.o, None)
            return r if pred == 'eq' else (not r if isinstance(r, bool) else simp(z3.Not(r)))
        w = ty.w if ty is not None and ty.k == 'int' else 64
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        if isinstance(a, Tm) or isinstance(b, Tm):
            raise Unsupported("comparison of opaque terms")
        x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return simp(r)

    def ptreq(self, st, a, b):
        if a.b is None and b.b is None:
            return a.o == b.o if not (isz(a.o) or isz(b.o)) else simp(bv(a.o, 64) == bv(b.o, 64))
        if a.b is None:
            a, b = b, a
        if b.b is None:
            if isinstance(b.o, int) and b.o == 0 and isinstance(a.o, int) and a.o == 0:
                return self.isnull(st, a)
            return False
        if a.b == b.b:
            if isz(a.o) or isz(b.o):
                return simp(bv(a.o, 64) == bv(b.o, 64))
            return a.o == b.o
        ra = st.mat.get(a.b[1]) if a.b[0] == 's' else a.b
        rb = st.mat.get(b.b[1]) if b.b[0] == 's' else b.b
        if ra is not None and ra == rb:
            return self.ptreq(st, Ptr(ra, a.o), Ptr(rb, b.o))
        if a.b[0] == 's' and b.b[0] == 's':
            # two different symbols are equal only if both are null (ownership is exclusive)
            if a.b[1] in st.borrow or b.b[1] in st.borrow:
                raise Unsupported("comparison of borrowed pointers")
            return simp(z3.And(self.isnull(st, a), self.isnull(st, b)))
        return False

    BIN = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'and': lambda x, y: x & y,
           'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'shl': lambda x, y: x << y}

    def binop(self, st, op, a, b, ty):
        if ty.k != 'int':
            if isinstance(a, float) and isinstance(b, float):
                return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}.get(op) if op in ('fadd', 'fsub', 'fmul') else Tm(op, a, b)
            return Tm(op, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                if isz(a.o) or isz(b.o):
                    return simp(bv(a.o, 64) - bv(b.o, 64))
                return (a.o - b.o) & ((1 << 64) - 1)
            raise Unsupported("pointer arithmetic")
        w = ty.w
        if w == 1:
            x, y = tobool(a), tobool(b)
            if isinstance(x, bool) and isinstance(y, bool):
                return {'and': x and y, 'or': x or y, 'xor': x != y}[op]
            x, y = z3.BoolVal(x) if isinstance(x, bool) else x, z3.BoolVal(y) if isinstance(y, bool) else y
            return simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
        m = (1 << w) - 1
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if op in self.BIN:
                if op == 'shl' and b >= w:
                    return UNDEF
                return self.BIN[op](a, b) & m
            sa, sb = sgn(a, w), sgn(b, w)
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                raise Unsupported("division by zero")
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            if op == 'sdiv':
                return (abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)) & m
            if op == 'srem':
                return (abs(sa) % abs(sb) * (-1 if sa < 0 else 1)) & m
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sa >> b) & m
            raise Unsupported(op)
        if isinstance(a, Tm) or isinstance(b, Tm):
            return Tm(op, a, b)
        x, y = bv(a, w), bv(b, w)
        if op in self.BIN:
            return simp(self.BIN[op](x, y))
        if op == 'sdiv':
            if isinstance(b, int) and b == 8:
                u = self.tryunscale(z3.simplify(x)) if w == 64 else None
                if u is not None:
                    return u
            return simp(x / y)
        return simp({'udiv': z3.UDiv, 'urem': z3.URem, 'srem': z3.SRem, 'lshr': z3.LShR, 'ashr': lambda p, q: p >> q}[op](x, y))

    def cast(self, op, v, src, dst):
        if v is UNDEF:
            return UNDEF
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.b is None:
                return v.o
            return v
        if op == 'inttoptr':
            return v if isinstance(v, Ptr) else self.conv(v, dst)
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(v, Ptr):
                raise Unsupported("integer cast of a pointer")
            if isinstance(v, Tm):
                return Tm(op, v, src.w, dst.w)
            ws, wd = src.w, dst.w
            if op == 'trunc':
                if wd == 1:
                    return tobool(v)
                if isz(v):
                    return simp(z3.Extract(wd - 1, 0, v))
                return int(v) & ((1 << wd) - 1)
            if isz(v):
                if z3.is_bool(v):
                    one = (1 << wd) - 1 if op == 'sext' else 1
                    return z3.If(v, z3.BitVecVal(one, wd), z3.BitVecVal(0, wd))
                return simp(z3.ZeroExt(wd - ws, v) if op == 'zext' else z3.SignExt(wd - ws, v))
            if op == 'zext':
                return int(v)
            return sgn(int(v), ws) & ((1 << wd) - 1)
        return Tm(op, v)

    # ---------------- control flow
    def live(self, F):
        """ids of locals that are live at the entry of every block"""
        if F._live is not None:
            return F._live
        use, df, phiuse = {}, {}, {}
        for B in F.blocks:
            u, d = set(), set()
            for I in B.insts:
                if I.op == 'phi':
                    for pb, v in I.x:
                        if v.k == 'local':
                            phiuse.setdefault(pb.id, set()).add(v.v)
                else:
                    vals = list(I.ops)
                    if I.op in ('call', 'invoke') and isinstance(I.x, llvm.Val):
                        vals.append(I.x)
                    for v in vals:
                        self._uses(v, u, d)
                d.add(I.id)
            use[B.id], df[B.id] = u, d
        lin = {B.id: set(use[B.id]) for B in F.blocks}
        ch = True
        while ch:
            ch = False
            for B in reversed(F.blocks):
                out = set(phiuse.get(B.id, ()))
                for s in B.succ:
                    out |= lin[s.id]
                n = use[B.id] | (out - df[B.id])
                if n != lin[B.id]:
                    lin[B.id] = n
                    ch = True
        F._live = lin
        return lin

    def _uses(self, v, u, d):
        if v.k == 'local':
            if v.v not in d:
                u.add(v.v)
        elif v.ops:
            for o in v.ops:
                self._uses(o, u, d)

    def call_fn(self, st, name, args, inst):
        """inline a function body; returns [(state, value)]"""
        if self.depth > 40:
            raise Unsupported("inlining too deep: " + name)
        F = self.M.fn(name)
        env = {i: a for i, a in enumerate(args)}
        self.depth += 1
        self.stack.append(name)
        try:
            res = self.run(F, F.blocks[0], st, env)
        finally:
            self.depth -= 1
            self.stack.pop()
        out = []
        for s, e, v in res.get('ret', ()):
            for k in e.get('allocas', ()):
                s.objs.pop(k, None)
            out.append((s, v))
        return self.merge_rets(out)

    def merge_rets(self, lst):
        if len(lst) < 2:
            return lst
        groups = []
        for s, v in lst:
            for g in groups:
                if veq(g[1], v):
                    m = self.merge(g[0], {}, s, {}, ())
                    if m is not None:
                        g[0] = m[0]
                        break
            else:
                groups.append([s, v])
        return [(g[0], g[1]) for g in groups]

    def norm(self, st):
        """fold back objects that were only read"""
        for k in [k for k, o in st.objs.items() if o.kind == 'global' and o.ro]:
            del st.objs[k]
        ch = True
        while ch:
            ch = False
            for name, k in list(st.mat.items()):
                o = st.objs.get(k)
                if o is not None and o.ro and not o.dirty:
                    del st.objs[k], st.mat[name]
                    continue
                if o is None or o.dirty or o.ro:
                    continue
                if o.lazy is not None and o.lazy[0] == 'cls':
                    cls = o.lazy[2]
                    ok = True
                    for f in self.lay.fields(cls):
                        if f.own:
                            fn = name + "." + f.name
                            if fn not in st.own and not any(isz(p) and z3.is_const(p) and p.decl().name() == "null:" + fn for p in st.pc):
                                ok = False
                                break
                    if ok:
                        for f in self.lay.fields(cls):
                            if f.own:
                                st.own.pop(name + "." + f.name, None)
                        del st.objs[k], st.mat[name]
                        st.own[name] = cls
                        ch = True
                elif o.cls and o.cls.startswith('vec<'):
                    et = o.cls[4:-1]
                    c = o.cells.get(0)
                    full = ((0, self.veclen(st, name)),)
                    if c and c[1] == Vec(et, (('s', name, 0, full[0][1]),)) and (not self.owning_elem(et) or veq(st.osl.get(name), full)):
                        st.osl.pop(name, None)
                        del st.objs[k], st.mat[name]
                        st.own[name] = o.cls
                        ch = True
                elif o.lazy is not None and o.lazy[0] == 'str':
                    del st.objs[k], st.mat[name]
                    st.own[name] = 'char'
                    ch = True
            for name in list(st.own):
                e = self.elems.get(name)
                if e is None or not self.owning_elem(e[2]) or st.own[name] != e[2]:
                    continue
                vs, i, et = e
                sl = list(st.osl.get(vs, ()))
                lo, hi = i, simp(bv(i, 64) + 1)
                done = False
                for j, (a, b) in enumerate(sl):
                    if veq(simp(bv(b, 64)), simp(bv(lo, 64))):
                        lo2, sl2 = a, sl[:j] + sl[j + 1:]
                        hi2 = hi
                        for q, (c, d) in enumerate(sl2):
                            if veq(simp(bv(c, 64)), simp(bv(hi, 64))):
                                hi2 = d
                                sl2 = sl2[:q] + sl2[q + 1:]
                                break
                        sl = sl2 + [(lo2, hi2)]
                        done = True
                        break
                    if veq(simp(bv(a, 64)), simp(bv(hi, 64))):
                        sl[j] = (lo, b)
                        done = True
                        break
                if not done and vs in self.mergeable(st, vs):
                    sl.append((lo, hi))
                    done = True
                if done:
                    del st.own[name]
                    st.osl[vs] = tuple(sorted(sl, key=repr))
                    ch = True

    def mergeable(self, st, vs):
        return (vs,)

    def same(self, a, b):
        if a.own != b.own or a.log != b.log or a.cls != b.cls or set(a.mat) != set(b.mat) or a.notes != b.notes:
            return False
        if len(a.objs) != len(b.objs) or len(a.osl) != len(b.osl):
            return False
        for k, o in a.objs.items():
            p = b.objs.get(k)
            if p is None:
                return False
            if p is o:
                continue
            if o.kind == 'global':
                if o.ro:
                    continue
            if o.cls != p.cls or len(o.cells) != len(p.cells):
                return False
            for off, c in o.cells.items():
                d = p.cells.get(off)
                if d is None or d[0] != c[0] or not veq(c[1], d[1]):
                    return False
        for k, v in a.osl.items():
            if k not in b.osl or not veq(v, b.osl[k]):
                return False
        return True

    def merge(self, a, ea, b, eb, live):
        for k in live:
            if (k in ea) != (k in eb) or (k in ea and not veq(ea[k], eb[k])):
                return None
        if not self.same(a, b):
            self.norm(a)
            self.norm(b)
            if not self.same(a, b):
                return None
        ids = {p.get_id() for p in b.pc if isz(p)}
        common = [p for p in a.pc if isz(p) and p.get_id() in ids]
        cid = {p.get_id() for p in common}
        da = [p for p in a.pc if isz(p) and p.get_id() not in cid]
        db = [p for p in b.pc if isz(p) and p.get_id() not in cid]
        a.pc = common
        da, db = [p for p in da if self.keepfact(p)], [p for p in db if self.keepfact(p)]
        if da and db:
            f = simp(z3.Or(z3.And(*da), z3.And(*db)))
            if f is not True:
                a.pc.append(f)
        a.n = max(a.n, b.n)
        a.borrow.update(b.borrow)
        return a, ea

    def keepfact(self, p):
        """facts about lengths and iteration counts are dropped when paths join (sound: weaker)"""
        k = p.get_id()
        r = self.kf.get(k)
        if r is None:
            r, todo, seen = True, [p], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and re.match(r'len:|k\d|flen:|hv\d', x.decl().name()):
                    r = False
                    break
                todo += x.children()
            self.kf[k] = r
            self.kfkeep.append(p)
        return r

    def run(self, F, start, st, env, until=(), body=None, startidx=0):
        """Execute from `start` until return, a block in `until`, or leaving `body`.
        Returns {'ret': [(st, env, value)], block id: [(st, env)]}"""
        self.level += 1
        try:
            out = self.execute(F, start, st, env, until, body, startidx)
        finally:
            self.level -= 1
        if not self.level:
            self.runs += 1
            self.reached += any(self.sat(x[0]) for l in out.values() for x in l)
        return out

    def execute(self, F, start, st, env, until=(), body=None, startidx=0):
        order, heads = llvm.rpo(F)
        livein = self.live(F)
        out = {}
        pend = {start.id: [(st, env, None)]}
        first = True
        while pend:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit of the unit exceeded")
            bid = min(pend, key=lambda b: order.get(b, 1 << 30))
            items = pend.pop(bid)
            B = F.blocks[bid]
            # phi nodes and merging
            ready = []
            for s, e, pred in items:
                phis = [I for I in B.insts if I.op == 'phi'] if pred is not None else []
                if phis:
                    vals = []
                    for I in phis:
                        for pb, v in I.x:
                            if pb.id == pred.id:
                                vals.append((I.id, self.ev(e, v)))
                                break
                    e = dict(e)
                    for i, v in vals:
                        e[i] = v
                keep = livein[bid] | {I.id for I in B.insts if I.op == 'phi'}
                if pred is not None:
                    e = {k: v for k, v in e.items() if k in keep or k == 'allocas'}
                ready.append([s, e])
            if len(ready) > 1:
                merged = []
                for s, e in ready:
                    for m in merged:
                        if m[1].get('allocas') == e.get('allocas'):
                            r = self.merge(m[0], m[1], s, e, [k for k in e if k != 'allocas'])
                            if r is not None:
                                m[0], m[1] = r
                                break
                    else:
                        merged.append([s, e])
                ready = merged
            if len(ready) > 300:
                raise Unsupported("too many paths")
            for s, e in ready:
                if not first and bid in heads and (body is None or bid != start.id):
                    for kind, lst in self.loop(F, B, heads[bid], s, e).items():
                        if kind == 'ret':
                            out.setdefault('ret', []).extend(lst)
                        else:
                            for s2, e2, pred in lst:
                                self._goto(F, s2, e2, pred, F.blocks[kind], until, body, start, out, pend)
                    continue
                self.paths += 1
                for s2, e2, term in self.block(F, B, s, e, startidx if first else 0):
                    self._term(F, B, s2, e2, term, until, body, start, out, pend)
            first = False
        return out

    def _goto(self, F, s, e, pred, tgt, until, body, start, out, pend):
        if tgt.id in until or (body is not None and (tgt.id not in body or tgt.id == start.id)):
            out.setdefault(tgt.id, []).append((s, e, pred))
        else:
            pend.setdefault(tgt.id, []).append((s, e, pred))

    def _term(self, F, B, s, e, term, until, body, start, out, pend):
        op = term.op
        if op == 'ret':
            v = self.ev(e, term.ops[0]) if term.ops else None
            out.setdefault('ret', []).append((s, e, v))
        elif op == 'br':
            if not term.ops:
                self._goto(F, s, e, B, term.x[0], until, body, start, out, pend)
                return
            c = self.ev(e, term.ops[0])
            if c is UNDEF:
                self.fail(s, "uninit", "branch on an indeterminate value", term)
                raise_dead = True
                return
            c = tobool(c)
            if isinstance(c, bool):
                self._goto(F, s, e, B, term.x[0 if c else 1], until, body, start, out, pend)
                return
            d = self.decide(s, c)
            if d is not None:
                self._goto(F, s, e, B, term.x[0 if d else 1], until, body, start, out, pend)
                return
            s2, e2 = s.clone(), dict(e)
            self.assume(s, c)
            self._goto(F, s, e, B, term.x[0], until, body, start, out, pend)
            self.assume(s2, z3.Not(c))
            self._goto(F, s2, e2, B, term.x[1], until, body, start, out, pend)
        elif op == 'switch':
            v = self.ev(e, term.ops[0])
            dflt, cases = term.x
            if v is UNDEF:
                self.fail(s, "uninit", "switch on an indeterminate value", term)
                return
            if isinstance(v, (int, bool)):
                for c, b in cases:
                    if c == int(v):
                        self._goto(F, s, e, B, b, until, body, start, out, pend)
                        return
                self._goto(F, s, e, B, dflt, until, body, start, out, pend)
                return
            if not isz(v):
                raise Unsupported(f"switch on {v!r}")
            w = v.size()
            rest = []
            for c, b in cases:
                f = simp(v == z3.BitVecVal(c, w))
                if f is not False and self.sat(s, f):
                    s2 = s.clone()
                    self.assume(s2, f)
                    self._goto(F, s2, dict(e), B, b, until, body, start, out, pend)
                rest.append(z3.Not(f) if isz(f) else (not f))
            f = simp(z3.And(*rest)) if rest else True
            if f is not False and self.sat(s, f):
                self.assume(s, f)
                self._goto(F, s, e, B, dflt, until, body, start, out, pend)
        elif op == 'unreachable':
            pass
        else:
            raise Unsupported("terminator " + op)

    def block(self, F, B, st, env, idx):
        """yields (state, env, terminator inst)"""
        work = [(st, env, idx)]
        out = []
        while work:
            s, e, i = work.pop()
            try:
                while True:
                    I = B.insts[i]
                    op = I.op
                    if op in ('ret', 'br', 'switch', 'unreachable', 'indirectbr'):
                        out.append((s, e, I))
                        break
                    if op == 'call' or op == 'invoke':
                        rs = self.call(s, e, I)
                        if op == 'invoke':
                            raise Unsupported("invoke")
                        for s2, v in rs[1:]:
                            e2 = dict(e)
                            e2[I.id] = v
                            work.append((s2, e2, i + 1))
                        if not rs:
                            break
                        s = rs[0][0]
                        e[I.id] = rs[0][1]
                    elif op != 'phi':
                        self.step(s, e, I)
                    i += 1
            except DeadPath:
                continue
        return out

    def step(self, s, e, I):
        op = I.op
        if op == 'load':
            e[I.id] = self.load(s, self.ev(e, I.ops[0]), I.ty.size, I.ty, I)
        elif op == 'store':
            v = self.ev(e, I.ops[0])
            t = I.ops[0].ty
            if t is None:
                t = None
            size = t.size if t is not None else 8
            if t is not None and t.k == 'int' and t.w == 1:
                size = 1
            self.store(s, self.ev(e, I.ops[1]), size, v, I)
        elif op == 'gep':
            e[I.id] = self.gep(s, self.ev(e, I.ops[0]), I.x, [self.ev(e, o) for o in I.ops[1:]], [o.ty for o in I.ops[1:]])
        elif op == 'alloca':
            n = self.ev(e, I.ops[0])
            if n != 1:
                raise Unsupported("variable-size alloca")
            k = s.alloc('stack', I.x.size)
            e[I.id] = Ptr(k)
            e['allocas'] = e.get('allocas', ()) + (k,)
        elif op == 'icmp':
            e[I.id] = self.icmp(s, I.x, self.ev(e, I.ops[0]), self.ev(e, I.ops[1]), I.ops[0].ty)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            e[I.id] = self.binop(s, op, self.ev(e, I.ops[0]), self.ev(e, I.ops[1]), I.ty)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'freeze', 'fneg'):
            v = self.ev(e, I.ops[0])
            st_ = I.ops[0].ty
            e[I.id] = self.cast(op, v, st_, I.ty)
        elif op == 'select':
            c = tobool(self.ev(e, I.ops[0]))
            a, b = self.ev(e, I.ops[1]), self.ev(e, I.ops[2])
            if not isinstance(c, bool):
                d = self.decide(s, c)
                if d is None:
                    if I.ty.k == 'int' and not isinstance(a, Tm) and not isinstance(b, Tm):
                        e[I.id] = simp(z3.If(c, bv(a, I.ty.w), bv(b, I.ty.w))) if I.ty.w > 1 else simp(z3.If(c, tobool(a) if isz(a) else z3.BoolVal(bool(a)), tobool(b) if isz(b) else z3.BoolVal(bool(b))))
                        return
                    raise Unsupported("select on pointers")
                c = d
            e[I.id] = a if c else b
        elif op == 'extractvalue':
            v = self.ev(e, I.ops[0])
            for i in I.x:
                v = v[i] if isinstance(v, (tuple, list)) else UNDEF
            e[I.id] = v
        elif op == 'insertvalue':
            v = self.ev(e, I.ops[0])
            n = len(I.ty.elts)
            l = list(v) if isinstance(v, tuple) else [UNDEF] * n
            if len(I.x) != 1:
                raise Unsupported("nested insertvalue")
            l[I.x[0]] = self.ev(e, I.ops[1])
            e[I.id] = Agg(l)
        elif op == 'fcmp':
            e[I.id] = z3.Bool(f"fcmp{I.id}")
        else:
            raise Unsupported("instruction " + op)

    def call(self, s, e, I):
        callee = I.x
        args = [self.ev(e, a) if a.k != 'meta' else None for a in I.ops]
        if callee.k == 'func':
            return self.invoke(s, callee.v, args, I)
        if callee.k == 'meta':
            raise Unsupported("inline assembly")
        p = self.ev(e, callee)
        if isinstance(p, Ptr) and p.b and p.b[0] == 'f':
            return self.invoke(s, p.b[1], args, I)
        return self.indirect(s, p, args, I)

    def indirect(self, s, p, args, I):
        if isinstance(p, Ptr) and p.b and p.b[0] == 'vfn':
            return self.virtual(s, p, args, I)
        raise Unsupported(f"indirect call {p!r}")

    def vslot(self, cls, off):
        """function in the vtable of a class"""
        g = f"_ZTVN4hsql{len(cls)}{cls}E"
        t, init, const, tl = self.M.glob(g)
        v = self.const_at(init, t, 16 + off, 8)
        if not (isinstance(v, Ptr) and v.b and v.b[0] == 'f'):
            raise Unsupported(f"vtable of {cls}")
        return v.b[1]

    def virtual(self, s, p, args, I):
        nm, off = p.b[1], p.b[2]
        this = args[0]
        if not (isinstance(this, Ptr) and this.b == ('s', nm) and isinstance(this.o, int) and this.o == 0):
            raise Unsupported("virtual call on another object")
        self.norm(s)
        k = s.mat.get(nm)
        if k is None:
            self.take(s, nm)
        ct = self.own_type(s, nm)
        if ct is None and k is not None and k in s.objs:
            ct = s.objs[k].lazy[2]
        if ct is None:
            self.fail(s, "dangling", f"virtual call on released memory ({nm})", I)
            raise DeadPath()
        opts = sorted(s.cls[nm]) if nm in s.cls else sorted(c for c in self.lay.subs[ct] if self.concrete(c))
        fns = {c: self.vslot(c, off) for c in opts}
        if nm in s.own and all(re.search(r'D0Ev$', f) for f in fns.values()):
            # contract of the deleting destructor: consumes the object
            self.obl += 1
            self.disch += 1
            self.kinds["delete-contract"] = self.kinds.get("delete-contract", 0) + 1
            s.own.pop(nm)
            return [(s, None)]
        out = []
        for n, c in enumerate(opts):
            t = s.clone() if n + 1 < len(opts) else s
            t.cls[nm] = frozenset([c])
            try:
                out += self.invoke(t, fns[c], args, I)
            except DeadPath:
                pass
        return out

    def vectype(self, st, name):
        return self.vectypes.get(name)

    def own_type(self, st, name):
        t = st.own.get(name) or st.borrow.get(name)
        if t is None:
            e = self.elems.get(name)
            if e is not None:
                vs, i, et = e
                if vs in st.osl:
                    return et
        return t

    def hier_up(self, cls):
        return {c for c, subs in self.lay.subs.items() if cls in subs}

    def concrete(self, cls):
        return cls in self.hier

    def invoke(self, s, name, args, I):
        name = self.M.alias.get(name, name)
        h = self.contracts.get(name)
        if h is None and name not in self.cache:
            h = None
            for m in self.models:
                h = m(self, name)
                if h:
                    break
            self.cache[name] = h
        elif h is None:
            h = self.cache[name]
        if h is not None:
            self.log_calls[name] = self.log_calls.get(name, 0) + 1
            r = h(self, s, args, I)
            return r
        if self.M.defined(name):
            if name in self.stack:
                raise Unsupported("recursion without a contract: " + name)
            self.inlined.add(name)
            return self.call_fn(s, name, args, I)
        raise Unsupported("external function without a contract: " + name)


    # ---------------- loops
    def loop(self, F, H, body, st, env):
        from . import loops
        h = getattr(self, 'loop_hook', None)
        if h is not None:
            return h(self, F, H, body, st, env)
        return loops.run_loop(self, F, H, body, st, env)
