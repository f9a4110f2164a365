"""The scanner: the compiled tables are compared with the automaton of spec/tokens.spec, the actions with the contract of their token."""
import re
import types
import z3
from . import llvm, models, sym
from .sym import Ptr, State, Tm, Unsupported, DeadPath, isz, simp, bv, UNDEF, NULL

LEX = '_Z8hsql_lexP10HSQL_STYPEP15HSQL_CUST_LTYPEPv'
STR_OPEN = ('string-open',)


# ------------------------------------------------------------------ regular expressions of the specification

class Nfa:
    """Thompson automata of several rules; the states of the subset construction are frozen sets of positions"""

    def __init__(self):
        self.eps, self.tr, self.acc = [], [], {}
        self._c = {}

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add(self, rule, rx):
        p = Rx(rx, self)
        a, b = p.alt()
        if p.i != len(p.s):
            raise ValueError("regular expression " + rx)
        self.acc[b] = rule
        return a

    def closure(self, ss):
        out, w = set(ss), list(ss)
        while w:
            for t in self.eps[w.pop()]:
                if t not in out:
                    out.add(t)
                    w.append(t)
        return frozenset(out)

    def step(self, S, c):
        k = (S, c)
        if k not in self._c:
            self._c[k] = self.closure([t for s in S for cs, t in self.tr[s] if c in cs])
        return self._c[k]

    def rule(self, S):
        r = [self.acc[s] for s in S if s in self.acc]
        return min(r) if r else None


class Rx:
    def __init__(self, s, N):
        self.s, self.i, self.N, self.ci = s, 0, N, False
        if s.startswith('(?i)'):
            self.ci, self.i = True, 4

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def alt(self):
        a, b = self.cat()
        while self.peek() == '|':
            self.i += 1
            c, d = self.cat()
            n, m = self.N.new(), self.N.new()
            self.N.eps[n] += [a, c]
            self.N.eps[b].append(m)
            self.N.eps[d].append(m)
            a, b = n, m
        return a, b

    def cat(self):
        a = b = self.N.new()
        while self.peek() not in (None, '|', ')'):
            c, d = self.rep()
            self.N.eps[b].append(c)
            b = d
        return a, b

    def rep(self):
        a, b = self.atom()
        while self.peek() in ('*', '+', '?'):
            q = self.s[self.i]
            self.i += 1
            n, m = self.N.new(), self.N.new()
            self.N.eps[n].append(a)
            self.N.eps[b].append(m)
            if q != '+':
                self.N.eps[n].append(m)
            if q != '?':
                self.N.eps[b].append(a)
            a, b = n, m
        return a, b

    def esc(self):
        c = self.s[self.i]
        self.i += 1
        return {'n': 10, 't': 9, 'r': 13, '0': 0}.get(c, ord(c))

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == '(':
            x = self.alt()
            if self.peek() != ')':
                raise ValueError("regular expression " + self.s)
            self.i += 1
            return x
        if c == '.':
            cs = frozenset(range(256))
        elif c == '[':
            neg = self.peek() == '^'
            self.i += neg
            cs, first = set(), True
            while first or self.peek() != ']':
                first = False
                x = self.s[self.i]
                self.i += 1
                lo = self.esc() if x == '\\' else ord(x)
                if self.peek() == '-' and self.s[self.i + 1] != ']':
                    self.i += 1
                    y = self.s[self.i]
                    self.i += 1
                    hi = self.esc() if y == '\\' else ord(y)
                    cs |= set(range(lo, hi + 1))
                else:
                    cs.add(lo)
            self.i += 1
            cs = frozenset(set(range(256)) - cs if neg else cs)
        else:
            x = self.esc() if c == '\\' else ord(c)
            cs = frozenset([x])
            if self.ci and chr(x).isalpha():
                cs = frozenset([ord(chr(x).lower()), ord(chr(x).upper())])
        a, b = self.N.new(), self.N.new()
        self.N.tr[a].append((cs, b))
        return a, b


def specification(S):
    """automata of the two modes: rules are (priority, name)"""
    N = Nfa()
    rules = []
    for k in S.keywords:
        rules.append(('kw ' + k, '(?i)' + k))
    for n, r in S.rules:
        if n == 'STRING':
            if r != r"'([^'\0]|'')*'":
                raise Unsupported("specification of strings")
            rules.append(('string-open', "'"))
        else:
            rules.append((n, r))
    rules.append(('INVALID', '.'))
    # among equally long matches the keywords win, then the order of the specification
    init = N.closure([N.add((i, n), r) for i, (n, r) in enumerate(rules)])
    Q = Nfa()
    q = [('quote', "''"), ('run', r"[^'\0]+"), ('close', "'"), ('nul', r'\0')]
    string = Q.closure([Q.add((i, n), r) for i, (n, r) in enumerate(q)])
    return (N, init), (Q, string), dict(rules)


# ------------------------------------------------------------------ the compiled scanner

class Tables:
    def __init__(self, T):
        from . import units
        M = T.M
        self.T = T
        eng = units.engine(T)

        def arr(nm):
            g = [x for x in M.gl_ref if re.fullmatch(r'_ZL\d+' + nm, x)]
            if len(g) != 1:
                raise Unsupported(f"scanner table {nm}")
            t, init, const, tl = M.glob(g[0])
            if not const:
                raise Unsupported(f"scanner table {nm} is not constant")
            es = t.elts[0].size
            out = []
            for i in range(t.size // es):
                v = eng.const_at(init, t, i * es, es)
                v = 0 if v is sym.ZERO else v
                if v >= 1 << (8 * es - 1) and nm != 'yy_ec' and nm != 'yy_meta':
                    v -= 1 << (8 * es)
                out.append(v)
            return out
        self.accept, self.ec, self.meta, self.base, self.defs, self.nxt, self.chk = (arr(n) for n in ('yy_accept', 'yy_ec', 'yy_meta', 'yy_base', 'yy_def', 'yy_nxt', 'yy_chk'))
        self.jam = len(self.accept) - 1
        self.nulclass = len(self.meta) - 1
        self.eob = max(self.accept)

    def cls(self, byte):
        return self.nulclass if byte == 0 else self.ec[byte]

    def delta(self, s, c):
        """the table lookup of the skeleton; None where it jams"""
        while self.chk[self.base[s] + c] != s:
            s = self.defs[s]
            if s >= len(self.accept):
                c = self.meta[c]
        s = self.nxt[self.base[s] + c]
        return None if s == self.jam else s


class Bisim:
    """product of the compiled automaton and the specified one"""

    def __init__(self, tab, N, n0, s0):
        self.tab, self.N = tab, N
        self.path = {(s0, n0): b""}
        self.pairs = {}         # (action, rule) -> access string
        self.bad = []           # (message, access string)
        self.nulrules = set()   # rules whose text may contain NUL
        self.states = set()
        todo = [(s0, n0)]
        nul = {(s0, n0): False}
        while todo:
            p = todo.pop(0)
            s, n = p
            w = self.path[p]
            self.states.add(s)
            if w:
                r = N.rule(n)
                a = tab.accept[s]
                if (r is None) != (a == 0):
                    self.bad.append((f"after {w!r} the scanner {'accepts' if a else 'does not accept'} (rule {a}), the specification says {r}", w, {a} if a else set()))
                elif r is not None:
                    self.pairs.setdefault((a, r[1]), w)
                    if nul[p]:
                        self.nulrules.add(r[1])
            t0 = tab.delta(s, tab.ec[0])
            if w and (t0 is None or tab.accept[t0] != tab.eob) and tab.delta(s, tab.ec[0]) is not None:
                self.bad.append((f"no transition to the end of the buffer after {w!r}", w, {0}))
            reps = {}
            for c in range(256):
                reps.setdefault((tab.cls(c), N.step(n, c)), c)
            for (k, n2), c in reps.items():
                # prefer printable representatives
                c = next((x for x in b"aAxX0159 _-'\".;" if (tab.cls(x), N.step(n, x)) == (k, n2)), c)
                s2 = tab.delta(s, k)
                w2 = w + bytes([c])
                if (s2 is None) != (not n2):
                    if s2 is not None and not self.useful(s2) or n2 and not any(True for _ in n2):
                        continue
                    self.bad.append((f"after {w!r} the scanner {'continues' if s2 is not None else 'stops'} at byte {c}, the specification {'continues' if n2 else 'stops'}", w2, self.reach(s2) if s2 is not None else set()))
                    continue
                if s2 is None:
                    continue
                q = (s2, n2)
                if q not in self.path:
                    self.path[q] = w2
                    nul[q] = nul[p] or c == 0
                    todo.append(q)
            if len(self.bad) > 20 or len(self.path) > 20000:
                break

    def useful(self, s):
        """can an accepting state be reached"""
        return bool(self.reach(s))

    def reach(self, s):
        """actions of the states that can be reached"""
        seen, w, out = {s}, [s], set()
        while w:
            x = w.pop()
            if self.tab.accept[x] and self.tab.accept[x] != self.tab.eob:
                out.add(self.tab.accept[x])
            for c in set(self.tab.cls(b) for b in range(256)):
                t = self.tab.delta(x, c)
                if t is not None and t not in seen:
                    seen.add(t)
                    w.append(t)
        return out


# ------------------------------------------------------------------ one activation of the scanner

TEXT = ('o', 'text')
LOCF = ("first_line", "first_column", "last_line", "last_column", "total_column", "string_length")


class Frame:
    def __init__(self, E, st):
        self.F = F = E.M.fn(LEX)
        self.env, self.obj, ks = {}, {}, []
        for I in F.blocks[0].insts:
            if I.op == 'alloca':
                k = st.alloc('stack', I.x.size)
                self.env[I.id] = Ptr(k)
                self.obj.setdefault(I.name, k)
                ks.append(k)
        self.env['allocas'] = tuple(ks)
        self.blk = {}
        for B in F.blocks:
            self.blk.setdefault(B.name, B)


def guts(T):
    if not hasattr(T, '_guts'):
        sz, lines = next((s, l) for n, (s, l) in T.L.raw.items() if n == 'yyguts_t')
        T._guts = (sz, {l.split()[-1].lstrip('*'): o for o, d, l in lines if d == 1})
    return T._guts


def ext(st, key, size, cells=None, lazy=None, cls=None):
    o = sym.Obj()
    o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = 'ext', size, cls, dict(cells or {}), lazy, st.sid, True, False
    st.objs[key] = o
    return key


def setup(E, n, nul=False):
    """state in which the skeleton has found the longest match: n bytes from yy_bp to yy_cp"""
    st = State()
    fr = Frame(E, st)
    gsz, goff = guts(E.T)
    G = ext(st, ('o', 'guts'), gsz)
    LS = E.lay.cls['HSQL_CUST_LTYPE']
    L = ext(st, ('o', 'lloc'), LS.size)
    V = ext(st, ('o', 'lval'), 16)
    for f in E.lay.fields('HSQL_CUST_LTYPE'):
        if f.kind == 'int':
            st.objs[L].cells[f.off] = (f.size, z3.BitVec("old." + f.name, 8 * f.size))
    E.text_len = n
    E.nulrule = nul
    bt = z3.Function("text", z3.BitVecSort(64), z3.BitVecSort(8))

    def byte(s, off, size, inst):
        if size != 1:
            raise Unsupported("wide read of the text")
        o = bv(off, 64)
        cut = s.notes.get('cut')
        end = cut if cut is not None else n
        E.check(s, "bounds", simp(z3.ULE(o, bv(end, 64))), "read beyond the matched text", inst)
        if cut is not None and not isz(cut) and isinstance(off, int) and off == cut:
            return 0
        v = bt(o)
        if cut is not None:
            if not nul:
                s.pc.append(z3.Implies(z3.ULT(o, bv(cut, 64)), v != 0))
            return simp(z3.If(o == bv(cut, 64), z3.BitVecVal(0, 8), v))
        return v
    ext(st, TEXT, None, lazy=('arr', byte))
    E.bytefn = bt
    if isz(n):
        st.pc += [z3.UGE(n, 1), z3.ULT(n, 1 << 31)]
    g = st.objs[G].cells
    for nm, v, s in (('yylval_r', Ptr(V), 8), ('yylloc_r', Ptr(L), 8), ('yy_start', z3.BitVec('yy_start', 32), 4), ('yytext_r', Ptr(TEXT), 8), ('yyleng_r', z3.BitVec('old.leng', 32), 4),
                     ('yy_hold_char', z3.BitVec('old.hold', 8), 1), ('yy_c_buf_p', Ptr(('s', 'old.cbufp')), 8), ('yy_last_accepting_cpos', Ptr(TEXT, n), 8)):
        if nm not in goff:
            raise Unsupported("scanner state " + nm)
        g[goff[nm]] = (s, v)

    def put(var, v, s):
        if var in fr.obj:
            st.objs[fr.obj[var]].cells[0] = (s, v)
    put('yyscanner.addr', Ptr(G), 8)
    put('yyg', Ptr(G), 8)
    put('yylval_param.addr', Ptr(V), 8)
    put('yylloc_param.addr', Ptr(L), 8)
    put('yy_bp', Ptr(TEXT), 8)
    put('yy_cp', Ptr(TEXT, n), 8)
    return st, fr, G, goff, L, V


def hook(E):
    """memory of the text and the loops over it"""
    store0 = E.store

    def store(st, p, size, v, inst):
        if isinstance(p, Ptr) and p.b == TEXT:
            if size != 1:
                raise Unsupported("wide write to the text")
            cut = st.notes.get('cut')
            if v == 0 and not isz(v) or v is sym.ZERO:
                st.notes['cut'] = p.o
            elif cut is not None and (sym.veq(cut, p.o) or E.valid(st, bv(cut, 64) == bv(p.o, 64))):
                # the skeleton puts the byte back
                h = E.bytefn(bv(p.o, 64))
                if not E.valid(st, bv(v, 8) == h) and not sym.veq(v, st.notes.get('held')):
                    E.fail(st, "text", "the text is modified", inst)
                st.notes.pop('cut')
            else:
                E.fail(st, "text", "the text is modified", inst)
            return
        o = st.objs.get(p.b) if isinstance(p, Ptr) else None
        if o is not None and o.lazy is not None and o.lazy[0] == 'content' and o.lazy[1].op == "open" and size == 1:
            E.check(st, "bounds", simp(z3.ULT(bv(p.o, 64), bv(o.size, 64))), "write outside of a buffer", inst)
            t = o.lazy[1].a[0]
            if t.op == "slice" and (v is sym.ZERO or not isz(v) and v == 0) and E.valid(st, bv(p.o, 64) == bv(t.a[1], 64) - bv(t.a[0], 64)):
                st.w(p.b).lazy = ('content', t)
            else:
                E.fail(st, "text value", "the text is not terminated at its end", inst)
                st.w(p.b).lazy = ('content', Tm("broken"))
            return
        return store0(st, p, size, v, inst)
    E.store = store
    load0 = E.load

    def load(st, p, size, ty, inst):
        if isinstance(p, Ptr) and p.b == TEXT:
            return st.objs[TEXT].lazy[1](st, p.o, size, inst)
        if isinstance(p, Ptr) and p.b in (('g', 'stderr'), ('g', 'stdout')):
            return Ptr(('f', 'FILE'))
        return load0(st, p, size, ty, inst)
    E.load = load

    def loop(self, F, H, body, st, env):
        return fold(self, F, H, body, st, env)
    E.loop = types.MethodType(loop, E)


def step_loc(c, b):
    """the position after one more byte"""
    nl = b == 10
    d = dict(c)
    d["total_column"] = c["total_column"] + 1
    d["string_length"] = c["string_length"] + 1
    d["last_line"] = z3.If(nl, c["last_line"] + 1, c["last_line"])
    d["last_column"] = z3.If(nl, z3.BitVecVal(0, 32), c["last_column"] + 1)
    return d


def fold(E, F, H, body, st, env):
    """Loop over the matched text. Invariant: after k bytes the position is that of the specification (fold of step_loc over the
    first k bytes); checked for the first, every further and the last iteration."""
    fs = {f.name: f for f in E.lay.fields('HSQL_CUST_LTYPE') if f.kind == 'int'}
    L = ('o', 'lloc')
    with_k = z3.BitVec(f"k!{H.id}", 64)
    once = E.run(F, H, st.clone(), dict(env), body=body)
    backs = once.get(H.id, [])
    if not backs:
        return once
    # induction variables: cells outside of the location that move
    cur0 = {}
    moved = {}
    for b, e, pred in backs:
        for key, o in b.objs.items():
            o0 = st.objs.get(key)
            if key == L or o0 is None or o is o0:
                continue
            for off, (m, v) in o.cells.items():
                c0 = o0.cells.get(off)
                if c0 is None or sym.veq(c0[1], v):
                    continue
                moved[(key, off)] = c0
    n = st.notes.get('cut')
    if n is None:
        raise Unsupported("loop outside of an action")
    G = st.clone()
    k = with_k
    G.pc.append(z3.ULE(k, bv(n, 64)))
    G.pc.append(z3.ULT(bv(n, 64), 1 << 31))
    for (key, off), (m, v) in moved.items():
        w = G.w(key)
        if isinstance(v, Ptr):
            nv = Ptr(v.b, simp(bv(v.o, 64) + k))
        elif isinstance(v, int) or isz(v) and not z3.is_bool(v):
            nv = simp(bv(v, 8 * m) + (k if m == 8 else z3.Extract(8 * m - 1, 0, k)))
        else:
            # cells without a value before the loop (locals of its body)
            nv = None
        if nv is None:
            w.cells.pop(off, None)
        else:
            w.cells[off] = (m, nv)
    for B in body:
        for I in F.blocks[B].insts:
            if I.op == 'phi':
                raise Unsupported("loop with values in registers")
    lo = {nm: z3.BitVec("at." + nm, 8 * f.size) for nm, f in fs.items()}
    w = G.w(L)
    start = {}
    for nm, f in fs.items():
        start[nm] = w.cells[f.off][1]
        w.cells[f.off] = (f.size, lo[nm])
    r = E.run(F, H, G.clone(), dict(env), body=body)
    b0 = E.bytefn(k)
    for b, e, pred in r.get(H.id, []):
        want = step_loc(lo, b0)
        E.check(b, "loop", simp(z3.ULT(k, bv(n, 64))), "the loop runs beyond the end of the text", None)
        for nm, f in fs.items():
            got = b.objs[L].cells[f.off][1]
            E.check(b, "position" if nm != "string_length" else "length", simp(bv(got, 32) == (want[nm] if nm in want else lo[nm])), f"{nm} after one byte of a token", None)
        for (key, off), (m, v) in moved.items():
            c = b.objs[key].cells.get(off)
            g = G.objs[key].cells.get(off)
            if g is None:
                continue
            gv, cv = g[1], c[1]
            if isinstance(gv, Ptr):
                ok = isinstance(cv, Ptr) and cv.b == gv.b and E.valid(b, bv(cv.o, 64) == bv(gv.o, 64) + 1)
            else:
                ok = E.valid(b, bv(cv, 8 * m) == bv(gv, 8 * m) + 1)
            if not ok:
                raise Unsupported("loop variable that is not a counter")
        for key, o in b.objs.items():
            if key == L or key not in G.objs:
                continue
            for off, (m, v) in o.cells.items():
                c = G.objs[key].cells.get(off)
                if c is not None and (key, off) not in moved and not sym.veq(c[1], v):
                    raise Unsupported("the loop changes more than the position")
    outs = {}
    fo = {nm: (z3.BitVec("fold." + nm, 32) if nm not in ("first_line", "first_column") else start[nm]) for nm in fs}
    for kk, lst in r.items():
        if kk == H.id:
            continue
        for s2, e2, x in lst:
            if not E.sat(s2):
                continue
            if not E.nulrule:
                E.check(s2, "loop", simp(k == bv(n, 64)), "the loop ends before the end of the text", None)
            for nm, f in fs.items():
                if not sym.veq(s2.objs[L].cells[f.off][1], lo[nm]):
                    raise Unsupported("the last iteration changes the position")
            w = s2.w(L)
            for nm, f in fs.items():
                w.cells[f.off] = (f.size, fo[nm])
            s2.notes['fold'] = dict(start)
            # k is n from here on
            for (key, off), (m, v) in moved.items():
                c = s2.objs.get(key)
                if c is not None and off in c.cells:
                    q = c.cells[off][1]
                    nn = bv(n, 64)
                    if isinstance(q, Ptr):
                        s2.w(key).cells[off] = (m, Ptr(q.b, simp(z3.substitute(bv(q.o, 64), (k, nn)))))
                    elif isz(q):
                        s2.w(key).cells[off] = (m, simp(z3.substitute(q, (k, nn))))
            s2.pc = [p for p in s2.pc if not (isz(p) and str(k) in str(p))]
            outs.setdefault(kk, []).append((s2, e2, x))
    return outs


# ------------------------------------------------------------------ contracts of the library functions actions use

def install(E, n, fixed=None):
    """contracts over the text of the token; fixed: the text, where the rule determines it"""
    inr = z3.Bool("inrange")

    def textterm(st, p, I):
        key, off = E.key(st, p, I, "text")
        if p.b == TEXT:
            return Tm("text", p.o, st.notes.get('cut'))
        return models.content(E, st, p)

    def whole(t):
        return t.op == "text" and not isz(t.a[0]) and t.a[0] == 0

    def put(st, p, v, I):
        key, off = E.key(st, p, I, "write")
        o = st.w(key)
        o.dirty = True
        E.clear(o, off, 32)
        o.cells[off] = (32, v)

    def get(st, p, I):
        key, off = E.key(st, p, I, "string access")
        c = st.objs[key].cells.get(off)
        if c is None or not isinstance(c[1], sym.Str):
            E.fail(st, "uninit", "use of a string that was not constructed", I)
            raise DeadPath()
        return c[1].v

    def errno(E, st, a, I):
        return [(st, Ptr(('o', 'errno')))]

    def number(E, st, a, I):
        t = textterm(st, a[0], I)
        if len(a) > 1 and not (isinstance(a[1], Ptr) and a[1].b is None):
            raise Unsupported("strtoll with an end pointer")
        base = a[2] if len(a) > 2 else 10
        nm = "num" if whole(t) and base == 10 else f"num({t!r},{base!r})"
        v = z3.BitVec(nm, 64)
        ok = inr if nm == "num" else z3.Bool("inrange " + nm)
        if fixed is not None and nm == "num":
            x = int(fixed)
            st.pc += [ok == (-(1 << 63) <= x < 1 << 63), v == z3.BitVecVal(max(-(1 << 63), min(x, (1 << 63) - 1)), 64)]
        else:
            # out of range: the value saturates
            st.pc.append(z3.Implies(z3.Not(ok), z3.Or(v == z3.BitVecVal((1 << 63) - 1, 64), v == z3.BitVecVal(1 << 63, 64))))
            if fixed is None and nm == "num":
                st.pc.append(z3.Implies(z3.Not(ok), v == z3.BitVecVal((1 << 63) - 1, 64)))
                st.pc.append(z3.UGE(z3.BitVecVal((1 << 63) - 1, 64), v))
        w = st.w(('o', 'errno'))
        old = w.cells[0][1]
        w.cells[0] = (4, simp(z3.If(ok, bv(old, 32), z3.BitVecVal(34, 32))))
        return [(st, v)]

    def real(E, st, a, I):
        t = textterm(st, a[0], I)
        if len(a) > 1 and not (isinstance(a[1], Ptr) and a[1].b is None):
            raise Unsupported("strtod with an end pointer")
        return [(st, Tm("atof", t))]

    def strlen(E, st, a, I):
        if a[0].b == TEXT:
            cut = st.notes.get('cut')
            if cut is None:
                raise Unsupported("length of an unterminated text")
            return [(st, simp(bv(cut, 64) - bv(a[0].o, 64)))]
        return models.m_strlen(E, st, a, I)

    def strdup(E, st, a, I):
        models.use_str(E, st, a[0], I, "strdup")
        return [(st, models.strobj(E, st, textterm(st, a[0], I)))]

    def strndup(E, st, a, I):
        models.use_str(E, st, a[0], I, "strndup")
        return [(st, models.strobj(E, st, slice_(textterm(st, a[0], I), a[1])))]

    def strncpy(E, st, a, I):
        key, off = E.key(st, a[0], I, "strncpy")
        if key == TEXT:
            E.fail(st, "text", "the text is modified", I)
            raise DeadPath()
        o = st.w(key)
        if o.size is not None:
            E.check(st, "bounds", simp(z3.And(z3.ULE(bv(off, 64), bv(o.size, 64)), z3.ULE(bv(a[2], 64), bv(o.size, 64) - bv(off, 64)))), "strncpy beyond the end of the buffer", I)
        if not sym.veq(off, 0):
            raise Unsupported("strncpy into the middle of a buffer")
        o.lazy = ('content', Tm("open", slice_(textterm(st, a[1], I), a[2])))
        o.cls = 'char'
        return [(st, a[0])]

    def memcpy(E, st, a, I):
        if isinstance(a[2], int) or not (isinstance(a[1], Ptr) and a[1].b == TEXT):
            return models.m_memcpy(E, st, a, I)
        cut = st.notes.get('cut')
        if cut is None:
            raise Unsupported("length of an unterminated text")
        E.check(st, "bounds", simp(z3.And(z3.ULE(bv(a[1].o, 64), bv(cut, 64)), z3.ULE(bv(a[2], 64), bv(cut, 64) - bv(a[1].o, 64) + 1))), "memcpy beyond the end of the text", I)
        return strncpy(E, st, a, I)

    def slice_(t, k):
        if t.op == "text":
            return Tm("slice", t.a[0], simp(bv(t.a[0], 64) + bv(k, 64)))
        return Tm("strn", t, k)

    def malloc(E, st, a, I):
        k = st.alloc('malloc', a[0])
        return [(st, Ptr(k))]

    def wrapper(E, st, a, I):
        k = ('o', 'buf')
        return [(st, Ptr(k))]

    def same(E, st, a, I):
        return [(st, None)]

    def bufkey(st, p):
        return isinstance(p, Ptr) and p.b == ('o', 'buf')

    def sstr_set(E, st, a, I):
        if not bufkey(st, a[0]):
            raise Unsupported("string stream")
        st.notes['buf'] = get(st, a[1], I)
        return [(st, None)]

    def sstr_get(E, st, a, I):
        if not bufkey(st, a[1]):
            raise Unsupported("string stream")
        put(st, a[0], sym.Str(st.notes['buf']), I)
        return [(st, None)]

    def append(st, t):
        b = st.notes['buf']
        st.notes['buf'] = cat(b, t)

    def out_char(E, st, a, I):
        if not bufkey(st, a[0]):
            raise Unsupported("string stream")
        c = a[1]
        append(st, Tm("lit:" + chr(c)) if not isz(c) else Tm("byte", c))
        return [(st, a[0])]

    def out_str(E, st, a, I):
        if not bufkey(st, a[0]):
            raise Unsupported("string stream")
        append(st, textterm(st, a[1], I))
        return [(st, a[0])]

    def out_string(E, st, a, I):
        if not bufkey(st, a[0]):
            raise Unsupported("string stream")
        append(st, get(st, a[1], I))
        return [(st, a[0])]

    def write(E, st, a, I):
        if not bufkey(st, a[0]):
            raise Unsupported("string stream")
        append(st, Tm("text", 0, a[2]) if a[1] == Ptr(TEXT) and sym.veq(simp(bv(a[2], 64)), simp(bv(st.notes.get('cut', -1), 64))) else slice_(textterm(st, a[1], I), a[2]))
        return [(st, a[0])]

    def ctor(E, st, a, I):
        put(st, a[0], sym.Str(textterm(st, a[1], I)), I)
        return [(st, None)]

    def ctor_n(E, st, a, I):
        put(st, a[0], sym.Str(slice_(textterm(st, a[1], I), a[2])), I)
        return [(st, None)]
    # std::string as the buffer
    def s_set(E, st, a, I):
        if bufkey(st, a[0]):
            st.notes['buf'] = textterm(st, a[1], I)
        else:
            put(st, a[0], sym.Str(textterm(st, a[1], I)), I)
        return [(st, a[0])]

    def s_setstr(E, st, a, I):
        v = st.notes['buf'] if bufkey(st, a[1]) else get(st, a[1], I)
        if bufkey(st, a[0]):
            st.notes['buf'] = v
        else:
            put(st, a[0], sym.Str(v), I)
        return [(st, a[0])]

    def s_clear(E, st, a, I):
        if bufkey(st, a[0]):
            st.notes['buf'] = Tm("lit:")
        else:
            put(st, a[0], sym.Str(Tm("lit:")), I)
        return [(st, None)]

    def s_add(kind):
        def h(E, st, a, I):
            t = textterm(st, a[1], I) if kind == 's' else Tm("lit:" + chr(a[1])) if kind == 'c' and not isz(a[1]) else Tm("byte", a[1]) if kind == 'c' else \
                (st.notes['buf'] if bufkey(st, a[1]) else get(st, a[1], I)) if kind == 'S' else \
                (Tm("text", 0, a[2]) if a[1] == Ptr(TEXT) and E.valid(st, bv(a[2], 64) == bv(st.notes.get('cut', -1), 64)) else slice_(textterm(st, a[1], I), a[2]))
            if bufkey(st, a[0]):
                append(st, t)
            else:
                put(st, a[0], sym.Str(cat(get(st, a[0], I), t)), I)
            return [(st, a[0])]
        return h

    def s_cstr(E, st, a, I):
        v = st.notes['buf'] if bufkey(st, a[0]) else get(st, a[0], I)
        k = ('o', f'strdata:{a[0].b[1]}:{a[0].o}')
        if k not in st.objs:
            st.alloc('strbuf', None, 'char', k[1])
        st.w(k).lazy = ('content', v)
        return [(st, Ptr(k))]

    STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
    table = {
        '__errno_location': errno, '__isoc23_strtoll': number, 'strtoll': number, '__isoc23_strtol': number, 'strtol': number, 'atoll': number, 'atol': number,
        'atof': real, 'strtod': real, 'strlen': strlen, 'strdup': strdup, 'strndup': strndup, 'strncpy': strncpy, 'memcpy': memcpy, 'memmove': memcpy, 'llvm.memcpy.p0.p0.i64': memcpy, 'llvm.memmove.p0.p0.i64': memcpy, 'malloc': malloc, 'fwrite': same,
    }
    pats = [
        (r'std::basic_ios<char, std::char_traits<char> >::clear\(', same),
        (r'std::allocator<char>::~?allocator\(|std::__new_allocator<char>::~?__new_allocator\(', same),
        (r'.*basic_stringstream<.*>::str\(' + re.escape(STR) + r' (const&|&&)\)', sstr_set),
        (r'.*basic_ostringstream<.*>::str\(' + re.escape(STR) + r' (const&|&&)\)', sstr_set),
        (r'.*basic_o?stringstream<.*>::str\(\) const', sstr_get),
        (r'std::basic_ostream<char, .*>& std::operator<< ?<.*>\(std::basic_ostream<char, .*>&, char\)', out_char),
        (r'std::basic_ostream<char, .*>& std::operator<< ?<.*>\(std::basic_ostream<char, .*>&, char const\*\)', out_str),
        (r'std::basic_ostream<char, .*>& std::operator<< ?<.*>\(std::basic_ostream<char, .*>&, ' + re.escape(STR), out_string),
        (r'std::ostream::write\(|std::basic_ostream<.*>::write\(', write),
        (re.escape(STR) + r'::basic_string(<.*>)?\(char const\*, std::allocator', ctor),
        (re.escape(STR) + r'::basic_string(<.*>)?\(char const\*, unsigned long, std::allocator', ctor_n),
        (re.escape(STR) + r'::operator=\(char const\*\)', s_set),
        (re.escape(STR) + r'::assign\(char const\*\)', s_set),
        (re.escape(STR) + r'::operator=\(' + re.escape(STR), s_setstr),
        (re.escape(STR) + r'::clear\(\)', s_clear),
        (re.escape(STR) + r'::(operator\+=|append)\(char const\*\)', s_add('s')),
        (re.escape(STR) + r'::(operator\+=|push_back)\(char\)', s_add('c')),
        (re.escape(STR) + r'::append\(char const\*, unsigned long\)', s_add('n')),
        (re.escape(STR) + r'::(operator\+=|append)\(' + re.escape(STR) + r' const&\)', s_add('S')),
        (re.escape(STR) + r'::(c_str|data)\(\) const', s_cstr),
    ]

    def model(E, name):
        if name in table:
            return table[name]
        if name.startswith('_ZTW'):
            return wrapper
        d = E.dem.get(name, name)
        for p, h in pats:
            if re.match(p, d):
                return h
        return None
    E.models.insert(0, model)


def cat(a, b):
    if a.op == "lit:":
        return b
    if b.op == "lit:":
        return a
    return Tm("cat", a, b)


# ------------------------------------------------------------------ the units

def action_unit(T, G, act, rule, mode, S, first, minlen, fixed, string_states, init, emptybuf):
    """one rule: from the end of the match to the return of the token or to the next match.
    mode: 0 between tokens, 1 within a string; emptybuf: the invariant that the buffer is empty between tokens"""
    def run(E):
        tn = {t[2]: t[1] for t in G.terms}
        n = len(fixed) if fixed is not None else z3.BitVec("n", 64)
        nulrule = rule in ('INVALID', 'nul')
        st, fr, G_, goff, L, V = setup(E, n, nul=nulrule)
        E.T = T
        hook(E)
        install(E, n, fixed.decode() if fixed is not None else None)
        g = st.objs[G_].cells
        g[goff['yy_start']] = (4, init[mode])
        st.pc.append(z3.UGE(bv(n, 64), z3.BitVecVal(minlen, 64)))
        st.pc.append(z3.ULT(bv(n, 64), z3.BitVecVal(1 << 31, 64)))
        if first is not None:
            b0 = E.bytefn(z3.BitVecVal(0, 64))
            st.pc.append(z3.Or(*[b0 == c for c in sorted(first)]))
        if rule in ('char', 'INVALID', 'quote', 'close', 'nul', 'string-open') and fixed is None:
            st.pc.append(bv(n, 64) == minlen)
        ext(st, ('o', 'errno'), 4, {0: (4, z3.BitVec("old.errno", 32))})
        ext(st, ('o', 'vtab'), 64, lazy=('fn', lambda s, off, size: 0 if size == 8 else None))
        ext(st, ('o', 'buf'), 1024, lazy=('fn', lambda s, off, size: Ptr(('o', 'vtab'), 24) if size == 8 and off == 0 else None))
        st.notes['buf'] = Tm("lit:") if mode == 0 and emptybuf else Tm("buffer")
        st.notes['bufmode'] = mode
        st.objs[fr.obj['yy_act']].cells.clear()
        # any state that accepts with this action
        s0 = next(i for i, a in enumerate(T.lextab.accept) if a == act)
        st.objs[fr.obj['yy_current_state']].cells[0] = (4, s0)
        order, heads = llvm.rpo(fr.F)
        fa = fr.blk['yy_find_action'].id
        outer = max((b for b in heads if fa in heads[b]), key=lambda b: len(heads[b]))
        outs = E.run(fr.F, fr.blk['yy_find_action'], st, fr.env, until={outer})
        ends = [(s, ('token', x)) for s, e, x in outs.get('ret', [])] + [(s, ('next', None)) for k, l in outs.items() if k != 'ret' for s, e, p in l]
        ends = [x for x in ends if E.sat(x[0])]
        if not ends:
            E.fail(st, "token", f"the action of {rule} does not return")
        for s, (way, tok) in ends:
            verdict(E, s, way, tok, rule, mode, n, fixed, tn, G_, goff, L, V, init, emptybuf, first)
    return run


def eof_unit(T, G, mode, init, emptybuf):
    def run(E):
        st, fr, G_, goff, L, V = setup(E, 0)
        E.T = T
        hook(E)
        install(E, 0)
        st.notes['buf'] = Tm("lit:") if mode == 0 and emptybuf else Tm("buffer")
        ext(st, ('o', 'errno'), 4, {0: (4, z3.BitVec("old.errno", 32))})
        ext(st, ('o', 'vtab'), 64, lazy=('fn', lambda s, off, size: 0 if size == 8 else None))
        ext(st, ('o', 'buf'), 1024, lazy=('fn', lambda s, off, size: Ptr(('o', 'vtab'), 24) if size == 8 and off == 0 else None))
        st.objs[G_].cells[goff['yy_start']] = (4, init[mode])
        old = {f.name: st.objs[L].cells[f.off][1] for f in E.lay.fields('HSQL_CUST_LTYPE') if f.kind == 'int'}
        st.objs[fr.obj['yy_act']].cells[0] = (4, T.lextab.eob + mode + 1)
        order, heads = llvm.rpo(fr.F)
        fa = fr.blk['yy_find_action'].id
        outer = max((b for b in heads if fa in heads[b]), key=lambda b: len(heads[b]))
        outs = E.run(fr.F, fr.blk['do_action'], st, fr.env, until={outer})
        rets = [x for x in outs.get('ret', []) if E.sat(x[0])]
        if not rets or len(outs) > 1:
            E.fail(st, "token", "the end of the text does not return a token")
        for s, e, x in rets:
            now = {f.name: s.objs[L].cells[f.off][1] for f in E.lay.fields('HSQL_CUST_LTYPE') if f.kind == 'int'}
            start = s.objs[G_].cells[goff['yy_start']][1]
            E.check(s, "token", simp(bv(start, 32) == init[0]), "the scanner stays within a string at the end of the text")
            if mode == 0:
                E.check(s, "token", simp(bv(x, 32) == 0), "the end of the text is not reported as the end")
                E.check(s, "position", simp(z3.And(bv(now['first_line'], 32) == bv(old['last_line'], 32), bv(now['first_column'], 32) == bv(old['last_column'], 32))), "the position of the end of the text")
            else:
                E.check(s, "token", simp(bv(x, 32) == 257), "an unterminated string is not reported as an invalid token")
                E.check(s, "position", simp(z3.And(bv(now['first_line'], 32) == bv(old['first_line'], 32), bv(now['first_column'], 32) == bv(old['first_column'], 32))), "the position of an unterminated string")
                if emptybuf:
                    E.check(s, "buffer", s.notes['buf'] == Tm("lit:"), "characters of a rejected string stay in the buffer")
            for f in ('total_column', 'string_length'):
                E.check(s, "length", simp(bv(now[f], 32) == bv(old[f], 32)), f"{f} changes at the end of the text")
            for f in ('last_line', 'last_column'):
                E.check(s, "position", simp(bv(now[f], 32) == bv(old[f], 32)), f"{f} changes at the end of the text")
    return run


def verdict(E, s, way, tok, rule, mode, n, fixed, tn, G_, goff, L, V, init, emptybuf, first):
    fs = [f for f in E.lay.fields('HSQL_CUST_LTYPE') if f.kind == 'int']
    loc = {f.name: s.objs[L].cells[f.off][1] for f in fs}
    old = {f.name: z3.BitVec("old." + f.name, 8 * f.size) for f in fs}
    g = s.objs[G_].cells
    end = 1 if rule.endswith('/1') else n

    def eq(kind, a, b, w, msg):
        E.check(s, kind, simp(bv(a, w) == bv(b, w)), msg)
    # the part of the text that is consumed
    cb = g[goff['yy_c_buf_p']][1]
    if not (isinstance(cb, Ptr) and cb.b == TEXT):
        raise Unsupported("the scanner's place in the text")
    eq("text", cb.o, end, 64, f"{rule}: another part of the text than the token is consumed")
    cut = s.notes.get('cut')
    if cut is None:
        raise Unsupported("the byte behind the token")
    eq("text", cut, cb.o, 64, f"{rule}: the byte behind the token")
    eq("text", g[goff['yy_hold_char']][1], E.bytefn(bv(cb.o, 64)), 8, f"{rule}: the byte behind the token is lost")
    # the position
    fold_ = s.notes.get('fold')
    tainted = rule in ('INVALID', 'nul')
    if fold_ is None:
        E.fail(s, "position", f"{rule}: the position is not advanced")
        E.fail(s, "length", f"{rule}: the length is not advanced")
    else:
        if not tainted:
            for f in ('last_line', 'last_column', 'total_column'):
                eq("position", fold_[f], old[f], 32, f"{rule}: {f} does not start at the end of the previous token")
                eq("position", loc[f], z3.BitVec("fold." + f, 32), 32, f"{rule}: {f} behind the token")
            eq("length", fold_['string_length'], old['string_length'], 32, f"{rule}: the length does not start at the end of the previous token")
            eq("length", loc['string_length'], z3.BitVec("fold.string_length", 32), 32, f"{rule}: the length behind the token")
    w1 = ('last_line', 'last_column') if mode == 0 else ('first_line', 'first_column')
    for f, o in zip(('first_line', 'first_column'), w1):
        eq("position", loc[f], old[o], 32, f"{rule}: {f} of the token")
    # mode and buffer
    nxt = init[1] if rule == 'string-open' or mode == 1 and rule in ('quote', 'run') else init[0]
    eq("token", g[goff['yy_start']][1], nxt, 32, f"{rule}: the mode of the scanner")
    buf = s.notes['buf']
    if rule == 'string-open':
        E.check(s, "buffer", buf == Tm("lit:"), f"a string begins with characters in the buffer ({buf!r})")
    elif rule == 'quote':
        E.check(s, "buffer", buf == Tm("cat", Tm("buffer"), Tm("lit:'")), f"a doubled quote adds {buf!r}")
    elif rule == 'run':
        ok = buf.op == "cat" and buf.a[0] == Tm("buffer") and istext(E, s, buf.a[1], 0, n)
        E.check(s, "buffer", ok, f"characters of a string add {buf!r}")
    elif emptybuf:
        E.check(s, "buffer", buf == Tm("lit:"), f"{rule}: the buffer is not empty between tokens")
    # nothing but the value is allocated
    held = s.objs[V].cells.get(0)
    held = held[1].b if held and isinstance(held[1], Ptr) else None
    carries = rule == 'close' or rule.startswith('IDENTIFIER')
    live = [k for k, o in s.objs.items() if o.kind in ('malloc', 'new')]
    E.check(s, "leak", set(live) <= ({held} if carries and way == 'token' else set()), f"{rule}: an allocation that is not the value of the token")
    # the token and its value
    if rule in ('skip', 'string-open', 'quote', 'run'):
        if way != 'next':
            E.fail(s, "token", f"{rule} returns a token")
        return
    if way != 'token':
        E.fail(s, "token", f"{rule} returns no token")
        return
    val = s.objs[V].cells.get(0)
    val = val[1] if val else None
    if rule.startswith('kw ') or rule in tn and rule not in ('INTVAL', 'FLOATVAL'):
        eq("token", tok, tn[rule[3:] if rule.startswith('kw ') else rule], 32, f"{rule}: token number")
    elif rule in ('char', 'char/1'):
        eq("token", tok, z3.ZeroExt(24, E.bytefn(z3.BitVecVal(0, 64))), 32, f"{rule}: token number")
    elif rule in ('INVALID', 'nul'):
        eq("token", tok, 257, 32, f"{rule}: not reported as an invalid token")
    elif rule == 'INTVAL':
        if fixed is not None:
            eq("token", tok, tn[rule], 32, f"{rule}: token number")
            intval(E, s, val, z3.BitVecVal(int(fixed), 64), fixed.decode())
        else:
            i = z3.Bool("inrange")
            E.check(s, "token", simp(bv(tok, 32) == z3.If(i, z3.BitVecVal(tn[rule], 32), z3.BitVecVal(257, 32))), "integers are accepted exactly in the 64-bit range")
            if E.sat(s, i):
                s2 = s.clone()
                s2.pc.append(i)
                intval(E, s2, val, z3.BitVec("num", 64), "the digits")
    elif rule == 'FLOATVAL':
        eq("token", tok, tn[rule], 32, f"{rule}: token number")
        ok = isinstance(val, Tm) and val.op == "atof" and istext(E, s, val.a[0], 0, n)
        E.check(s, "value", ok, f"the value of a numeral is {val!r}")
    elif rule.startswith('IDENTIFIER'):
        eq("token", tok, tn['IDENTIFIER'], 32, f"{rule}: token number")
        a, b = (0, n) if rule.endswith('plain') else (1, simp(bv(n, 64) - 1))
        t = strvalue(E, s, val, rule)
        if t is not None:
            E.check(s, "text value", istext(E, s, t, a, b), f"{rule}: the text is {t!r}")
    elif rule == 'close':
        eq("token", tok, tn['STRING'], 32, f"{rule}: token number")
        t = strvalue(E, s, val, rule)
        if t is not None:
            E.check(s, "buffer", t == Tm("buffer"), f"the value of a string is {t!r}")
    else:
        raise Unsupported("rule " + rule)


def istext(E, s, t, a, b):
    """the term denotes the bytes a..b of the text"""
    if t.op not in ("text", "slice") or t.a[1] is None:
        return False
    return E.valid(s, z3.And(bv(t.a[0], 64) == bv(a, 64), bv(t.a[1], 64) == bv(b, 64)))


def intval(E, s, val, want, what):
    if not (isz(val) or isinstance(val, int) and not isinstance(val, bool)):
        E.fail(s, "value", f"the value of {what} is {val!r}")
        return
    E.check(s, "value", simp(bv(val, 64) == want), f"the value of {what} is {str(val)[:80]}")


def strvalue(E, s, p, rule):
    """content of the string a token carries"""
    if not isinstance(p, Ptr) or p.b is None or p.b not in s.objs:
        E.fail(s, "owned", f"{rule}: the value is {p!r}")
        return None
    o = s.objs[p.b]
    if o.kind != 'malloc' or not sym.veq(p.o, 0):
        E.fail(s, "owned", f"{rule}: the value is not a string of its own")
        return None
    z = o.lazy
    if not z or z[0] != 'content':
        raise Unsupported("content of a token")
    t = z[1]
    if t.op == "open":
        E.fail(s, "text value", f"{rule}: the text is not terminated")
        return None
    if o.cells:
        raise Unsupported("content of a token that was changed")
    return t


KINDS = {"C04": {"token", "text", "loop", "buffer"}, "C05": {"token", "text", "text value", "owned"}, "C06": {"token", "value", "buffer"}, "C13": {"length", "text", "loop"}, "C15": {"position", "text", "loop"},
         "C01": {"leak", "owned"}, "C17": {"buffer"}, "C20": {"token"}}
ALWAYS = {"bounds", "uninit", "null", "live", "free"}


def units(ctx, prop):
    """(name, function of the engine, attributes)"""
    T, G, S = ctx.T, ctx.G, ctx.S
    tab = T.lextab = Tables(T)
    (N, n0), (Q, q0), rules = specification(S)
    init = (1, 3)
    out = []
    kinds = KINDS[prop]
    modes = [Bisim(tab, N, n0, init[0]), Bisim(tab, Q, q0, init[1])]

    def concerns(m, w, acts):
        if prop in ("C05", "C20"):
            return True
        if prop == "C06":
            return m == 1 or w[:1] in [bytes([c]) for c in b"0123456789.-'"]
        # C04: something is skipped that is neither a blank nor a comment
        rules_ = {}
        for (a, r), _ in modes[m].pairs.items():
            rules_.setdefault(a, set()).add(r)
        return any(a not in rules_ or 'skip' in rules_[a] or m == 1 for a in acts)

    def tables(m):
        B = modes[m]
        bad = [x for x in B.bad if concerns(m, x[1], x[2])]

        def run(E):
            k = len(B.path) + len(B.pairs)
            E.obl += k
            E.disch += k - len(bad)
            E.kinds["scanner tables"] = k
            for msg, w, acts in bad[:10]:
                E.fails.append({"kind": "tables", "msg": msg, "where": "flex_lexer.l"})
        return run, [x[1] for x in bad]
    if prop in ("C04", "C05", "C06", "C20"):
        for m, nm in enumerate(("between tokens", "within strings")):
            f, ws = tables(m)
            out.append((f"scanner automaton {nm}", f, {"texts": context(ws, m), "backend": "product of automata"}))
    todo = []
    for m in (0, 1):
        for (a, r), w in sorted(modes[m].pairs.items(), key=lambda x: x[0][0]):
            todo.append((m, a, r, w))
    for m, a, r, w in todo:
        A, i0 = ((N, n0), (Q, q0))[m]
        fixed = None
        first = firsts(A, i0, r, single=r in ('char', 'INVALID'))
        minlen = shortest(A, i0, r)
        if r in ('INTVAL', 'char/1') and w.startswith(b"-"):
            fixed = b"-9223372036854775808" + (b"." if r == 'char/1' else b"")
            first = {45}
        if r == 'INTVAL' and fixed is None:
            first = set(range(48, 58))
        if prop == "C17" and m == 0 and r != 'string-open':
            continue
        if prop == "C06" and not (r in ('INTVAL', 'FLOATVAL', 'char/1', 'quote', 'run', 'close', 'string-open', 'nul') or r == 'char'):
            continue
        texts = context([w], m)
        attrs = {"texts": texts, "backend": "symbolic execution + z3"}
        out.append((f"action of {r} (rule {a})", two(T, G, S, m, a, r, first, minlen, fixed, init, kinds), attrs))
    for m, nm in enumerate(("between tokens", "within a string")):
        if prop not in ("C06", "C17") or m:
            out.append((f"end of the text {nm}", filtered(eof_unit(T, G, m, init, ctx.emptybuf), kinds), {"texts": [b"SELECT 'a", b"SELECT a FROM t WHERE b = 'x''", b"SELECT\n  a FROM", b"SELECT a\n", b"SELECT 'x\n", b"'", b"SELECT (\n"]}))
    return out


def two(T, G, S, m, a, r, first, minlen, fixed, init, kinds):
    def f(E):
        return filtered(action_unit(T, G, a, r, m, S, first, minlen, fixed, None, init, T.emptybuf), kinds)(E)
    return f


def filtered(fn, kinds):
    def run(E):
        x = fn(E)
        E.fails = [f for f in E.fails if f["kind"] in kinds or f["kind"] in ALWAYS]
        return x
    return run


def context(ws, mode):
    """texts around the given beginnings of tokens"""
    out = []
    for w in ws[:20]:
        w2 = [w, w.lower(), w + b"x", w + b"1", w + b" "]
        for x in w2:
            if mode:
                out += [b"SELECT 'a" + x + b"b' FROM t", b"SELECT '" + x + b"' FROM t", b"SELECT '" + x, b"SELECT '" + x + b"' FROM '" + x + b"'", b"SELECT 'abc', '" + x + b"'", b"SELECT '" + x + b"', 'abc' FROM", b"SELECT 'q" + x + b"z' $"]
            else:
                out += [x, b"SELECT " + x + b" FROM t", b"SELECT a" + x + b"b FROM t", b"SELECT a " + x + b" b FROM t", b"SELECT a FROM t " + x, b"SELECT a FROM t;" + x + b"; SELECT b", b"SELECT\n" + x + b"\n$", b"SELECT a FROM t\n " + x + b" )", b"SELECT a FROM t WHERE b = " + x + b" AND c = 1",
                        b"SELECT a,\n" + x + b" 'x\n' ) (", b"SELECT 1;\nSELECT " + x + b";\nSELECT '" + x + b"'; SELECT 2"]
    return out


def firsts(A, i0, rule, single):
    out = set()
    for c in range(256):
        n = A.step(i0, c)
        if single:
            x = A.rule(n)
            if x is not None and x[1] == rule:
                out.add(c)
        elif n:
            # can the rule be reached
            pass
    return out or None


def shortest(A, i0, rule):
    seen, layer, k = {i0}, [i0], 0
    while layer:
        k += 1
        nxt = []
        for s in layer:
            for c in range(256):
                n = A.step(s, c)
                if n and n not in seen:
                    seen.add(n)
                    nxt.append(n)
                    x = A.rule(n)
                    if x is not None and x[1] == rule:
                        return k
        layer = nxt
    return 1


def stage(prop):
    def f(ctx):
        from . import check
        ctx.T.emptybuf = ctx.emptybuf = False
        us = units(ctx, prop)
        rs = check.run_units(ctx, us)
        if any(r.status == 'failed' and any(x["kind"] == "buffer" and "begins with" in x["msg"] for x in r.fails) for r in rs):
            # another invariant: whoever leaves a string empties the buffer
            ctx.T.emptybuf = ctx.emptybuf = True
            rs2 = check.run_units(ctx, units(ctx, prop))
            if sum(r.status != 'proved' for r in rs2) < sum(r.status != 'proved' for r in rs):
                rs = rs2
        return rs
    f.__name__ = "scanner"
    return f
