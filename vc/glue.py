"""Contracts of SQLParser: the text goes to the scanner as a whole, the outcome of the parser is the outcome reported, tokens are passed on."""
import re
import z3
from . import own, sym, result, loops
from .sym import Ptr, Vec, Str, State, Tm, UNDEF, ZERO, NULL, Unsupported, DeadPath, isz, simp, bv, veq

LEX = '_Z8hsql_lexP10HSQL_STYPEP15HSQL_CUST_LTYPEPv'
PARSEFN = '_Z10hsql_parsePN4hsql15SQLParserResultEPv'
SQL = 'text'


class H:
    """contracts of the scanner's interface; the scanner is a ghost object in st.notes['sc']: (live, text given, buffers, parsed)"""

    def __init__(self, E):
        self.E = E
        by = {}
        for n in list(E.M.fn_ref):
            d = E.T.dem.get(n, n)
            m = re.match(r'(?:\w+\*? )?(hsql_\w+)\(', d)
            if m:
                by[m[1]] = n
        E.glue = by
        for nm, h in (('hsql_lex_init', self.init), ('hsql_lex_init_extra', None), ('hsql__scan_bytes', self.bytes), ('hsql__scan_string', self.string), ('hsql__delete_buffer', self.delbuf),
                      ('hsql_lex_destroy', self.destroy), ('hsql_parse', self.parse), ('hsql_lex', self.lex), ('hsql__scan_buffer', None), ('hsql_set_extra', None), ('hsql__flush_buffer', None),
                      ('hsql__switch_to_buffer', None), ('hsql__create_buffer', None), ('hsql_restart', None), ('hsql_set_in', None)):
            if nm in by:
                E.contracts[by[nm]] = h or self.no(nm)
        for nm in ('hsql_lex_init', 'hsql__scan_bytes', 'hsql_lex_destroy', 'hsql_parse', 'hsql_lex'):
            if nm not in by:
                raise Unsupported("no function " + nm)

    def no(self, nm):
        def h(E, st, a, I):
            raise Unsupported(nm + " has no contract here")
        return h

    def sc(self, st, p, what, I):
        E = self.E
        if p is UNDEF:
            E.fail(st, "uninit", f"{what} on a scanner that was not created", I)
            raise DeadPath()
        if not isinstance(p, Ptr) or p.b is None or p.b[0] != 'o' or not str(p.b[1]).startswith('scanner'):
            raise Unsupported(f"{what}: which scanner?")
        if p.b not in st.objs:
            E.fail(st, "dangling", f"{what} on a scanner that was destroyed", I)
            raise DeadPath()
        return p.b

    def init(self, E, st, a, I):
        no = st.clone()
        n = st.notes.get('scanners', 0)
        st.notes['scanners'] = n + 1
        k = st.alloc('scanner', 8, None, f'scanner{n}')
        st.notes[('sc', k)] = (None, (), 0)
        E.store(st, a[0], 8, Ptr(k), I)
        E.store(no, a[0], 8, Ptr(None, 0), I)
        no.notes['unable'] = True
        return [(st, 0), (no, 1)]

    def scan(self, E, st, p, text, I):
        k = self.sc(st, p, "scanning", I)
        old, bufs, used = st.notes[('sc', k)]
        b = st.alloc('buffer', 8, None, f'buffer{len(bufs)}:{k[1]}')
        st.notes[('sc', k)] = (text, bufs + (b,), used)
        return [(st, Ptr(b))]

    def bytes(self, E, st, a, I):
        from .models import content, use_str
        use_str(E, st, a[0], I, "scanning")
        c = content(E, st, a[0])
        full = c == Tm("str:" + SQL)
        if c == Tm("cstr", Tm("str:" + SQL)):
            E.fail(st, "whole text", "the scan stops at the first zero byte of the text", I)
            return self.scan(E, st, a[2], 'all', I)
        n = st.notes['textlen']
        same = simp(bv(a[1], 32) == z3.Extract(31, 0, n))
        if not full and (c.op != 'sub' or c.a[0] != Tm("str:" + SQL)):
            raise Unsupported(f"the text that is scanned: {c}")
        E.check(st, "whole text", full, "the scan starts at the first byte of the text", I)
        E.check(st, "whole text", same, "the scan ends with the last byte of the text", I)
        return self.scan(E, st, a[2], 'all', I)

    def string(self, E, st, a, I):
        from .models import content, use_str
        use_str(E, st, a[0], I, "scanning")
        if not st.notes.get('zeroterminated'):
            E.fail(st, "whole text", "the scan stops at the first zero byte of the text", I)
        elif content(E, st, a[0]) != Tm("str:" + SQL):
            raise Unsupported("the text that is scanned")
        return self.scan(E, st, a[1], 'all', I)

    def delbuf(self, E, st, a, I):
        p = a[0]
        k = self.sc(st, a[1], "deleting a buffer", I)
        if isinstance(p, Ptr) and p.b is None:
            return [(st, None)]
        if p is UNDEF:
            E.fail(st, "uninit", "deletion of an indeterminate buffer", I)
            raise DeadPath()
        if not isinstance(p, Ptr) or p.b[0] != 'o' or not str(p.b[1]).startswith('buffer'):
            raise Unsupported("which buffer?")
        if p.b not in st.objs:
            E.fail(st, "double-free", "a scanner buffer is deleted twice", I)
            raise DeadPath()
        del st.objs[p.b]
        t, bufs, used = st.notes[('sc', k)]
        st.notes[('sc', k)] = (None if used == 0 else t, tuple(b for b in bufs if b != p.b), used)
        return [(st, None)]

    def destroy(self, E, st, a, I):
        k = self.sc(st, a[0], "destruction", I)
        for b in st.notes[('sc', k)][1]:
            st.objs.pop(b, None)
        del st.objs[k]
        return [(st, 0)]

    # ---- the parser: what the skeleton and reduction units establish for it
    def parse(self, E, st, a, I):
        k = self.sc(st, a[1], "parsing", I)
        t, bufs, used = st.notes[('sc', k)]
        E.check(st, "whole text", t == 'all', "the parser reads the text", I)
        E.check(st, "whole text", used == 0, "the text is parsed once", I)
        st.notes[('sc', k)] = (t, bufs, used + 1)
        r = a[0]
        if r != Ptr(st.notes['result']):
            raise Unsupported("the parse fills another object")
        o = result.observe(E, st, r.b)
        E.check(st, "outcome", same(E, st, o['size'], 0, 'size') and result.same(E, st, o['msg'], Ptr(None, 0), 'ptr'), "the parser starts with an empty result", I)
        ret = z3.BitVec('ret', 32)
        st.pc.append(z3.ULE(ret, 2))
        for f in E.lay.fields(result.C):
            if f.own:
                st.own.pop('r.' + f.name, None)
            if f.kind == 'vec':
                st.osl.pop('r.' + f.name, None)
        del st.objs[r.b]
        n = result.make(E, st, 'after')
        st.objs[r.b] = st.objs.pop(n)
        st.notes['ret'] = ret
        st.notes['after'] = result.observe(E, st, r.b)
        return [(st, ret)]

    # ---- the scanner
    def lex(self, E, st, a, I):
        k = self.sc(st, a[2], "scanning", I)
        t, bufs, used = st.notes[('sc', k)]
        E.check(st, "tokens", t == 'all', "the scanner reads the text", I)
        st.notes[('sc', k)] = (t, bufs, 1)
        if not isinstance(a[1], Ptr) or not isinstance(a[0], Ptr):
            E.fail(st, "null", "the scanner needs a location and a value", I)
            raise DeadPath()
        for f in E.lay.fields('HSQL_CUST_LTYPE'):
            if f.kind == 'int':
                v = E.load(st, Ptr(a[1].b, E_add(a[1].o, f.off)), f.size, None, I)
                if v is UNDEF:
                    E.fail(st, "uninit", f"the scanner counts from an indeterminate {f.name}", I)
                E.store(st, Ptr(a[1].b, E_add(a[1].o, f.off)), f.size, E_fresh(f.size * 8), I)
        K = st.notes['k']
        m = z3.BitVec('m', 64)
        if not E.valid(st, z3.ULE(K, m)):
            raise Unsupported("the scanner is called behind the end of the text")
        R = TOK(K)
        st.notes['k'] = simp(K + 1)
        st.pc += [(R == 0) == (K == m), z3.ULE(R, E.maxtok)]
        out = []
        s2 = st.clone()
        s2.pc.append(z3.Or(*[R == c for c in E.strtoks]))
        if E.sat(s2):
            nm = svname(E, K)
            s2.own[nm] = 'char'
            E.assume(s2, z3.Not(E.nullv(nm)))
            E.store(s2, a[0], 8, Ptr(('s', nm)), I)
            out.append((s2, R))
        st.pc.append(z3.And(*[R != c for c in E.strtoks]))
        if E.sat(st):
            key, off = E.key(st, a[0], I, "write")
            E.clear(st.w(key), off, 8)
            st.objs[key].cells[off] = (8, UNDEF)
            out.append((st, R))
        return out


same = result.same
DBG = 0
TOK = z3.Function('token', z3.BitVecSort(64), z3.BitVecSort(32))
_f = [0]


def E_add(a, b):
    return a + b if isinstance(a, int) else simp(bv(a, 64) + b)


def E_fresh(w):
    _f[0] += 1
    return z3.BitVec(f"hv{_f[0]}", w)


def svname(E, K):
    nm = f"sval@{simp(K)}"
    E.svals[nm] = K
    return nm


def text_object(E, st):
    k = ('o', 'sql')
    E.binary = {"str:" + SQL}      # may contain null characters
    o = sym.Obj()
    o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = 'ext', 32, None, {0: (32, Str(Tm("str:" + SQL)))}, None, st.sid, True, True
    st.objs[k] = o
    n = z3.BitVec("size:" + repr(Tm("str:" + SQL)), 64)
    st.pc.append(z3.ULT(n, z3.BitVecVal(1 << 31, 64)))
    st.notes['textlen'] = n
    return Ptr(k)


def finish_scanners(E, s, what):
    left = [k for k, o in s.objs.items() if o.kind in ('scanner', 'buffer')]
    E.check(s, "leak", not left, f"{what}: the scanner and its buffer are released")


def gone(E, s, v, what):
    if s.notes.get('unable'):
        return True
    return False


def run_parse(E, st, name, args, k):
    E.inlined.add(name)
    n = 0
    for s, v in E.call_fn(st, name, args, None):
        if not E.sat(s):
            continue
        n += 1
        finish_scanners(E, s, "parse")
        if s.notes.get('unable'):
            continue
        result.owned_by(E, s, k, "parse")
        own.noleak(E, s, "parse", ignore=[k])
        r = sym.tobool(v) if v is not UNDEF else UNDEF
        E.check(s, "outcome", r is True or isz(r) and E.valid(s, r), f"parse returns {v}, expected true")
        if 'ret' not in s.notes:
            E.fail(s, "outcome", "the text is not parsed")
            continue
        result_expect(E, s, k, {**s.notes['after'], 'valid': simp(s.notes['ret'] == 0)})
    if not n:
        E.fail(st, "outcome", "parse does not return")


def result_expect(E, s, k, want):
    got = result.observe(E, s, k)
    for nm, sig, kind in result.OBS:
        E.check(s, {'line': "position", 'column': "position", 'parameters': "parameters"}.get(nm, "outcome"), same(E, s, got[nm], want[nm], kind), f"after the parse: {sig} is {result.show(got[nm])}, expected {result.show(want[nm])}")


def fresh_result(E, st):
    k = result.make(E, st, 'r')
    o = st.objs[k]
    for f in E.lay.fields(result.C):
        if f.own:
            E.assume(st, E.nullv('r.' + f.name))
        if f.kind == 'vec':
            st.pc.append(E.veclen(st, 'r.' + f.name) == 0)
    st.notes['result'] = k
    return k


def u_parse(which):
    def run(E):
        H(E)
        st = State()
        k = fresh_result(E, st)
        if which == 'char':
            name = E.T.undem.get('hsql::SQLParser::parseSQLString(char const*, hsql::SQLParserResult*)')
            st.borrow[SQL] = 'char'
            E.assume(st, z3.Not(E.nullv(SQL)))
            n = z3.BitVec("size:" + repr(Tm("str:" + SQL)), 64)
            st.pc.append(z3.ULT(n, z3.BitVecVal(1 << 31, 64)))
            st.notes['textlen'] = n
            st.notes['zeroterminated'] = True
            p = Ptr(('s', SQL))
        else:
            name = E.T.undem.get(f'hsql::SQLParser::{which}(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&, hsql::SQLParserResult*)')
            p = text_object(E, st)
        if name is None or not E.M.defined(name):
            raise Unsupported("no function " + which)
        run_parse(E, st, name, [p, Ptr(k)], k)
    return run


# ------------------------------------------------------------------ tokenize

VS = 'std::vector<short, std::allocator<short> >::'


def short_vector(E, name):
    """the list of tokens: notes['p'] tokens of the text have been appended behind its previous content"""
    d = E.dem.get(name, name)
    i = d.find(VS)
    if i < 0 or d.startswith('__gnu_cxx'):
        return None
    meth = re.match(r'(~?\w+|operator\S+?)(?:<.*?>)?\(', d[i + len(VS):])
    meth = meth[1] if meth else d

    def mine(st, p):
        if p != Ptr(('o', 'tokens')):
            raise Unsupported("another list of tokens")
        return st
    if meth in ('push_back', 'emplace_back'):
        def h(E, st, a, I):
            mine(st, a[0])
            v = a[1]
            if isinstance(v, Ptr):
                from .models import _I32
                key, off = E.key(st, v, I, "read")
                c = st.objs[key].cells.get(off)
                size = 2 if c is None else c[0]
                v = c[1] if c is not None else UNDEF
            if v is UNDEF:
                E.fail(st, "uninit", "an indeterminate token is listed", I)
                raise DeadPath()
            K, P = st.notes['k'], st.notes['p']
            E.check(st, "tokens", E.valid(st, z3.ULT(P, z3.BitVec('m', 64))), "a token behind the last one is listed", I)
            w = bv(v, 16)
            if isz(v) and v.size() > 16:
                w = z3.Extract(15, 0, v)
            E.check(st, "tokens", simp(w == z3.Extract(15, 0, TOK(P))), "the next token of the text is listed", I)
            st.notes['p'] = simp(P + 1)
            return [(st, None if meth == 'push_back' else Ptr(('o', 'tokens-element')))]
        return h
    if meth == 'size':
        def h(E, st, a, I):
            mine(st, a[0])
            return [(st, simp(z3.BitVec('previous', 64) + st.notes['p']))]
        return h
    if meth == 'empty':
        def h(E, st, a, I):
            mine(st, a[0])
            return [(st, simp(z3.BitVec('previous', 64) + st.notes['p'] == 0))]
        return h
    if meth in ('capacity', 'max_size'):
        def h(E, st, a, I):
            mine(st, a[0])
            E.fresh_no = getattr(E, 'fresh_no', 0) + 1
            r = z3.BitVec(f"{meth}:{E.fresh_no}", 64)
            st.pc.append(z3.UGE(r, z3.BitVec('previous', 64) + st.notes['p']))
            return [(st, r)]
        return h
    if meth == 'pop_back':
        def h(E, st, a, I):
            mine(st, a[0])
            P = st.notes['p']
            E.check(st, "tokens", E.valid(st, z3.UGE(bv(P, 64), 1)), "a token of the previous content is dropped", I)
            st.notes['p'] = simp(bv(P, 64) - 1)
            return [(st, None)]
        return h
    if meth == 'back':
        def h(E, st, a, I):
            mine(st, a[0])
            E.check(st, "bounds", simp(z3.BitVec('previous', 64) + st.notes['p'] != 0), "back() of a possibly empty list", I)
            P = bv(st.notes['p'], 64)
            k = ('o', 'tokens-element')
            if k not in st.objs:
                st.alloc('tokenelement', 2, 'short', 'tokens-element')
            o = st.w(k)
            o.cells[0] = (2, simp(z3.If(P == 0, z3.BitVec('previous.last', 16), z3.Extract(15, 0, TOK(P - 1)))))
            return [(st, Ptr(k))]
        return h
    if meth in ('reserve', 'shrink_to_fit'):
        def h(E, st, a, I):
            mine(st, a[0])
            return [(st, None)]
        return h
    if meth == 'clear':
        def h(E, st, a, I):
            mine(st, a[0])
            E.fail(st, "tokens", "the previous content of the list is dropped", I)
            return [(st, None)]
        return h

    def h(E, st, a, I):
        raise Unsupported("method of the list of tokens: " + d[:100])
    return h


def normal(st):
    """pointers to released texts are indeterminate"""
    for k, o in list(st.objs.items()):
        for off, (n, v) in list(o.cells.items()):
            if isinstance(v, Ptr) and v.b and v.b[0] == 's' and v.b[1].startswith('sval@') and v.b[1] not in st.own and v.b[1] not in st.mat:
                st.w(k).cells[off] = (n, UNDEF)


def shift(E, v, K, d):
    """the value with K replaced by K + d"""
    to = simp(K + d) if d else K

    def f(kind, x):
        if kind == 'z':
            return simp(z3.substitute(x, (K, to)))
        if x.startswith('sval@'):
            return svname(E, simp(z3.substitute(E.svals[x], (K, to))))
        return x
    if v is UNDEF or v is ZERO:
        return v
    return loops.vmap(v, f)


class Tpl:
    def __init__(self, st, env):
        self.st, self.env, self.havoc = st, env, set()


def stream_loop(E, F, Hd, body, st, env):
    """Loop over the tokens. The state at its head after any number of rounds is one of finitely many templates in the number of tokens read."""
    if not st.notes.get('stream'):
        return loops.run_loop(E, F, Hd, body, st, env)
    normal(st)
    st0, env0 = st.clone(), dict(env)
    with loops.Trial(E) as T:
        try:
            return by_templates(E, F, Hd, body, st, env, E.K)
        except Unsupported as x:
            T.rollback()
            why = str(x)
    # the first rounds as they are: what fails there fails
    E.incomplete = why
    outs, cur = {}, [(st0, env0)]
    for n in range(3):
        nxt = []
        for s, e in cur:
            r = E.run(F, Hd, s, e, body=body)
            for b, e2, pred in r.pop(Hd.id, []):
                normal(b)
                nxt.append((b, loops.phis(E, F, Hd, e2, pred)))
            for kk, lst in r.items():
                outs.setdefault(kk, []).extend(lst)
        cur = nxt[:8]
    return outs


def by_templates(E, F, Hd, body, st, env, K):
    tpls = [Tpl(st.clone(), dict(env))]
    done = 0
    outs = {}
    i = 0
    rounds = 0
    while i < len(tpls):
        rounds += 1
        if rounds > 14 or len(tpls) > 6:
            raise Unsupported("no invariant for the loop over the tokens")
        t = tpls[i]
        with loops.Trial(E) as T:
            s = t.st.clone()
            hv(E, s, t)
            r = E.run(F, Hd, s, dict(t.env), body=body)
            back = [(b, loops.phis(E, F, Hd, e, pred)) for b, e, pred in r.pop(Hd.id, [])]
            if DBG:
                print('TPL', i, len(tpls), t.havoc, t.st.own, [ (k,{o:c[1] for o,c in ob.cells.items()}) for k,ob in t.st.objs.items() if ob.cells], t.st.notes, t.st.pc[-12:], E.fails[-2:], len(back))
            again = False
            for b, e in back:
                normal(b)
                hit = None
                for u in tpls:
                    x = match(E, b, e, u, K)
                    if x is True:
                        hit = u
                        break
                if hit is None:
                    # weaken a template, or add one
                    best = None
                    for u in tpls:
                        x = match(E, b, e, u, K, collect=True)
                        if x is not None and x and len(x) <= 4 and (best is None or len(x) < len(best[1])):
                            best = (u, x)
                    if best is not None and all(weakenable(best[0], p) for p in best[1]):
                        best[0].havoc |= set(best[1])
                    else:
                        tpls.append(unshift(E, b, e, K))
                    again = True
            if again:
                T.rollback()
                i = 0
                outs = {}
                continue
            for kk, lst in r.items():
                outs.setdefault(kk, []).extend(lst)
        i += 1
    return outs


def weakenable(u, p):
    if p[0] != 'cell':
        return False
    n, v = u.st.objs[p[1]].cells[p[2]]
    return isinstance(v, (int, bool)) or isz(v) or v is UNDEF


def hv(E, s, t):
    for p in t.havoc:
        n, v = s.objs[p[1]].cells[p[2]]
        s.w(p[1]).cells[p[2]] = (n, E_fresh(8 * n))


def unshift(E, b, e, K):
    s = b.clone()
    m1 = 0xffffffffffffffff
    for k, o in list(s.objs.items()):
        w = s.w(k)
        w.cells = {off: (n, shift(E, v, K, m1)) for off, (n, v) in o.cells.items()}
    env = {k: (v if k == 'allocas' else shift(E, v, K, m1)) for k, v in e.items()}
    s.own = {E and (svname(E, simp(z3.substitute(E.svals[k], (K, K + m1)))) if k.startswith('sval@') else k): v for k, v in b.own.items()}
    before = simp(K + m1)
    m = z3.BitVec('m', 64)
    pc = []
    cands = [z3.ULT(m, 1 << 40), z3.ULT(b.notes['textlen'], z3.BitVecVal(1 << 31, 64))]
    for d in (0, 1):
        k = simp(K + d) if d else K
        R = TOK(k)
        cands += [z3.ULE(k, m), (R == 0) == (k == m), z3.ULE(R, E.maxtok), z3.Or(*[R == c for c in E.strtoks]), z3.And(*[R != c for c in E.strtoks]), z3.Not(E.nullv(f"sval@{simp(k)}"))]
    for f in cands:
        g = z3.substitute(f, (K, K + 1))
        nv = [x for x in (f"sval@{simp(K)}", f"sval@{simp(K + 1)}") if str(f) == f"Not(null:{x})"]
        if nv:
            g = z3.Not(E.nullv("sval@" + str(simp(K + 1 if nv[0] == "sval@K" else K + 2))))
        if E.valid(b, simp(g)):
            pc.append(f)
    s.pc = pc
    for nm in ('k', 'p'):
        s.notes[nm] = simp(z3.substitute(bv(s.notes[nm], 64), (K, before)))
    return Tpl(s, env)


def match(E, b, e, u, K, collect=False):
    """is the state an instance of the template with K + 1? collect: the places that differ, None when the shapes differ"""
    bad = []
    t = u.st
    for nm in ('k', 'p'):
        if not E.valid(b, simp(bv(b.notes[nm], 64) == z3.substitute(bv(t.notes[nm], 64), (K, K + 1)))):
            return None
    if b.notes.get('unable') != t.notes.get('unable'):
        return None
    for key in b.notes:
        if isinstance(key, tuple) and key[0] == 'sc':
            if b.notes[key][:2] != t.notes.get(key, (0, 0))[:2]:
                return None
    own_ = {svname(E, simp(z3.substitute(E.svals[k], (K, K + 1)))) if k.startswith('sval@') else k for k in t.own}
    if own_ != set(b.own) or t.osl.keys() != b.osl.keys():
        return None
    for i, v in u.env.items():
        if i != 'allocas' and not veqv(E, b, e.get(i), shift(E, v, K, 1)):
            return None
    ks = {k for k in t.objs if t.objs[k].kind != 'global'}
    if ks != {k for k in b.objs if b.objs[k].kind != 'global'}:
        return None
    for k in ks:
        x, y = t.objs[k].cells, b.objs[k].cells
        for off in set(x) | set(y):
            if ('cell', k, off) in u.havoc:
                continue
            c, d = x.get(off), y.get(off)
            if c is not None and c[1] is UNDEF:
                continue            # weaker
            if c is None or d is None or c[0] != d[0]:
                if c is None and d is not None:
                    continue        # not known at the head
                return None
            if isz(c[1]) and z3.is_const(c[1]) and str(c[1]).startswith('hv') and isz(d[1]):
                continue
            if not veqv(E, b, d[1], shift(E, c[1], K, 1)):
                bad.append(('cell', k, off))
    for p in t.pc:
        if isz(p):
            q = z3.substitute(p, (K, K + 1))
            x = re.match(r'Not\(null:(sval@.*)\)$', str(p))
            if x and x[1] in E.svals:
                q = z3.Not(E.nullv(svname(E, simp(z3.substitute(E.svals[x[1]], (K, K + 1))))))
            q = simp(q)
            if q is not True and not E.valid(b, q):
                return None
    if collect:
        return bad
    return True if not bad else None


def veqv(E, b, x, y):
    if x is UNDEF or y is UNDEF:
        return x is y
    if isz(x) or isz(y):
        return loops.num_eq(E, b, x, y)
    return veq(x, y)


def u_tokenize(E):
    from .grammar import symfields
    H(E)
    G = E.G
    name = next((n for d, n in E.T.undem.items() if d.startswith('hsql::SQLParser::tokenize(') and E.M.defined(n)), None)
    if name is None:
        raise Unsupported("no function tokenize")
    E.svals = {}
    E.models.insert(0, short_vector)
    E.maxtok = max([k for _, k, *_ in G.terms] + [300])
    E.strtoks = [k for _, k, n, *_ in G.terms if any(f.own for f in symfields(E.T, G, n))]
    if not E.strtoks:
        raise Unsupported("tokens with texts")
    E.K = K = z3.BitVec('K', 64)
    m = z3.BitVec('m', 64)
    st = State()
    st.pc += [z3.ULE(K, m), z3.ULT(m, 1 << 40)]
    st.notes.update(k=K, p=K, stream=True)
    o = sym.Obj()
    o.kind, o.size, o.cls, o.cells, o.lazy, o.sid, o.dirty, o.ro = 'ext', 24, None, {}, None, st.sid, True, False
    st.objs[('o', 'tokens')] = o
    p = text_object(E, st)
    E.loop_hook = stream_loop
    E.inlined.add(name)
    n = 0
    for s, v in E.call_fn(st, name, [p, Ptr(('o', 'tokens'))], None):
        if not E.sat(s):
            continue
        n += 1
        finish_scanners(E, s, "tokenize")
        if s.notes.get('unable'):
            continue
        own.noleak(E, s, "tokenize", ignore=[('o', 'tokens')])
        r = sym.tobool(v) if v is not UNDEF else UNDEF
        E.check(s, "tokens", r is True or isz(r) and E.valid(s, r), f"tokenize returns {v}, expected true")
        E.check(s, "tokens", simp(s.notes['p'] == m), "all tokens of the text are listed")
    if getattr(E, 'incomplete', None):
        if not E.fails:
            raise Unsupported(E.incomplete)
    elif not n:
        E.fail(st, "tokens", "tokenize does not return")


def u_yyerror(E):
    """yyerror(location, result, scanner, text): the error is reported with a copy of the text at the start of the location"""
    name = next((n for d, n in E.T.undem.items() if re.match(r'(?:hsql_|yy)error\(', d) and E.M.defined(n)), None)
    if name is None:
        raise Unsupported("no function yyerror")
    st = State()
    k = result.make(E, st, 'r')
    o = result.observe(E, st, k)
    st.borrow['msg'] = 'char'
    E.assume(st, z3.Not(E.nullv('msg')))
    lk = ('o', 'loc')
    x = sym.Obj()
    x.kind, x.size, x.cls, x.cells, x.lazy, x.sid, x.dirty, x.ro = 'ext', E.lay.cls['HSQL_CUST_LTYPE'].size, None, {}, None, st.sid, True, True
    st.objs[lk] = x
    from . import units
    units.loc(E, st, lk, 0, "loc")
    E.inlined.add(name)
    from .models import content
    n = 0
    for s, v in E.call_fn(st, name, [Ptr(lk), Ptr(k), Ptr(('s', 'scanner')), Ptr(('s', 'msg'))], None):
        n += 1
        got = result.observe(E, s, k)
        E.check(s, "outcome", same(E, s, got['valid'], 0, 'bool'), "an error makes the result invalid")
        E.check(s, "position", same(E, s, got['line'], z3.BitVec('loc.first_line', 32), 'int'), f"the line of an error is {got['line']}, expected that of the start of its location")
        E.check(s, "position", same(E, s, got['column'], z3.BitVec('loc.first_column', 32), 'int'), f"the column of an error is {got['column']}, expected that of the start of its location")
        m = got['msg']
        okm = isinstance(m, Ptr) and m.b is not None and E.valid(s, z3.Not(E.isnull(s, m)) if isz(E.isnull(s, m)) else not E.isnull(s, m))
        E.check(s, "outcome", okm, "an error has a message")
        if okm:
            E.check(s, "outcome", content(E, s, m) == Tm("str:msg"), f"the message is {content(E, s, m)}")
        for nm in ('statements', 'parameters', 'size'):
            E.check(s, "outcome", same(E, s, got[nm], o[nm], dict((a, c) for a, b, c in result.OBS)[nm]), f"an error changes the {nm}")
        result.owned_by(E, s, k, "yyerror")
        own.noleak(E, s, "yyerror", ignore=[k, lk])
    if not n:
        E.fail(st, "outcome", "yyerror does not return")


PARSES = [("parse", u_parse('parse')), ("parseSQLString(string)", u_parse('parseSQLString')), ("parseSQLString(char*)", u_parse('char'))]
UNITS = {"C01": PARSES + [("tokenize", u_tokenize), ("yyerror", u_yyerror)], "C03": PARSES + [("yyerror", u_yyerror)], "C04": PARSES, "C20": PARSES, "C15": PARSES + [("yyerror", u_yyerror)], "C12": PARSES, "frame": PARSES, "C18": [("tokenize", u_tokenize)]}
KINDS = {"C01": {"leak", "double-free", "dangling", "ownership", "dealloc"}, "C03": {"outcome", "position", "parameters"}, "C12": {"parameters", "frame"}, "frame": {"frame"}, "C04": {"whole text"}, "C20": {"outcome", "whole text"}, "C15": {"position"}, "C18": {"tokens", "whole text"}}
ALWAYS = {"bounds", "uninit", "null", "dangling", "double-free", "dealloc"}


def unit(ctx, f, kinds):
    def run(E):
        E.G = ctx.G
        if "frame" in kinds:
            E.frozen = result.FROZEN
        x = f(E)
        E.fails = [y for y in E.fails if y["kind"] in kinds or y["kind"] in ALWAYS]
        if getattr(E, 'incomplete', None) and not E.fails:
            raise Unsupported(E.incomplete)
        return x
    return run


TEXTS = [b"SELECT 1", b"SELECT a FROM t WHERE b = 'c\0d' AND e", b"SELECT 1; SELECT 2;", b"SELECT 'x\0y'", b"SELECT a FROM t $", b"", b" ", b"SELECT", b"SELECT \"a\" FROM b; DELETE FROM c", b"a 'b' \"c\" 1 2.5 ; $ d", b"\0", b"SELECT a\0",
         b"SELECT a FROM t\0; x", b"foo 'bar' 'baz", b"SELECT\n\n  FROM t"]


def stage(prop):
    def run(ctx):
        from . import check
        return check.run_units(ctx, [("interface: " + n, unit(ctx, f, KINDS[prop]), {"texts": TEXTS}) for n, f in UNITS[prop]])
    run.__name__ = "glue"
    return run
