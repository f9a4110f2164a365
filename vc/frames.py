"""C17: nothing outlives a parse.  Every function is held to one frame contract: it writes no variable with static storage
duration (only its own locals and what its arguments reach), and what it computes comes from its arguments and from
variables that never change after start-up.  Function-local statics may be initialized on first use, by an expression that
does not mention the call.  The contract is checked function by function over the compiled program; the argument that a
pointer obtained from memory never leads to such a variable is the obligation that no function stores its address."""
import re
from .units import Result

CONSOLE = re.compile(r"^(_ZSt4cout|_ZSt4cerr|_ZSt4clog|_ZSt3cin|stdin|stdout|stderr|__dso_handle|environ)$")
STARTUP = re.compile(r"^(_GLOBAL__|__cxx_global_var_init|__tls_init|_ZTH|_ZTW)")
LOCKS = re.compile(r"\b(lock_guard|unique_lock|scoped_lock|pthread_mutex_lock|call_once|mutex::lock)\b")
# functions with hidden state or whose result is not determined by their arguments
HIDDEN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "mrand48", "erand48", "strtok", "localtime", "gmtime", "asctime", "ctime", "tmpnam", "tempnam", "setlocale", "setenv", "putenv", "unsetenv", "ecvt", "fcvt", "strerror", "rand_r"}
UNDET = {"time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "getpid", "gettid", "pthread_self", "random_r", "getrandom", "times", "arc4random", "localeconv", "nl_langinfo", "mallinfo", "rdtsc"}
UNDETCPP = re.compile(r"random_device|chrono::.*::now\(|this_thread::get_id|std::locale::global|hash<std::thread")
# C functions that read through their pointers only / write through the listed ones
READS = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "memchr", "strchr", "strrchr", "strstr", "atoi", "atol", "atoll", "atof", "strdup", "strndup", "puts", "printf", "strspn", "strcspn", "fputs", "fwrite", "putchar", "bcmp", "tolower", "toupper", "exit", "abort", "__assert_fail"}
WRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "sprintf": [0], "snprintf": [0], "free": [0], "realloc": [0], "strtol": [1], "strtoll": [1], "strtoul": [1], "strtoull": [1], "strtod": [1], "strtof": [1],
          "sscanf": "2+", "fprintf": [], "vfprintf": [], "fflush": [], "fputc": [], "fread": [0], "getc": [], "clearerr": [], "ferror": [], "fileno": [], "isatty": [], "malloc": [], "calloc": [], "qsort": [0]}
BENIGN = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "front", "back", "data", "c_str", "size", "empty", "operator*", "operator->", "lower_bound", "upper_bound", "count", "equal_range", "get", "str", "length", "base", "operator!", "good", "fail", "operator bool"}
MUTATORS = {"push_back", "emplace_back", "pop_back", "push_front", "emplace_front", "pop_front", "push", "pop", "emplace", "insert", "insert_or_assign", "try_emplace", "erase", "clear", "resize", "reserve", "assign", "append", "operator=", "operator+=", "operator++", "operator--", "operator<<", "operator>>", "swap", "replace",
            "reset", "release", "write", "put", "setf", "width", "precision", "fill", "shrink_to_fit", "merge", "extract", "splice", "sort", "remove", "unique"}
ASSOC = re.compile(r"std::(__cxx11::)?(unordered_)?map<")


def split(d):
    """(qualified name, parameter types, const) of a demangled function"""
    const = d.endswith(" const")
    s = d[:-6] if const else d
    s = re.sub(r"\[abi:\w+\]", "", s)
    if not s.endswith(")"):
        return s, None, const
    k, i = 0, len(s)
    while i:
        i -= 1
        k += {")": 1, "(": -1}.get(s[i], 0)
        if k == 0:
            break
    inner, name = s[i + 1:-1], s[:i]
    ps, k, cur = [], 0, ""
    for ch in inner:
        if ch in "<([{":
            k += 1
        elif ch in ">)]}":
            k -= 1
        if ch == "," and k == 0:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        ps.append(cur.strip())
    return name, ps, const


def last(name):
    """the function's own name, without template arguments and scopes"""
    m = re.search(r"operator\s*(\(\)|\[\]|->|<<=?|>>=?|[-+*/%^&|~!=<>]=?|&&|\|\||\+\+|--|==|bool)(\s*<.*)?$", name)
    if m:
        op = "operator" + (" bool" if m.group(1) == "bool" else m.group(1))
        return op
    s, k = "", 0
    for ch in reversed(name):
        if ch == ">":
            k += 1
        elif ch == "<":
            k -= 1
        elif k == 0:
            if ch == ":" and s:
                break
            s = ch + s
            if ch == " ":
                s = s.strip()
                if s:
                    break
    return s.strip()


def isstd(d):
    n = split(d)[0]
    n = re.sub(r"^(.*\s)?(?=\S+$)", "", n) if " " in n and "<" not in n.split(" ")[0] else n
    return bool(re.match(r"^(void |bool |.*[&*] |.*> )?(std::|__gnu_cxx::|operator new|operator delete|__cxx|__gthread)", d))


class Frames:
    def __init__(self, T):
        self.T, self.M = T, T.M
        self.fns = [n for n in T.M.fn_ref if T.M.defined(n) and not STARTUP.match(n) and not isstd(T.dem.get(n, n)) and n not in T.M.alias]
        self.glob = {}
        self.param, self.ret, self.escaped = {}, {}, {}
        self.written, self.res = {}, {}
        self.called = {}

    def mutable(self, g):
        if g not in self.glob:
            ty, init, const, tls = self.M.glob(g)
            self.glob[g] = not const and not CONSOLE.match(g) and not g.startswith(("_ZTV", "_ZTI", "_ZTS", "_ZTT", "llvm.", ".str", "_ZGV"))
        return self.glob[g]

    def roots(self, v):
        if v.k == 'glob':
            return {v.v} if self.mutable(v.v) else set()
        if v.k in ('expr', 'agg') and v.ops:
            return set().union(*[self.roots(o) for o in v.ops])
        return set()

    def run(self):
        ch, n = True, 0
        while ch and n < 20:
            ch, n = False, n + 1
            for f in self.fns:
                before = (self.ret.get(f, frozenset()), sum(map(len, self.param.values())))
                self.res[f] = Fn(self, f)
                if before != (self.ret.get(f, frozenset()), sum(map(len, self.param.values()))):
                    ch = True
        return self


class Fn:
    """events of one function"""

    def __init__(self, A, name):
        self.A, self.name = A, name
        M = A.M
        self.F = F = M.fn(name)
        self.fails, self.und, self.checks = [], [], 0
        self.taint, self.held = {}, {}
        self.alloca = set()
        self.errno = set()
        for i in range(F.nargs):
            self.taint[i] = set(A.param.get((name, i), ()))
        self.statics()
        ch = True
        while ch:
            ch = False
            for B in F.blocks:
                for I in B.insts:
                    ch |= self.flow(I)
        self.locked = False
        for B in F.blocks:
            for I in B.insts:
                if I.op in ('call', 'invoke') and I.x.k == 'func' and LOCKS.search(A.T.dem.get(I.x.v, I.x.v)):
                    self.locked = True
        for B in F.blocks:
            for I in B.insts:
                self.check(I)
        self.errnos()

    # --- first-use initialization of local statics
    def statics(self):
        F = self.F
        self.init = {}
        loads = {}
        for B in F.blocks:
            for I in B.insts:
                if I.op == 'load' and I.ops[0].k == 'glob' and I.ops[0].v.startswith('_ZGV'):
                    loads[I.id] = I.ops[0].v
        icmps = {}
        for B in F.blocks:
            for I in B.insts:
                if I.op == 'icmp' and I.ops[0].k == 'local' and I.ops[0].v in loads:
                    icmps[I.id] = (loads[I.ops[0].v], I.x)
        self.region = {}
        for B in F.blocks:
            t = B.insts[-1] if B.insts else None
            if t is None or t.op != 'br' or not t.ops or t.ops[0].k != 'local' or t.ops[0].v not in icmps:
                continue
            g, p = icmps[t.ops[0].v]
            go, end = (t.x[0], t.x[1]) if p == 'eq' else (t.x[1], t.x[0])
            seen, todo = set(), [go]
            while todo:
                b = todo.pop()
                if b.id in seen or b is end:
                    continue
                seen.add(b.id)
                todo += b.succ
            if B.id in seen:
                continue
            for b in seen:
                self.region[b] = g
        if not self.region:
            return
        inside, outside = {}, {}
        args = {}
        for B in F.blocks:
            for I in B.insts:
                if I.op == 'alloca':
                    self.alloca.add(I.id)
                if I.op in ('call', 'invoke') and I.x.k == 'func' and (I.x.v or '').startswith('llvm.lifetime'):
                    continue
                for o in self.locals(I):
                    (inside if B.id in self.region else outside).setdefault(o, I)
                if I.op == 'store' and I.ops[0].k == 'local' and I.ops[0].v < F.nargs and I.ops[1].k == 'local':
                    args[I.ops[1].v] = I.ops[0].v
        defs = {I.id: B.id for B in F.blocks for I in B.insts}
        for o, I in inside.items():
            self.checks += 1
            if o < F.nargs or o in args:
                k = o if o < F.nargs else args[o]
                self.fails.append(("history", f"a static variable is initialized from the argument {F.argnames[k] or k} of the first call", I))
            elif defs.get(o) not in self.region and (o not in self.alloca or o in outside):
                self.und.append(("history", "a static variable is initialized from values of the first call", I))

    def locals(self, I):
        out = []

        def w(v):
            if v.k == 'local':
                out.append(v.v)
            for o in v.ops or ():
                w(o)
        for o in I.ops or ():
            w(o)
        if I.op == 'phi':
            for b, v in I.x:
                w(v)
        return out

    def t(self, v):
        if v.k == 'local':
            return self.taint.get(v.v, set())
        return self.A.roots(v)

    def add(self, d, k, s):
        s = set(s) - d.get(k, set())
        if s:
            d[k] = d.get(k, set()) | s
        return bool(s)

    def flow(self, I):
        op, ch = I.op, False
        if op == 'alloca':
            self.alloca.add(I.id)
        elif op in ('gep', 'bitcast', 'freeze', 'select', 'inttoptr', 'ptrtoint', 'extractvalue', 'insertvalue', 'addrspacecast'):
            for o in I.ops:
                ch |= self.add(self.taint, I.id, self.t(o))
                if o.k == 'local' and o.v in self.errno:
                    self.errno.add(I.id)
                ch |= self.hold(I.id, o)
        elif op == 'phi':
            for b, v in I.x:
                ch |= self.add(self.taint, I.id, self.t(v))
                ch |= self.hold(I.id, v)
        elif op == 'load':
            p = I.ops[0]
            if p.k == 'local' and p.v in self.held:
                for a in self.held[p.v]:
                    ch |= self.add(self.taint, I.id, self.cont.get(a, ()))
            if I.ty.k == 'ptr' and not self.A_immutable(self.t(p)):
                ch |= self.add(self.taint, I.id, self.t(p))
        elif op == 'store':
            v, p = I.ops
            if p.k == 'local' and p.v in self.held:
                for a in self.held[p.v]:
                    ch |= self.add(self.cont, a, self.t(v))
        elif op in ('call', 'invoke') and I.x.k == 'func' and I.x.v:
            f = I.x.v
            if f.startswith('llvm.threadlocal.address') or f.startswith('_ZTW'):
                g = I.ops[0].v if I.ops else f[4:]
                g = g if g in self.A.M.gl_ref else "_Z" + g
                ch |= self.add(self.taint, I.id, {g})
            elif f == '__errno_location':
                self.errno.add(I.id)
            else:
                f = self.A.M.alias.get(f, f)
                if f in self.A.res or f in self.A.fns:
                    ch |= self.add(self.taint, I.id, self.A.ret.get(f, ()))
                elif I.ty is not None and I.ty.k in ('ptr', 'struct') and f not in ("strdup", "malloc", "strndup", "_Znwm", "_Znam"):
                    n = last(split(self.A.T.dem.get(f, f))[0])
                    for o in I.ops[:1] if n in ("operator<<", "operator>>") else I.ops:
                        ch |= self.add(self.taint, I.id, self.t(o))
                        if o.k == 'local':
                            for a in self.held.get(o.v, ()):
                                ch |= self.add(self.taint, I.id, self.cont.get(a, ()))
                elif isstd(self.A.T.dem.get(f, f)):
                    # objects built from such a pointer (iterators, views)
                    src = set().union(set(), *[self.t(o) for o in I.ops])
                    for o in I.ops[:1]:
                        if o.k == 'local' and 'terator' in self.A.T.dem.get(f, f):
                            for a in self.held.get(o.v, ()):
                                ch |= self.add(self.cont, a, src)
        if op == 'alloca' and I.id not in self.held:
            self.held[I.id] = {I.id}
            ch = True
        return ch

    cont = property(lambda s: s.__dict__.setdefault('_cont', {}))

    def hold(self, i, v):
        if v.k == 'local' and v.v in self.held:
            return self.add(self.held, i, self.held[v.v])
        return False

    def A_immutable(self, s):
        return False

    # --- the obligations
    def ev(self, roots, I, what, definite=True):
        for g in sorted(roots):
            if self.region.get(I.blk.id, '').replace('_ZGV', '_Z') == g or self.guardof(I, g):
                continue
            tls = self.A.M.glob(g)[3]
            n = self.pretty(g)
            if tls:
                if self.name == 'hsql_lex' or self.A.T.dem.get(self.name, '').startswith('hsql_lex('):
                    self.A.written.setdefault(g, []).append((self.name, what))
                    continue
                self.und.append(("thread state", f"{what} the thread's variable {n}, which outlives the parse", I))
            elif self.locked or not definite:
                self.und.append(("shared state", f"{what} the variable {n}, which outlives the parse", I))
            else:
                self.fails.append(("shared state", f"{what} the variable {n}, which outlives the parse and is shared by all threads", I))

    def guardof(self, I, g):
        r = self.region.get(I.blk.id)
        return r is not None and (r[4:] == g[2:] or r[4:] == g)

    def pretty(self, g):
        import subprocess
        return subprocess.run(["c++filt", g], stdout=subprocess.PIPE, text=True).stdout.strip()

    def content(self, v):
        out = set(self.t(v))
        if v.k == 'local':
            for a in self.held.get(v.v, ()):
                out |= self.cont.get(a, set())
        return out

    def check(self, I):
        A, op = self.A, I.op
        if op in ('store', 'atomicrmw', 'cmpxchg'):
            p = I.ops[1] if op == 'store' else I.ops[0]
            self.checks += 1
            if p.k == 'glob' and p.v.startswith('_ZGV'):
                if self.region.get(I.blk.id) != p.v:
                    self.und.append(("shared state", "writes the guard of a static variable", I))
                return
            if op == 'store':
                self.ev(self.t(p), I, "writes")
                v = I.ops[0]
                e = self.t(v)
                if e and not (p.k == 'local' and self.held.get(p.v)):
                    self.ev(e - self.t(p), I, "stores the address of", False)
            else:
                self.ev(self.t(p), I, "changes", False)
        elif op == 'ret' and I.ops:
            A.ret[self.name] = frozenset(A.ret.get(self.name, frozenset()) | self.t(I.ops[0]))
        elif op == 'icmp' and I.ops[0].ty is not None and I.ops[0].ty.k == 'ptr' and I.x not in ('eq', 'ne'):
            if not re.match(r"(hsql_parse|hsql_lex|yy|hsql__)", self.A.T.dem.get(self.name, self.name)):
                self.checks += 1
                self.und.append(("addresses", "compares the order of addresses", I))
        elif op in ('call', 'invoke'):
            self.call(I)

    def call(self, I):
        A = self.A
        if I.x.k != 'func' or not I.x.v:
            bad = set().union(set(), *[self.content(o) for o in I.ops])
            if bad:
                self.ev(bad, I, "passes to an unknown function", False)
            return
        f = A.M.alias.get(I.x.v, I.x.v)
        if f.startswith('llvm.'):
            if f.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                self.checks += 1
                self.ev(self.t(I.ops[0]), I, "writes")
            return
        if STARTUP.match(f) or f == '__errno_location':
            return
        d = A.T.dem.get(f, f)
        self.checks += 1
        if f in HIDDEN:
            self.fails.append(("hidden state", f"calls {f}, which keeps state between calls", I))
            return
        if f in UNDET or UNDETCPP.search(d):
            self.und.append(("environment", f"calls {split(d)[0]}, whose result does not depend on the text", I))
        if f in A.fns:
            for i, o in enumerate(I.ops):
                s = {g for g in self.t(o) if not self.guardof(I, g)}
                if s - set(A.param.get((f, i), ())):
                    A.param[(f, i)] = set(A.param.get((f, i), ())) | s
                if o.k == 'local':
                    c = set().union(set(), *[self.cont.get(a, set()) for a in self.held.get(o.v, ())])
                    if c:
                        self.ev(c, I, f"passes to {d[:60]} an object that points into", False)
            return
        for i, o in enumerate(I.ops):
            s = self.t(o)
            if not s:
                continue
            self.checks += 1
            k = self.effect(f, d, i, len(I.ops))
            if k == 'write':
                self.ev(s, I, f"changes (by {last(split(d)[0]) or d})")
            elif k == 'maybe':
                self.ev(s, I, f"may change (by {last(split(d)[0]) or d})", False)

    def effect(self, f, d, i, n):
        if not isstd(d):
            f = re.sub(r'^__isoc(99|23)_', '', f)
            if f in READS:
                return 'read'
            if f in WRITES:
                w = WRITES[f]
                return 'write' if (isinstance(w, list) and i in w or w == "2+" and i >= 2) else 'read'
            return 'maybe'
        name, ps, const = split(d)
        if "std::atomic" in name or "std::__atomic" in name:
            return 'read' if const else 'maybe'
        extra = n - len(ps or ())
        if ps is not None and i >= extra and extra >= 0:
            p = ps[i - extra]
            if re.search(r"const\s*[&*]$", p) or "const_iterator" in p or re.search(r"__normal_iterator<[^,]* const\*", p) or "initializer_list" in p:
                return 'read'
            if p.endswith("&") or p.endswith("*"):
                m = last(name)
                return 'write' if m in MUTATORS or re.search(r"std::(sort|swap|reverse|fill|rotate|getline)\b", name) else 'maybe'
            return 'maybe' if p.endswith("iterator") or "iterator" in p else 'read'
        if const:
            return 'read'
        m = last(name)
        if m == 'operator[]':
            return 'write' if ASSOC.search(name) else 'read'
        if m in BENIGN:
            return 'read'
        if m in MUTATORS:
            return 'write'
        return 'maybe'

    def errnos(self):
        """errno is only read after this call has set it"""
        if not self.errno:
            return
        F = self.F
        # saved and restored: the value only travels through locals back to errno
        val, mem, ch = set(), set(), True
        while ch:
            n = len(val) + len(mem)
            for B in F.blocks:
                for I in B.insts:
                    if I.op == 'load' and I.ops[0].k == 'local' and (I.ops[0].v in self.errno or I.ops[0].v in mem):
                        val.add(I.id)
                    elif I.op == 'store' and I.ops[0].k == 'local' and I.ops[0].v in val and I.ops[1].k == 'local' and I.ops[1].v in self.alloca:
                        mem.add(I.ops[1].v)
            ch = n != len(val) + len(mem)
        if not any(o in val and I.op != 'store' for B in F.blocks for I in B.insts for o in self.locals(I)) and all(not (I.op == 'store' and I.ops[0].k == 'local' and I.ops[0].v in val) or I.ops[1].v in mem | self.errno for B in F.blocks for I in B.insts):
            self.checks += 1
            return
        seen, todo = set(), [F.blocks[0]]
        while todo:
            b = todo.pop()
            if b.id in seen:
                continue
            seen.add(b.id)
            stop = False
            for I in b.insts:
                if I.op == 'store' and I.ops[1].k == 'local' and I.ops[1].v in self.errno:
                    stop = True
                    self.checks += 1
                    break
                if I.op == 'load' and I.ops[0].k == 'local' and I.ops[0].v in self.errno:
                    self.checks += 1
                    self.fails.append(("hidden state", "reads errno, which an earlier call may have set", I))
                    return
            if not stop:
                todo += b.succ


def stage(ctx):
    T = ctx.T
    A = Frames(T).run()
    rs = []
    for f in A.fns:
        x = A.res[f]
        d = T.dem.get(f, f)
        r = Result("frame of " + d.split("(")[0][:100])
        r.fns = [f]
        r.backend = "interprocedural points-to and effect analysis"
        bad = x.fails + x.und
        r.obl = x.checks + 1
        r.disch = r.obl - len(bad)
        r.kinds = {"frame": r.obl}
        if x.fails:
            r.status = 'failed'
            r.fails = [{"unit": r.unit, "kind": k, "msg": m, "where": f"{d.split('(')[0]} block {I.blk.name or I.blk.id}", "model": ""} for k, m, I in x.fails]
        elif x.und:
            r.status, r.reason = 'undecided', "; ".join(sorted({m for k, m, I in x.und}))[:300]
        rs.append(r)
    return rs
