"""Functional contracts of the reductions: the value of the specified production (spec/sql.spec) as a postcondition over the
final states of the symbolic execution of the real semantic action."""
import ast
import z3
from . import own, models
from .sym import Ptr, Vec, Str, SetV, Tm, UNDEF, ZERO, Unsupported, DeadPath, isz, simp, bv, veq
from .ref import STMT, DERIVED, DEFAULT, UNITS
from .diff import enumval
from .grammar import symfields
from .models import cmpvar, content, member

DATE, DURATION, INTERVAL = "%4d-%2d-%2d%n", "%18lld%n", "%18lld %7s%n"
# fields whose value is not part of any property
FREE = {("Expr", "ival2")}
NOTSET = {"stringLength"}      # set for complete statements only


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Reject(Exception):
    pass


class Ref:
    """the value that was named `name` at the start, unchanged"""
    __slots__ = ("name", "own")

    def __init__(self, name, own):
        self.name, self.own = name, own

    def __repr__(self):
        return self.name


class New:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.f.items())})"


class Upd:
    """the node that was named `name` with changed fields"""
    __slots__ = ("name", "cls", "f")

    def __init__(self, name, cls, f):
        self.name, self.cls, self.f = name, cls, f

    def __repr__(self):
        return f"{self.name}[{', '.join(f'{k}:={v!r}' for k, v in self.f.items())}]"


class List:
    """('s', name) | ('e', value) | ('F', name, class)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return "[" + ", ".join(s[1] + "..." if s[0] == 's' else repr(s[1]) if s[0] == 'e' else f"{s[1]}:{s[2]}" for s in self.segs) + "]"


class ESet:
    __slots__ = ("base", "ins")

    def __init__(self, base, ins):
        self.base, self.ins = base, ins

    def __repr__(self):
        return f"{self.base or ''}+{self.ins}"


class Struct(dict):
    pass


class Param(Exception):
    pass


VOID = object()
PARAMETER = object()
SLICE = object()
MISSING = object()


class Eval:
    """evaluates the specified value of a production on one path"""

    def __init__(self, E, s, T, G, prod, rhs):
        self.E, self.s, self.T, self.G, self.L, self.p, self.rhs = E, s, T, G, T.L, prod, rhs
        self.errors = None      # message of a pending error reported by this production
        self.free = None

    def dec(self, c):
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        d = self.E.decide(self.s, c)
        if d is None:
            raise Fork(c)
        return d

    def symval(self, i):
        fs = symfields(self.T, self.G, self.rhs[i - 1])
        if not fs:
            raise Unsupported(f"${i} has no value")
        if len(fs) == 1 and '.' not in fs[0].name:
            return self.val(f"${i}", fs[0])
        return Struct({f.name.split('.', 1)[1]: self.val(f"${i}.{f.name.split('.', 1)[1]}", f) for f in fs})

    def val(self, name, f):
        if f.kind == 'ptr':
            return Ref(name, f.own)
        if f.kind == 'bool':
            return z3.BitVec(name, 8)
        if f.kind == 'fp':
            return Tm("fp:" + name)
        return z3.BitVec(name, 8 * f.size)

    def null(self, x):
        if x is None:
            return True
        if isinstance(x, Ref):
            return self.dec(self.E.nullv(x.name))
        return False

    def field(self, x, f):
        if isinstance(x, Struct):
            return x[f]
        if isinstance(x, Ref):
            if self.null(x):
                raise Unsupported(f"{x}.{f} of an absent part")
            fl = self.L.field(x.own, f)
            if fl is not None:
                return self.val(x.name + "." + f, fl)
            fs = [g for g in self.L.fields(x.own) if g.name.startswith(f + ".")]
            if fs:
                return Struct({g.name[len(f) + 1:]: self.val(x.name + "." + g.name, g) for g in fs})
        raise Unsupported(f"field {f} of {x!r}")

    def ev(self, n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            i = n.id
            if i[0] == 'S' and i[1:].isdigit():
                return self.symval(int(i[1:]))
            if i == 'void':
                return VOID
            if i == 'PARAMETER':
                return PARAMETER
            if i == 'SLICE':
                return SLICE
            if i == 'any':
                return MISSING
            return self.enum(i)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id[0].isupper() and not (n.value.id[0] == 'S' and n.value.id[1:].isdigit()):
                return self.enum(n.value.id + "." + n.attr.rstrip("_"))
            return self.field(self.ev(n.value), n.attr)
        if isinstance(n, ast.IfExp):
            return self.ev(n.body) if self.truth(n.test) else self.ev(n.orelse)
        if isinstance(n, ast.List):
            return List([('e', self.ev(x)) for x in n.elts])
        if isinstance(n, ast.Call):
            return self.call(n)
        raise Unsupported("specification: " + ast.dump(n))

    def enum(self, s):
        v = enumval(self.L, s)
        if v is None:
            raise Unsupported("enumerator " + s)
        if isinstance(v, str):
            self.E.check(self.s, "contract", False, f"the enumerator {v} has a value of its own")
            raise DeadPath()
        return v

    def truth(self, n):
        if isinstance(n, ast.BoolOp):
            r = isinstance(n.op, ast.And)
            for x in n.values:
                if self.truth(x) != r:
                    return not r
            return r
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.truth(n.operand)
        if isinstance(n, ast.Compare):
            a, b = self.ev(n.left), self.ev(n.comparators[0])
            eq = isinstance(n.ops[0], ast.Eq)
            if b is None:
                return self.null(a) == eq
            return self.dec(self.numeq(a, b)) == eq
        if isinstance(n, ast.Call):
            f = n.func.id
            if f == 'ieq':
                return self.ieq(self.ev(n.args[0]), n.args[1].value)
            if f == 'pending_error':
                return not self.dec(self.E.nullv("result.errorMsg_"))
            if f == 'isdate':
                return self.scanned(self.ev(n.args[0]), DATE, 3)
            if f == 'isduration':
                return self.scanned(self.ev(n.args[0]), DURATION, 1)
            if f == 'isinterval':
                return self.scanned(self.ev(n.args[0]), INTERVAL, 2)
        raise Unsupported("condition: " + ast.dump(n))

    def numeq(self, a, b):
        if isz(a) or isz(b):
            w = a.size() if isz(a) else b.size()
            return simp(bv(a, w) == bv(b, w))
        return a == b

    def str(self, x):
        if not (isinstance(x, Ref) and x.own == 'char'):
            raise Unsupported("text")
        return Tm("str:" + x.name)

    def ieq(self, x, lit):
        t = x if isinstance(x, Tm) else self.str(x)
        v = cmpvar(self.E, self.s, 'strcasecmp', t, Tm("lit:" + lit))
        # the comparison ignores the case of the literal as well: use what the code compared with
        return self.dec(v == 0 if isz(v) else v == 0)

    def scan(self, x, fmt):
        return f"sscanf({self.str(x)!r},{fmt!r})"

    def scanned(self, x, fmt, k):
        nm = self.scan(x, fmt)
        c = self.str(x)
        ln = z3.BitVec("strlen:" + c.op[4:], 64)
        return self.dec(z3.And(z3.BitVec(nm, 32) == k, z3.SignExt(32, z3.BitVec(nm + ".n", 32)) == ln))

    def call(self, n):
        f = n.func.id if isinstance(n.func, ast.Name) else None
        if f == 'reject':
            raise Reject(n.args[0].value if n.args else None)
        if f == 'upd':
            x = self.ev(n.args[0])
            fs = {k.arg: self.ev(k.value) for k in n.keywords}
            if isinstance(x, Upd):
                return Upd(x.name, x.cls, dict(x.f, **fs))
            if not isinstance(x, Ref) or self.null(x):
                raise Unsupported("upd")
            return Upd(x.name, x.own, fs)
        if f == 'app':
            l, x = self.ev(n.args[0]), self.ev(n.args[1])
            if l is None or isinstance(l, Ref) and self.null(l):
                return List([('e', x)])
            return List([('s', l.name), ('e', x)]) if isinstance(l, Ref) else List(l.segs + (('e', x),))
        if f == 'only':
            l = self.ev(n.args[0])
            return List([('F', l.name, n.args[1].id)])
        if f == 'setof':
            return ESet(None, [self.ev(a) for a in n.args])
        if f == 'add':
            l = self.ev(n.args[0])
            return ESet(l.name, [self.ev(n.args[1])])
        if f == 'struct':
            return Struct({k.arg: self.ev(k.value) for k in n.keywords})
        if f == 'ipair':
            return New('pair<long,long>', {"first": self.ev(n.args[0]), "second": self.ev(n.args[1])})
        if f == 'pair':
            return New('pair<CsvOptionType,char*>', {"first": self.ev(n.args[0]), "second": self.ev(n.args[1])})
        if f == 'csv_add':
            return self.csv_add(self.ev(n.args[0]), self.ev(n.args[1]))
        if f == 'column':
            return self.column(*[self.ev(a) for a in n.args])
        if f == 'duration':
            x = self.ev(n.args[0])
            fmt = DURATION if 'isduration' in self.p.text else INTERVAL
            return z3.BitVec(self.scan(x, fmt) + ".0", 64)
        if f == 'unit':
            x = self.ev(n.args[0])
            t = Tm(self.scan(x, INTERVAL) + ".1")
            for u, k in UNITS.items():
                for w in (u.decode(), u.decode() + "s"):
                    if self.ieq(t, w):
                        return self.enum(k)
            return self.enum("kDatetimeNone")
        if f == 'result':
            return ('result', self.ev(n.args[0]))
        if f and f[0].isupper():
            return New(f, {k.arg: self.ev(k.value) for k in n.keywords})
        raise Unsupported("specification: " + ast.dump(n))

    def csv_add(self, o, pr):
        k = self.field(pr, "first")
        for e, f in (("CsvOptionType.Delimiter", "delimiter"), ("CsvOptionType.Quote", "quote"), ("CsvOptionType.Null", "null")):
            if self.dec(self.numeq(k, self.enum(e))):
                if o is None or self.null(o):
                    return New('CsvOptions', {f: self.field(pr, "second")})
                if not self.null(self.field(o, f)):
                    raise Reject("CSV options (DELIMITER, NULL, QUOTE) cannot be provided more than once.")
                return Upd(o.name, o.own, {f: self.field(pr, "second")})
        raise Unsupported("CSV option of unknown kind")

    def column(self, n, t, cs, refs):
        def has(c):
            m = member(self.E, self.s, SetV(cs.name), self.enum(c))
            return self.dec(simp(m == 1) if isz(m) else m == 1)
        notnull = has("ConstraintType.NotNull") or has("ConstraintType.PrimaryKey")
        if notnull and has("ConstraintType.Null"):
            self.errors = Tm("cat", Tm("lit:Conflicting nullability constraints for "), self.str(n))
            return New('ColumnDefinition', {"name": n, "type": t, "column_constraints": cs, "references": refs, "nullable": MISSING})
        return New('ColumnDefinition', {"name": n, "type": t, "column_constraints": cs, "references": refs, "nullable": 0 if notnull else 1})


class Match:
    """compares the values of a final state with the specified ones; every comparison is an obligation"""

    def __init__(self, E, s, T, G, fr, rk, kind="contract"):
        self.E, self.s, self.T, self.G, self.L, self.fr, self.rk, self.kind = E, s, T, G, T.L, fr, rk, kind

    def ok(self, c, path, exp, act):
        self.E.check(self.s, self.kind, c, f"{path} is not {exp!r}: {str(act)[:120]}"[:300])

    def bad(self, path, exp, act):
        self.ok(False, path, exp, act)

    def value(self, v, e, path, typ):
        """v: value found; e: value specified; typ: owned type of pointers"""
        E, s = self.E, self.s
        if e is MISSING:
            return
        if v is UNDEF:
            return self.bad(path, e, "indeterminate")
        if isinstance(e, (int, bool)) or isz(e):
            if isinstance(v, Ptr) and v.b is None:
                v = v.o
            if v is ZERO:
                v = 0
            if isinstance(v, float) and v == e:
                return self.ok(True, path, e, v)
            if not (isinstance(v, (int, bool)) or isz(v)):
                return self.bad(path, e, v)
            w = e.size() if isz(e) and not z3.is_bool(e) else v.size() if isz(v) and not z3.is_bool(v) else 64
            if isz(v) and not z3.is_bool(v) and v.size() != w:
                # a store of another width: the number itself must survive, as a signed or as an unsigned one
                m, x = max(w, v.size()), e if isz(e) else z3.BitVecVal(e, w)
                up = [z3.And(f(m - v.size(), v) == f(m - w, x)) for f in (z3.SignExt, z3.ZeroExt)]
                return self.ok(simp(z3.Or(*up)), path, e, v)
            return self.ok(simp(bv(v, w) == bv(e, w)), path, e, v)
        if isinstance(e, (Tm, float)):
            return self.ok(veq(v, e) if type(v) is type(e) else False, path, e, v)
        if e is None:
            if v is ZERO:
                return self.ok(True, path, e, v)
            if isinstance(v, Tm) or isinstance(v, float):
                return self.ok(v == 0.0, path, 0.0, v)
            if isinstance(v, int) or isz(v):
                return self.value(v, 0, path, typ)
            if not isinstance(v, Ptr):
                return self.bad(path, "absent", v)
            n = E.isnull(s, v)
            return self.ok(n, path, "absent", v)
        if isinstance(e, Ref):
            if e.own == 'char':
                return self.text(v, e, path)
            if not isinstance(v, Ptr):
                return self.bad(path, e, v)
            d = E.decide(s, E.nullv(e.name))
            if d is True:
                return self.value(v, None, path, typ)
            if v.b == ('s', e.name) and v.o == 0:
                self.ok(True, path, e, v)
                return self.unchanged(e.name, path)
            return self.copy(v, e, path)
        if isinstance(e, Same):
            return self.ok(v == e.v, path, e, v)
        if isinstance(e, New):
            return self.node(v, e.cls, e.f, None, path)
        if isinstance(e, Upd):
            return self.node(v, e.cls, e.f, e.name, path)
        if isinstance(e, List):
            return self.list(v, e, path)
        if isinstance(e, ESet):
            k = self.resolve(v, path, e)
            if k is None:
                return
            c = s.objs[k].cells.get(0)
            x = c and c[1]
            if not isinstance(x, SetV):
                return self.bad(path, e, x)
            self.ok(x.base == e.base, path, e, x)
            base = SetV(e.base) if e.base else None
            for a, b in ((x.ins, list(e.ins)), (e.ins, list(x.ins))):
                for y in a:
                    self.ok(z3.Or(*[bv(y, 32) == bv(z, 32) for z in b]) if b else False, path, e, x)
            return
        raise Unsupported(f"specified value {e!r}")

    def text(self, v, e, path):
        E, s = self.E, self.s
        if not isinstance(v, Ptr):
            return self.bad(path, e, v)
        d = E.decide(s, E.nullv(e.name))
        if d is True:
            return self.value(v, None, path, 'char')
        if v.b == ('s', e.name):
            if v.o != 0:
                return self.bad(path, e, v)
            k = s.mat.get(e.name)
            return self.ok(k is None or k in s.objs and not s.objs[k].dirty, path, e, "changed text")
        if d is None:
            n = E.isnull(s, v)
            if n is True or n is False:
                return self.bad(path, e, v)
            self.ok(simp(n == E.nullv(e.name)), path, e, v)
        elif v.b is None:
            return self.bad(path, e, "absent")
        c = content(E, s, v)
        self.ok(c == Tm("str:" + e.name), path, e, c)

    def resolve(self, v, path, e):
        E, s = self.E, self.s
        if not isinstance(v, Ptr) or v.b is None or not (isinstance(v.o, int) and v.o == 0):
            self.bad(path, e, v)
            return None
        if v.b[0] == 's':
            k = s.mat.get(v.b[1])
            if k is None:
                if v.b[1] in s.own or E.take(s, v.b[1]):
                    n = E.decide(s, E.isnull(s, v))
                    if n is not False:
                        self.bad(path, e, "possibly absent")
                        return None
                    k = E.unfold(s, v.b[1], None, "read")
                else:
                    self.bad(path, e, f"released memory {v}")
                    return None
        else:
            k = v.b
        if k not in s.objs:
            self.bad(path, e, f"released memory {v}")
            return None
        return k

    def node(self, v, cls, fields, base, path):
        """an object of class cls; base: name of the node the other fields keep their values from, None: default values"""
        E, s = self.E, self.s
        if base is not None and isinstance(v, Ptr) and v.b == ('s', base) and base not in s.mat and all(x is None or isinstance(x, Ref) for x in fields.values()) \
                and all(E.valid(s, E.nullv(f"{base}.{k}")) for k, x in fields.items() if x is None) and all(x is None or x.name == f"{base}.{k}" for k, x in fields.items()):
            return self.ok(True, path, base, v)
        k = self.resolve(v, path, cls)
        if k is None:
            return
        o = s.objs[k]
        if E.lay.poly(cls):
            c = own.exact(E, s, k)
            if base is None:
                self.ok(c == cls, path, cls, c)
            elif v.b != ('s', base):
                want = s.cls.get(base)
                self.ok(c is not None and want is not None and want == frozenset([c]), path, base, c)
            if c is None:
                c = cls
        else:
            c = cls
            if isinstance(o.size, int):
                self.ok(o.size == E.lay.cls[cls].size, path, cls, f"object of {o.size} bytes")
        rest = dict(fields)
        for f in E.lay.fields(c):
            if f.kind == 'vptr' or (c, f.name) in FREE:
                rest.pop(f.name, None)
                continue
            p = f"{path}.{f.name}"
            if f.name in rest:
                e = rest.pop(f.name)
            else:
                g = f.name.split('.')
                if len(g) > 1 and g[0] in fields:
                    rest.pop(g[0], None)
                    e = fields[g[0]]
                    sub = '.'.join(g[1:])
                    if isinstance(e, New):
                        e = e.f.get(sub)
                    elif isinstance(e, Struct):
                        e = e.get(sub)
                    elif e is None:
                        e = None
                    else:
                        raise Unsupported(f"value of {p}")
                elif base is not None:
                    e = self.canon(base, f)
                elif f.name in NOTSET:
                    continue
                elif f.name == 'type_' and c in STMT:
                    e = enumval(self.L, STMT[c])
                else:
                    e = DEFAULT.get((c, f.name))
                    if isinstance(e, str):
                        e = enumval(self.L, e)
            if f.kind == 'vec':
                x = E.vecat(s, k, f.off)
                if x is None:
                    self.bad(p, e, "not constructed")
                else:
                    self.segs(x, e if isinstance(e, List) else List([('s', e.name)]) if isinstance(e, Ref) else List([]), p)
                continue
            x = own.fieldget(E, s, k, f.off, f.size)
            if base is not None and e is not None and isinstance(e, Tm) and isinstance(x, Tm):
                self.ok(veq(x, e), p, e, x)
                continue
            self.value(x, e, p, f.own)
        if rest:
            raise Unsupported(f"{cls} has no field {sorted(rest)}")

    def canon(self, name, f):
        if f.kind == 'ptr':
            return Ref(name + "." + f.name, f.own)
        if f.kind == 'vec':
            return Ref(name + "." + f.name, 'vec<' + (f.elt or '?') + '>')
        if f.kind == 'bool':
            return z3.BitVec(name + "." + f.name, 8)
        if f.kind == 'fp':
            return Tm("fp:" + name + "." + f.name)
        return z3.BitVec(name + "." + f.name, 8 * f.size)

    def unchanged(self, name, path, depth=0):
        """the object named so holds what it held at the start"""
        E, s = self.E, self.s
        if depth > 6:
            raise Unsupported("unchanged: depth")
        k = s.mat.get(name)
        if k is None:
            return
        o = s.objs.get(k)
        if o is None:
            return self.bad(path, name, "released memory")
        if o.cls == 'char':
            return self.ok(not o.dirty, path, name, "changed text")
        if o.cls == 'set':
            c = o.cells.get(0)
            return self.ok(c is not None and isinstance(c[1], SetV) and c[1].base == name and not c[1].ins, path, name, c and c[1])
        if o.cls.startswith('vec<'):
            x = E.vecat(s, k, 0)
            return self.segs(x, List([('s', name)]), path) if x is not None else self.bad(path, name, "not constructed")
        if o.lazy is None or o.lazy[0] != 'cls':
            return self.bad(path, name, "another object")
        for off, (n, x) in list(o.cells.items()):
            f = E.lay.at(o.cls, off)
            if f is None or f.size != n:
                return self.bad(path, name, f"changed at {off}")
            if f.kind == 'vptr':
                if x != Ptr(('vptr', name)):
                    self.bad(path, name, "changed class")
                continue
            if f.kind == 'vec':
                if isinstance(x, Vec):
                    self.segs(x, List([('s', name + "." + f.name)]), f"{path}.{f.name}")
                else:
                    self.bad(path, name, x)
                continue
            if (o.cls, f.name) in FREE:
                continue
            self.value(x, self.canon(name, f), f"{path}.{f.name}", f.own)

    def copy(self, v, e, path):
        """another object with the same contents"""
        E, s = self.E, self.s
        if e.own.startswith('vec<'):
            k = self.resolve(v, path, e)
            if k is not None:
                x = E.vecat(s, k, 0)
                if x is None:
                    return self.bad(path, e, "not a vector")
                return self.segs(x, List([('s', e.name)]), path)
            return
        if e.own in E.lay.cls and E.decide(s, E.nullv(e.name)) is False:
            if isinstance(v, Ptr) and v.b and v.b[0] == 'o':
                return self.node(v, e.own, {}, e.name, path)
        if isinstance(v, Ptr) and v.b and v.b[0] == 's' and E.decide(s, E.nullv(e.name)) is None:
            pass
        self.bad(path, e, v)

    def list(self, v, e, path):
        E, s = self.E, self.s
        k = self.resolve(v, path, e)
        if k is None:
            return
        x = E.vecat(s, k, 0)
        if x is None:
            return self.bad(path, e, "not a vector")
        self.segs(x, e, path)

    def segs(self, x, e, path):
        E, s = self.E, self.s
        got = []
        for g in x.segs:
            if g[0] == 's' and E.valid(s, simp(bv(g[2], 64) == bv(g[3], 64))):
                continue
            got.append(g)
        want = [w for w in e.segs if not (w[0] == 's' and E.valid(s, E.veclen(s, w[1]) == 0))]
        i = 0
        for n, w in enumerate(want):
            p = f"{path}[{n}]"
            if i >= len(got):
                return self.bad(p, w[1], "missing")
            g = got[i]
            if w[0] == 'e':
                if g[0] != 'e':
                    return self.bad(p, w[1], g)
                self.value(g[1], w[1], p, (x.et or '?').lstrip('='))
                i += 1
                continue
            if w[0] == 'F':
                if g[0] == 's' and g[1] in E.filters:
                    vs, cs, lo, hi = E.filters[g[1]]
                elif g[0] == 'F':
                    _, vs, cs, lo, hi = g
                elif g[0] == 's' and g[1] == w[1]:
                    return self.bad(p, f"the {w[2]} elements of {w[1]}", "all elements")
                else:
                    return self.bad(p, w[1], g)
                want_cs = {c for c in DERIVED[w[2]]}
                self.ok(vs == w[1] and set(cs) == want_cs, p, f"the {w[2]} elements of {w[1]}", f"{sorted(cs)} of {vs}")
                self.ok(simp(z3.And(bv(lo, 64) == 0, bv(hi, 64) == E.veclen(s, vs))), p, w[1], f"[{lo}..{hi})")
                self.elements(vs, p)
                i += 1
                continue
            # a sequence: consecutive slices that cover it
            pos = z3.BitVecVal(0, 64)
            ln = E.veclen(s, w[1])
            while i < len(got) and got[i][0] in 's' and got[i][1] == w[1] and E.valid(s, bv(got[i][2], 64) == pos):
                pos = bv(got[i][3], 64)
                i += 1
                if E.valid(s, pos == ln):
                    break
                # single elements in between
                while i < len(got) and got[i][0] == 'e' and self.iselem(got[i][1], w[1], pos):
                    pos = simp(pos + 1)
                    pos = bv(pos, 64)
                    i += 1
            if i < len(got) and got[i][0] == 'e' and not E.valid(s, pos == ln):
                while i < len(got) and got[i][0] == 'e' and self.iselem(got[i][1], w[1], pos):
                    pos = bv(simp(pos + 1), 64)
                    i += 1
            self.ok(simp(pos == ln), p, f"all elements of {w[1]}", got)
            self.elements(w[1], p)
        if i < len(got):
            self.bad(path, e, f"additional elements {got[i:]}")

    def iselem(self, v, vs, pos):
        if not (isinstance(v, Ptr) and v.b and v.b[0] == 's'):
            return False
        x = self.E.elems.get(v.b[1])
        return x is not None and x[0] == vs and self.E.valid(self.s, bv(x[1], 64) == pos)

    def elements(self, vs, path):
        """the elements of the sequence hold what they held at the start"""
        E, s = self.E, self.s
        if ('each', vs) in s.notes:
            self.bad(path, f"unchanged elements of {vs}", "elements written in a loop")
        for nm in list(s.mat):
            x = E.elems.get(nm)
            if x is not None and x[0] == vs:
                self.unchanged(nm, path)

    # ---- state outside of the value
    def result(self, changes, path="result"):
        E, s = self.E, self.s
        k = self.rk
        if k not in s.objs:
            return self.bad(path, "unchanged", "released")
        for f in E.lay.fields('SQLParserResult'):
            p = f"{path}.{f.name}"
            if f.kind == 'vptr':
                continue
            if f.name in changes:
                e = changes[f.name]
                if e is MISSING:
                    continue
            elif f.kind == 'vec':
                e = List([('s', "result." + f.name)]) if ('SQLParserResult', f.name) not in E.nonowning else List([])
            else:
                e = self.canon("result", f)
            if f.kind == 'vec':
                x = E.vecat(s, k, f.off)
                if x is None:
                    self.bad(p, e, "not constructed")
                else:
                    self.segs(x, e, p)
                continue
            x = own.fieldget(E, s, k, f.off, f.size)
            if isinstance(e, Tm):
                if not isinstance(x, Ptr) or x.b is None:
                    self.bad(p, e, x)
                else:
                    c = content(E, s, x)
                    self.ok(c == e, p, e, c)
                continue
            self.value(x, e, p, f.own)

    def location(self, var, changes):
        E, s = self.E, self.s
        k = self.fr.obj[var]
        for f in E.lay.fields('HSQL_CUST_LTYPE'):
            p = f"{var}.{f.name}"
            if var == 'yyloc' and f.kind == 'int':
                continue
            e = changes.get(f.name, self.canon(var, f))
            if e is MISSING:
                continue
            if f.kind == 'vec':
                x = E.vecat(s, k, f.off)
                self.segs(x, e if isinstance(e, List) else List([('s', e.name)]), p) if x is not None else self.bad(p, e, "not constructed")
            else:
                self.value(own.fieldget(E, s, k, f.off, f.size), e, p, None)


def specmap(S):
    m = {}
    for p in S.prods:
        m.setdefault((p.lhs, tuple(p.rhs)), p)
    return m


ALL = frozenset(["value", "errors", "params", "slices"])


def finish(T, G, S, R, parts=ALL):
    """postcondition of the reduction R; parts: which conjuncts of it"""
    prod = specmap(S).get((R.lhs, tuple(R.rhs)))

    def fin(E, s0, fr, rk, way):
        if prod is None:
            raise Unsupported("the production is not part of the specification")
        work = [s0]
        n = 0
        while work:
            s = work.pop()
            if not E.sat(s):
                continue
            n += 1
            if n > 400:
                raise Unsupported("too many cases")
            V = Eval(E, s, T, G, prod, R.rhs)
            try:
                x = V.ev(prod.act)
            except Fork as f:
                a, b = s.clone(), s.clone()
                E.assume(a, f.cond)
                E.assume(b, z3.Not(f.cond))
                work += [a, b]
                continue
            except Reject as r:
                rejected(E, s, fr, rk, way, r.args[0], T, G, R, parts)
                continue
            M = Match(E, s, T, G, fr, rk)
            if way != 'yynewstate':
                if parts & {"value", "errors"}:
                    M.bad(R.lhs, x if x is not VOID else "accepted", "rejected")
                continue
            changes, yyloc, yylloc = {}, {}, {}
            M.result0 = None
            if isinstance(x, tuple) and x[0] == 'result':
                inputs(M, x[1], parts)
                continue
            if x is PARAMETER:
                x = New('Expr', {"type": enumval(T.L, "kExprParameter"), "ival": MISSING})
                v = own.fieldget(E, s, fr.obj['yyvsa'], 32 + symfields(T, G, R.lhs)[0].off)
                yyloc["param_list"] = List([('s', "yyloc.param_list"), ('e', Same(v))])
            if slices(x):
                yylloc["string_length"] = 0
            if V.errors is not None:
                changes.update(isValid_=0, errorMsg_=V.errors, errorLine_=z3.BitVec("@1.first_line", 32), errorColumn_=z3.BitVec("@1.first_column", 32))
            fs = symfields(T, G, R.lhs)
            if x is VOID or "value" not in parts:
                pass
            elif not fs:
                raise Unsupported(f"{R.lhs} has no value")
            elif len(fs) == 1 and '.' not in fs[0].name:
                M.value(own.fieldget(E, s, fr.obj['yyvsa'], 32 + fs[0].off, fs[0].size), unslice(x), "$$", fs[0].own)
            else:
                x = x.f if isinstance(x, New) else x
                if not isinstance(x, dict):
                    raise Unsupported("value of a structured symbol")
                names = {f.name.split('.', 1)[1] for f in fs}
                if set(x) - names:
                    raise Unsupported(f"{R.lhs} has no field {set(x) - names}")
                for f in fs:
                    b = f.name.split('.', 1)[1]
                    M.value(own.fieldget(E, s, fr.obj['yyvsa'], 32 + f.off, f.size), x.get(b), "$$." + b, f.own)
            if "errors" in parts:
                M.result(changes)
            if "params" in parts:
                M.location('yyloc', yyloc)
            if "slices" in parts:
                M.location('yylloc', yylloc)
            E.check(s, "control", True, "")
        return None
    fin.parts = parts
    return fin


class Same:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"{self.v}"


def slices(x):
    if isinstance(x, Upd):
        return any(v is SLICE for v in x.f.values())
    if isinstance(x, List):
        return any(s[0] == 'e' and slices(s[1]) for s in x.segs)
    return False


def unslice(x):
    if isinstance(x, Upd):
        return Upd(x.name, x.cls, {k: z3.BitVec("yylloc.string_length", 32) if v is SLICE else v for k, v in x.f.items()})
    if isinstance(x, List):
        return List([('e', unslice(s[1])) if s[0] == 'e' else s for s in x.segs])
    return x


def rejected(E, s, fr, rk, way, msg, T, G, R, parts):
    M = Match(E, s, T, G, fr, rk)
    if not parts & {"value", "errors"}:
        return
    if way != 'yyerrorlab':
        return M.bad(R.lhs, f"rejected ({msg})", "accepted")
    if "errors" not in parts:
        return
    if msg is None:
        M.result({})
    else:
        M.result({"isValid_": 0, "errorMsg_": Tm("lit:" + msg), "errorLine_": z3.BitVec("@1.first_line", 32), "errorColumn_": z3.BitVec("@1.first_column", 32)})


def inputs(M, lst, parts):
    """the result receives the statements and the parameters, numbered in order"""
    E, s = M.E, M.s
    ps = "yyloc.param_list"
    if parts & {"value", "errors", "slices"}:
        M.result({"statements_": List([('s', "result.statements_"), ('s', lst.name)]), "parameters_": MISSING})
    if "params" not in parts:
        return
    ln = E.veclen(s, ps)
    f = E.lay.field('SQLParserResult', 'parameters_')
    x = E.vecat(s, M.rk, f.off)
    got = [g for g in x.segs if not (g[0] == 's' and E.valid(s, simp(bv(g[2], 64) == bv(g[3], 64))))]
    empty = E.decide(s, ln == 0)
    if empty is None:
        for c in (ln == 0, ln != 0):
            t = s.clone()
            E.assume(t, c)
            if E.sat(t):
                M2 = Match(E, t, M.T, M.G, M.fr, M.rk)
                params(M2, ps)
    else:
        params(M, ps)


def params(M, ps):
    E, s = M.E, M.s
    ln = E.veclen(s, ps)
    f = E.lay.field('SQLParserResult', 'parameters_')
    x = E.vecat(s, M.rk, f.off)
    pos = z3.BitVecVal(0, 64)
    iv = E.lay.field('Expr', 'ival')
    for g in x.segs:
        if g[0] == 's' and g[1] == ps:
            M.ok(simp(bv(g[2], 64) == pos), "result.parameters_", f"element {pos} of {ps}", g)
            pos = bv(g[3], 64)
        elif g[0] == 'e' and M.iselem(g[1], ps, pos):
            pos = bv(simp(pos + 1), 64)
        else:
            return M.bad("result.parameters_", "the listed parameters in order", g)
    M.ok(simp(pos == ln), "result.parameters_", "all listed parameters", x.segs)
    # every element carries its position
    i = z3.BitVec("num:i", 64)
    t = s.clone()
    t.pc += [z3.ULT(i, ln)]
    if not E.sat(t):
        return
    ef = s.notes.get(('each', ps))
    M2 = Match(E, t, M.T, M.G, M.fr, M.rk)
    covered = []
    if ef is not None:
        c = ef[2].get(iv.off)
        t2 = t.clone()
        t2.pc += [z3.UGE(i, bv(ef[0], 64)), z3.ULT(i, bv(ef[1], 64))]
        M3 = Match(E, t2, M.T, M.G, M.fr, M.rk)
        if c is None:
            M3.bad("parameter number", "its position", "unset")
        else:
            kk = z3.BitVec("each:" + ps, 64)
            v = simp(z3.substitute(c[1], (kk, i))) if isz(c[1]) else c[1]
            M3.value(v, i, "parameter number", None)
        covered.append(z3.And(z3.UGE(i, bv(ef[0], 64)), z3.ULT(i, bv(ef[1], 64))))
        M3.ok(set(ef[2]) <= {iv.off}, "parameters", "numbers only", sorted(ef[2]))
    for nm, k in list(s.mat.items()):
        e = E.elems.get(nm)
        if e is None or e[0] != ps or k not in s.objs:
            continue
        v = own.fieldget(E, s, k, iv.off, 8)
        M.value(v, bv(e[1], 64), "parameter number", None)
        covered.append(i == bv(e[1], 64))
    M2.ok(simp(z3.Or(*covered)) if covered else False, "parameters", "all numbered", covered)
