"""Texts that exercise the code of a failed unit: its productions in all combinations of their parts, with the constants of its code."""
import re
from . import bounded


def constants(T, fns):
    """numbers and texts the functions compare with"""
    ints, strs = set(), set()
    M = getattr(T, 'M', None)
    if M is None:
        return [], []

    def val(v, op):
        if v is None:
            return
        if v.k == 'int' and op in ('icmp', 'switch', 'and', 'urem', 'srem', 'udiv', 'sdiv', 'shl', 'lshr', 'ashr', 'add', 'sub', 'mul', 'call', 'select', 'phi'):
            w = v.ty.w if v.ty is not None and v.ty.k == 'int' else 64
            if w > 1:
                x = v.v - (1 << w) if v.v >> (w - 1) else v.v
                ints.update((x, x + 1, x - 1))
                if op in ('shl', 'lshr', 'ashr') and 0 < x < 64:
                    ints.add(1 << x)
        elif v.k == 'glob' and v.v in getattr(M, 'gl_ref', ()):
            try:
                init = M.glob(v.v)[1]
            except Exception:
                return
            if init is not None and init.k == 'str':
                strs.add(init.v.rstrip(b"\0")[:200])
        for o in v.ops or ():
            if hasattr(o, 'k'):
                val(o, op)
    for f in fns:
        f = f.split(':')[0]
        d = T.dem.get(f, f)
        if not re.match(r'(?:[\w:*&<> ]+ )?hsql::', d) and 'lambda' not in d or f not in M.fn_ref or not M.defined(f):
            continue
        try:
            F = M.fn(f)
        except Exception:
            continue
        for B in (F.blocks.values() if isinstance(F.blocks, dict) else F.blocks):
            for I in B.insts:
                for v in I.ops or ():
                    if hasattr(v, 'k'):
                        val(v, I.op)
                if I.op == 'switch':
                    for x in I.x if isinstance(I.x, (list, tuple)) else ():
                        for y in x if isinstance(x, (list, tuple)) else (x,):
                            if isinstance(y, int):
                                ints.add(y)
                if I.op in ('trunc', 'sext', 'zext'):
                    t = I.ty
                    if t is not None and t.k == 'int' and 1 < t.w < 64 and I.op == 'trunc':
                        ints.update(((1 << t.w), (1 << t.w) - 1, 1 << (t.w - 1), (1 << t.w) + 1))
    return sorted(x for x in ints if abs(x) < 1 << 63), sorted(strs)


def sized(n, prop):
    """texts in which something occurs n times"""
    out = []
    if not 1 < n <= 1 << 21:
        return out
    for head, tail in (("SELECT ", "b"), ("SELECT ", " FROM t)"), ("SELECT a FROM t -- ", "\n;"), ("SELECT '", "'")):
        if n > len(head) + len(tail):
            out.append(head + "a" * (n - len(head) - len(tail)) + tail)
    out += ["SELECT a" + " " * n + "FROM t; SELECT b", "SELECT a" + " " * n + "FROM FROM", "SELECT a" + "\n" * n + "FROM FROM", "SELECT a" + "\n" * n + "FROM t; SELECT b", "SELECT a" + "\n" * n + "  FROM $", "SELECT a -- " + "x" * n]
    if n <= 70000:
        out += ["SELECT a" + "\n" * n + " " * n + "FROM FROM", "SELECT " + ",".join(["1"] * n)]
    if n <= 70000 and prop in ("C12", "C02", "C01", "C03"):
        out += ["SELECT " + ",".join(["?"] * n)]
    if n <= 5000:
        out += [";".join(["SELECT ?"] * n), "SELECT 1;" * n, "SELECT 1;" * n + " x", "SELECT f(" + ",".join(["a"] * n) + ")", "SELECT a FROM t WHERE b IN (" + ",".join(["c"] * n) + ")"]
    return [x.encode() for x in out]


def directed(ctx, r):
    """r.prods: productions (lhs, rhs) the unit is about; otherwise the property's corpus with another seed"""
    C = bounded.Corpus(ctx.S, ctx.seed + 17)
    out = []
    ints, strs = constants(ctx.T, r.fns)
    small = [x for x in ints if 1 < x <= 400]
    C.G.pool = ([str(x) for x in ints if x >= 0] or None, [s for s in (x.decode('latin1') for x in strs) if 0 < len(s) < 60] + [chr(x) for x in ints if 32 <= x < 127])
    rs = getattr(r, 'prods', None) or ()
    ps = [p for p in ctx.S.prods if (p.lhs, tuple(p.rhs)) in rs]
    if ps:
        t = C.productions(ps, 60 if len(ps) > 3 else 300)
        for p in ps[:8]:
            t += [C.text(x) for x in C.G.crossed(p, 3500 if len(ps) < 3 else 800)]
        out += t
        out += C.truncated(t[:60])
        for x in t[:80]:
            ws = x.split(b" ")
            k = C.r.randrange(len(ws) + 1)
            out.append(b" ".join(ws[:k] + [C.r.choice([b"FROM", b"$", b"?", b")", b"'x'", b"5"])] + ws[k:]))
        near = {p.lhs for p in ps} | {s for p in ps for s in p.rhs}
        if small:
            out += C.lists(near, sorted({y for x in small for y in (x, x + 1)})[:40])
            out += C.lists((), sorted(set(small))[:12])
    texts = getattr(r, 'texts', None)
    if texts:
        out += list(texts)
    if not rs or ctx.id in ("C12", "C13", "C15", "C02", "C03"):
        for n in sorted({x for x in ints if x > 1})[:24]:
            out += sized(n, ctx.id)
        for s in strs:
            if 0 < len(s) < 60:
                out += [s + b"SELECT a FROM t", b"SELECT a FROM t" + s, b"SELECT a " + s + b" FROM t", b"SELECT '" + s.replace(b"'", b"''") + b"'", s]
    return out
