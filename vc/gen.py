"""Sentences of the specified language (and near misses) for replaying failed obligations and for the bounded stand-ins."""
import random
import re

INF = 10 ** 9
WORDS = {"EQUALS": ["=="], "NOTEQUALS": ["!=", "<>"], "LESSEQ": ["<="], "GREATEREQ": [">="], "CONCAT": ["||"],
         "CURRENT_ROW": ["CURRENT ROW", "current\t\nrow"], "CHARACTER_VARYING": ["CHARACTER VARYING", "character \n varying"]}
IDENT = ["a", "b", "t", "tab", "col_1", "X", "Foo", "selectx", "\"q x\"", "\"Select\"", "nulls", "id", "_x", "\"'\"", "A1", "\"?\"", "abcdefghijklmnopqrstuvwxyz_0123456789"]
STR = ["'s'", "''", "'it''s'", "'a b;c'", "'--x'", "'\n'", "'xyz'", "''''", "'\"'", "','", "'NULL'", "'%'", "'0'", "'a''b''c'", "'UTF-8'"]
FLT = ["1.5", "0.25", ".5", "3.", "12345678901234567890.5", "0.1"]
INTS = ["0", "1", "2", "3", "7", "10", "42", "007", "9223372036854775807", "255", "256", "1000", "65536", "2147483648", "4294967296"]
SPECIAL = {("file_type", 0): ["csv", "tbl", "binary", "bin", "CSV", "Tbl"],
           ("csv_option", 0): ["DELIMITER", "quote", "Delimiter", "QUOTE"],
           ("opt_null_ordering", 0): ["NULLS", "nulls"], ("opt_null_ordering", 1): ["FIRST", "last", "Last"],
           ("create_statement", 5): ["tbl", "TBL"],
           ("date_literal", 1): ["'2020-01-31'", "'1-1-1'", "'1999-12-31'"],
           ("interval_literal", 1, 3): ["'5'", "'-3'", "'12345678901'"],
           ("interval_literal", 1, 2): ["'5 days'", "'1 SECOND'", "'-7 Months'", "'99999999999 year'", "'3 hours'", "'4 minute'", "'6 years'", "'8 minutes'", "'1 hour'", "'2 seconds'", "'3 month'", "'9 day'"]}
BAD = {("file_type", 0): ["foo", "csvx", "cs"], ("csv_option", 0): ["foo", "delim"], ("opt_null_ordering", 0): ["null_", "x"], ("opt_null_ordering", 1): ["firs", "x"],
       ("create_statement", 5): ["csv", "tblx"], ("date_literal", 1): ["'2020-1'", "'x'", "'2020-01-31 '", "'20200-1-1'", "''", "'2020-01-031'"],
       ("interval_literal", 1, 3): ["'x'", "'5 '", "''", "'5d'", "'1234567890123456789'"],
       ("interval_literal", 1, 2): ["'5 dayz'", "'x days'", "'5'", "'5 days x'", "'5 decadess'", "'9999999999999999999 days'", "'5  day '"]}


class Gen:
    def __init__(self, S, seed=1):
        self.S = S
        self.r = random.Random(seed)
        self.by = {}
        for p in S.prods:
            self.by.setdefault(p.lhs, []).append(p)
        self.min = {}
        ch = True
        while ch:
            ch = False
            for p in S.prods:
                if all(s not in self.by or s in self.min for s in p.rhs):
                    c = 1 + sum(self.min.get(s, 1) for s in p.rhs)
                    if c < self.min.get(p.lhs, INF):
                        self.min[p.lhs] = c
                        ch = True
        self.shortest = {n: min(ps, key=lambda p: 1 + sum(self.min.get(s, 1) for s in p.rhs)) for n, ps in self.by.items()}
        # shortest context of every nonterminal: list of (production, position) from the start symbol
        self.ctx = {S.start: ()}
        todo = [S.start]
        while todo:
            nxt = []
            for n in todo:
                for p in self.by[n]:
                    for i, s in enumerate(p.rhs):
                        if s in self.by and s not in self.ctx:
                            self.ctx[s] = self.ctx[n] + ((p, i),)
                            nxt.append(s)
            todo = nxt
        self.parents = {}
        for p in S.prods:
            for i, s in enumerate(p.rhs):
                if s in self.by:
                    self.parents.setdefault(s, []).append((p, i))

    pool = None     # (numbers, texts) that the examined code mentions

    def ends(self, sym):
        """(unit productions, last production) for every way to derive the symbol through unit productions"""
        if not hasattr(self, '_ends'):
            self._ends = {}
        if sym not in self._ends:
            out, seen, todo = [], {sym}, [(sym, ())]
            while todo:
                n, path = todo.pop(0)
                for p in self.by[n]:
                    if len(p.rhs) == 1 and p.rhs[0] in self.by:
                        if p.rhs[0] not in seen:
                            seen.add(p.rhs[0])
                            todo.append((p.rhs[0], path + (p,)))
                    else:
                        out.append((path, p))
            self._ends[sym] = out
        return self._ends[sym]

    def end(self, e, depth):
        path, p = e
        t = self.expand(p, depth)
        for q in reversed(path):
            t = self.expand(q, depth, {0: t})
        return t

    def crossed(self, p, limit=3000):
        """the production with every pair of alternatives of two of its parts"""
        r = self.r
        ks = [i for i, s in enumerate(p.rhs) if s in self.by]
        jobs = []
        for i in ks:
            jobs += [{i: e} for e in self.ends(p.rhs[i]) for _ in range(6)]
            for j in ks:
                if i < j:
                    jobs += [{i: e, j: f} for e in self.ends(p.rhs[i]) for f in self.ends(p.rhs[j]) for _ in range(2)]
        if not ks:
            jobs = [{}] * 60
        if len(jobs) > limit:
            jobs = r.sample(jobs, limit)
        for fx in jobs:
            t = self.expand(p, r.randrange(3), {i: self.end(e, r.randrange(1, 4)) for i, e in fx.items()})
            yield self.embed(t, 0, .3 if r.random() < .3 else 0)

    WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

    def ident(self):
        r = self.r
        n = r.choice((1, 1, 2, 3, 5, 8, 12, 17, 31, 64))
        if r.random() < .25:
            return '"' + "".join(r.choice(self.WORD + "0123456789 _.,;-'()%\t") for _ in range(n)) + '"'
        while True:
            w = r.choice(self.WORD) + "".join(r.choice(self.WORD * 2 + "0123456789__") for _ in range(n - 1))
            if r.random() < .4:
                w = r.choice((w.upper(), w.lower(), w.capitalize()))
            if w.upper() not in self.S.keywords and w.lower() not in ("current", "character"):
                return w

    def string(self):
        r = self.r
        n = r.choice((0, 1, 1, 2, 3, 5, 9, 15, 16, 33))
        return "'" + "".join(r.choice(self.WORD + "0123456789  _.,;-\"()%\\\t\n").replace("'", "''") for _ in range(n)) + r.choice(("", "", "", " ", "''")) + "'"

    # derivations are trees (production, [subtree or terminal text])

    def term(self, p, i, bad=False):
        s = p.rhs[i]
        r = self.r
        key = (p.lhs, i)
        if key not in SPECIAL:
            key = (p.lhs, i, len(p.rhs))
        if s in ("IDENTIFIER", "STRING") and key in SPECIAL:
            return r.choice(BAD[key] if bad else SPECIAL[key])
        if self.pool and r.random() < .4:
            x = r.choice(self.pool[1]) if self.pool[1] and s in ("IDENTIFIER", "STRING") else None
            if s == "INTVAL" and self.pool[0]:
                return r.choice(self.pool[0])
            if x and s == "IDENTIFIER" and '"' not in x and "\n" not in x and "\0" not in x:
                return x if re.fullmatch(r'[A-Za-z]\w*', x, re.A) and x.upper() not in self.S.keywords and r.random() < .5 else '"' + x * r.choice((1, 1, 1, 3)) + '"'
            if x and s == "STRING" and "\0" not in x:
                y = r.choice((x, x, "a" + x, x + "b", x + x, "a" + x + "b")).replace("'", "''")
                return "'" + y + "'"
        if s == "IDENTIFIER":
            return self.ident() if r.random() < .35 else r.choice(IDENT)
        if s == "STRING":
            return self.string() if r.random() < .3 else r.choice(STR)
        if s == "INTVAL":
            return str(r.getrandbits(r.randrange(1, 64))) if r.random() < .3 else r.choice(INTS)
        if s == "FLOATVAL":
            return f"{r.getrandbits(r.randrange(1, 40))}.{r.choice(['', '0', '00'])}{r.getrandbits(r.randrange(1, 30))}" if r.random() < .3 else r.choice(FLT)
        if s[0] == "'":
            return s[1:-1]
        if s in WORDS:
            return r.choice(WORDS[s])
        return r.choice((s, s, s.lower(), s.capitalize()))

    def tree(self, sym, depth):
        ps = self.by[sym]
        if depth <= 0:
            p = self.shortest[sym]
            if self.r.random() < .3:
                q = self.r.choice(ps)
                if sum(self.min.get(s, 1) for s in q.rhs) < 8:
                    p = q
        else:
            p = self.r.choice(ps)
            for _ in range(3):      # avoid only very long productions at low depth
                if sum(self.min.get(s, 1) for s in p.rhs) <= 4 * depth + 4:
                    break
                p = self.r.choice(ps)
        return self.expand(p, depth)

    def expand(self, p, depth, fixed=None, bad=None):
        out = []
        for i, s in enumerate(p.rhs):
            if fixed and i in fixed:
                out.append(fixed[i])
            elif s in self.by:
                out.append(self.tree(s, depth - 1))
            else:
                out.append(self.term(p, i, bad == i))
        return (p, out)

    def embed(self, t, depth=0, rnd=0.0):
        """put the tree into a complete sentence"""
        n = t[0].lhs
        hops = 0
        while n != self.S.start:
            hops += 1
            if self.r.random() < rnd and hops < 12:
                p, i = self.r.choice(self.parents[n])
            else:
                p, i = self.ctx[n][-1]
            t = self.expand(p, depth, {i: t})
            n = p.lhs
        return t

    def words(self, t, out):
        for x in t[1]:
            if isinstance(x, tuple):
                self.words(x, out)
            else:
                out.append(x)
        return out

    def text(self, t, sep=None):
        return self.join(self.words(t, []), sep)

    SEPS = [" ", " ", " ", "  ", "\n", "\t", "\r\n", " -- c'\"\n", "\n--\n"]

    def join(self, ws, sep=None):
        if sep is None:
            return " ".join(ws).encode('latin1')
        out = ""
        for w in ws:
            out += (self.r.choice(self.SEPS) if out or self.r.random() < .2 else "") + w
        return (out + (self.r.choice(self.SEPS) if self.r.random() < .3 else "")).encode('latin1')

    def unit_targets(self, sym):
        """productions reachable from the symbol through productions that only pass a single symbol on, with the way there"""
        if not hasattr(self, '_ut'):
            self._ut = {}
        if sym in self._ut:
            return self._ut[sym]
        seen, out, todo = {sym}, [], [(sym, ())]
        while todo:
            n, way = todo.pop(0)
            for p in self.by[n]:
                if len(p.rhs) == 1 and p.rhs[0] in self.by:
                    if p.rhs[0] not in seen:
                        seen.add(p.rhs[0])
                        todo.append((p.rhs[0], way + (p,)))
                    else:
                        pass
                else:
                    out.append((p, way))
        self._ut[sym] = out
        return out

    def wrap(self, t, way):
        for p in reversed(way):
            t = (p, [t])
        return t

    def pairs(self, prods=None, n=1):
        """every production with every production at each of its positions"""
        for p in self.S.prods:
            if prods is not None and p not in prods:
                continue
            for _ in range(n):
                yield self.embed(self.expand(p, 1))
            for i, s in enumerate(p.rhs):
                if s not in self.by:
                    key = (p.lhs, i) if (p.lhs, i) in BAD else (p.lhs, i, len(p.rhs))
                    if s in ("IDENTIFIER", "STRING") and key in BAD:
                        for _ in range(3 * n):
                            yield self.embed(self.expand(p, 1, bad=i))
                        for _ in range(4 * n):
                            yield self.embed(self.expand(p, 1))
                    continue
                for q, way in self.unit_targets(s):
                    for _ in range(n):
                        yield self.embed(self.expand(p, 0, {i: self.wrap(self.expand(q, 1), way)}))

    def random(self, sym=None, depth=6, rnd=.4):
        t = self.tree(sym or self.S.start, depth)
        return self.embed(t, 1, rnd)

    def mutate(self, ws):
        """near misses: words deleted, duplicated, exchanged or inserted"""
        ws = list(ws)
        for _ in range(self.r.choice((1, 1, 1, 2))):
            k = self.r.randrange(len(ws)) if ws else 0
            c = self.r.randrange(6)
            if c == 0 and ws:
                del ws[k]
            elif c == 1 and ws:
                ws.insert(k, ws[self.r.randrange(len(ws))])
            elif c == 2 and len(ws) > 1:
                j = self.r.randrange(len(ws))
                ws[k], ws[j] = ws[j], ws[k]
            elif c == 3:
                s = self.r.choice(self.S.terms)
                ws.insert(k, s[1:-1] if s[0] == "'" else WORDS[s][0] if s in WORDS else {"IDENTIFIER": "a", "STRING": "'s'", "INTVAL": "1", "FLOATVAL": "1.5"}.get(s, s))
            elif c == 4:
                del ws[k:]
            else:
                ws.insert(k, self.r.choice(["$", "&", "'", "\"", "\0", "!", "99999999999999999999", "\x80", "~", "-- x", "''", "#", "\\", "`"]))
        return ws
