"""Reference interpreter of the specification: text -> expected outcome of a parse."""
import re

INT_MAX = (1 << 63) - 1


class Tok:
    __slots__ = ("name", "val", "a", "b", "first", "last")

    def __repr__(self):
        return f"{self.name}@{self.first}"


def lexer(S):
    skip, multi = [], []
    for n, r in S.rules:
        p = re.compile(r.encode(), re.S)
        multi.append((n, p))
    kw = {k.encode(): k for k in S.keywords}
    return multi, kw


def tokens(S, text):
    """the tokens of a text (bytes), ending with the end marker $end"""
    if not hasattr(S, 'lex'):
        S.lex = lexer(S)
    multi, kw = S.lex
    out = []
    i, n = 0, len(text)
    line = col = 0

    def adv(b):
        nonlocal line, col
        k = b.count(b"\n")
        if k:
            line += k
            col = len(b) - b.rindex(b"\n") - 1
        else:
            col += len(b)
    while i < n:
        best, name = 0, None
        c = text[i:i + 1]
        if c == b"'":
            # a string: its end has to be found
            j = i + 1
            while True:
                k = re.compile(rb"['\0]").search(text, j)
                if k is None:
                    best, name = n - i, 'INVALID'
                    break
                k = k.start()
                if text[k] == 0:
                    best, name = k + 1 - i, 'INVALID'
                    break
                if text[k + 1:k + 2] == b"'":
                    j = k + 2
                    continue
                best, name = k + 1 - i, 'STRING'
                break
        else:
            for nm, p in multi:
                m = p.match(text, i)
                if m and m.end() - i > best:
                    best, name = m.end() - i, nm
            if name is None:
                best, name = 1, 'INVALID'
            elif '/' in name:
                name, best = name.split('/')[0], int(name.split('/')[1])
        b = text[i:i + best]
        first = (line, col)
        adv(b)
        if name != 'skip':
            t = Tok()
            t.a, t.b, t.first, t.last, t.val = i, i + best, first, (line, col), None
            if name == 'IDENTIFIER.plain' and b.upper() in kw:
                name = kw[b.upper()]
            elif name == 'IDENTIFIER.plain':
                name, t.val = 'IDENTIFIER', b
            elif name == 'IDENTIFIER.quoted':
                name, t.val = 'IDENTIFIER', b[1:-1]
            elif name == 'STRING':
                t.val = b[1:-1].replace(b"''", b"'")
            elif name == 'INTVAL':
                t.val = int(b)
                if not -(1 << 63) <= t.val <= INT_MAX:
                    name = 'INVALID'
            elif name == 'FLOATVAL':
                t.val = float(b) if b != b'.' else 0.0
            elif name == 'char':
                name = "'" + b.decode() + "'"
            t.name = name
            out.append(t)
            if name == 'INVALID' and best == n - i and c == b"'":
                pass
        i += best
    t = Tok()
    t.name, t.val, t.a, t.b, t.first, t.last = '$end', None, n, n, (line, col), (line, col)
    out.append(t)
    return out


class Reject(Exception):
    pass


class Node:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.f.items())})"


class Set(frozenset):
    pass


STMT = {"SelectStatement": "kStmtSelect", "ImportStatement": "kStmtImport", "InsertStatement": "kStmtInsert", "UpdateStatement": "kStmtUpdate", "DeleteStatement": "kStmtDelete",
        "CreateStatement": "kStmtCreate", "DropStatement": "kStmtDrop", "PrepareStatement": "kStmtPrepare", "ExecuteStatement": "kStmtExecute", "ExportStatement": "kStmtExport",
        "AlterStatement": "kStmtAlter", "ShowStatement": "kStmtShow", "TransactionStatement": "kStmtTransaction"}
DERIVED = {"TableConstraint": ("TableConstraint", "ForeignKeyConstraint"), "ColumnDefinition": ("ColumnDefinition",)}
# defaults that are not zero (enumerators)
DEFAULT = {("ImportExportOptions", "format"): "kImportAuto"}
ENUM_DEFAULT = {("LockingClause", "rowLockMode"): None}
UNITS = {b"second": "kDatetimeSecond", b"minute": "kDatetimeMinute", b"hour": "kDatetimeHour", b"day": "kDatetimeDay", b"month": "kDatetimeMonth", b"year": "kDatetimeYear"}

WS = rb'[ \t\n\v\f\r]*'


def _date(b):
    # %4d-%2d-%2d over the whole string: widths count the sign
    return _scan(b, (4, b'-', 2, b'-', 2)) is not None


def _scan(b, pat):
    """sscanf conversions: integers with maximal width (leading white space skipped), literals"""
    i, out = 0, []
    for p in pat:
        if isinstance(p, int):
            m = re.compile(WS).match(b, i)
            i = m.end()
            m = re.compile(rb'[+-]?[0-9]+').match(b[i:i + p])
            if not m:
                return None
            out.append(int(m[0]))
            i += m.end()
        elif p == 's':
            m = re.compile(WS).match(b, i)
            i = m.end()
            m = re.compile(rb'[^ \t\n\v\f\r]{1,7}').match(b, i)
            if not m:
                return None
            out.append(m[0])
            i = m.end()
        else:
            if b[i:i + 1] != p:
                return None
            i += 1
    return out if i == len(b) else None


def cstr(b):
    return b


def _interval(b):
    return _scan(b, (18, 's'))


def _unit(b):
    u = b.lower()
    if u in UNITS:
        return UNITS[u]
    if u[-1:] == b's' and u[:-1] in UNITS:
        return UNITS[u[:-1]]
    return "kDatetimeNone"


class Interp:
    """evaluates the value of a production"""

    def __init__(self, S):
        self.S = S
        self.msg = None

    def compile(self, p):
        import ast
        env = self
        tree = p.act

        class Tr(ast.NodeTransformer):
            def visit_Attribute(s, n):
                s.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id[0].isupper() and not re.match(r'S\d+$', n.value.id):
                    return ast.copy_location(ast.Constant(n.value.id + "." + n.attr.rstrip("_")), n)
                return ast.copy_location(ast.Call(ast.Name('_get', ast.Load()), [n.value, ast.Constant(n.attr)], []), n)

            def visit_Name(s, n):
                if re.match(r'S\d+$', n.id):
                    return ast.copy_location(ast.Subscript(ast.Name('_v', ast.Load()), ast.Constant(int(n.id[1:]) - 1), ast.Load()), n)
                if n.id.startswith('k') or n.id in ('PARAMETER', 'SLICE', 'void', 'any'):
                    return ast.copy_location(ast.Call(ast.Name('_name', ast.Load()), [ast.Constant(n.id)], []), n)
                return n

            def visit_Call(s, n):
                if isinstance(n.func, ast.Name) and n.func.id == 'only':
                    return ast.copy_location(ast.Call(ast.Name('_only', ast.Load()), [s.visit(n.args[0]), ast.Constant(n.args[1].id)], []), n)
                if isinstance(n.func, ast.Name) and n.func.id[0].isupper():
                    kws = [ast.keyword(k.arg, s.visit(k.value)) for k in n.keywords]
                    return ast.copy_location(ast.Call(ast.Name('_new', ast.Load()), [ast.Constant(n.func.id)], kws), n)
                s.generic_visit(n)
                return n
        t = ast.Expression(Tr().visit(tree))
        ast.fix_missing_locations(t)
        import copy
        return compile(t, str(p), 'eval')

    def run(self, text, limit=195):
        """-> dict(valid, msg, line, col, stmts, params) or None when the nesting limit may be exceeded"""
        toks = tokens(self.S, text)
        S = self.S
        st, vals, locs = [0], [None], [((0, 0), (0, 0))]
        i = 0
        self.params, self.pending, self.last = [], None, 0
        self.depth = 0
        last_loc = ((0, 0), (0, 0))
        while True:
            s = S.states[st[-1]]
            t = toks[i]
            sym = t.name
            if len(st) > self.depth:
                self.depth = len(st)
            if len(st) > limit:
                return None
            if sym in s["trans"]:
                if sym == '$end':
                    break
                st.append(s["trans"][sym])
                vals.append(t.val)
                locs.append((t.first, t.last))
                i += 1
                continue
            if sym in s["red"] and sym not in s["errors"]:
                r = s["red"][sym]
            elif sym not in s["errors"] and s["default"]:
                r = s["default"]
            else:
                return {"valid": False, "syntax": True, "msg": None, "line": t.first[0], "col": t.first[1], "tok": i}
            if r == 'accept':
                break
            p = S.bnum[int(r)]
            k = len(p.rhs)
            v = vals[len(vals) - k:]
            self.loc = (locs[-k][0], locs[-1][1]) if k else (locs[-1][1], locs[-1][1])
            self.consumed = toks[i].b
            if p.code is None:
                p.code = self.compile(p)
            try:
                x = eval(p.code, {"_v": v, **self.env()})
            except Reject as e:
                if e.args[0] is None:
                    m, l = self.pending
                else:
                    m, l = e.args[0], self.loc[0]
                return {"valid": False, "syntax": False, "msg": m, "line": l[0], "col": l[1], "tok": i}
            if k:
                del st[-k:], vals[-k:], locs[-k:]
            st.append(S.states[st[-1]]["trans"][p.lhs])
            vals.append(x)
            locs.append(self.loc)
            if p.lhs == S.start:
                self.result = x
        for n, q in enumerate(self.params):
            q.f["ival"] = n
        return {"valid": True, "stmts": self.result, "params": self.params}

    def env(self):
        if hasattr(self, '_env'):
            return self._env

        def _get(x, f):
            if isinstance(x, dict):
                return x[f]
            return x.f.get(f, DEFAULT.get((x.cls, f)))

        def _name(n):
            if n == 'PARAMETER':
                q = Node('Expr', {"type": "kExprParameter", "ival2": len(self.params)})
                self.params.append(q)
                return q
            if n == 'SLICE':
                x = self.consumed - self.last
                self.last = self.consumed
                return x
            return None if n in ('void', 'any') else n

        def _new(c, **kw):
            n = Node(c, kw)
            return n

        def upd(x, **kw):
            n = Node(x.cls, dict(x.f, **kw))
            if x in self.params:        # identity of parameters
                self.params[self.params.index(x)] = n
            return n

        def app(l, x):
            return (l or []) + [x]

        def reject(m=None):
            raise Reject(m)

        def ieq(a, b):
            return cstr(a).lower() == b.lower().encode()

        def pair(a, b):
            return (a, b)

        def csv_add(o, pr):
            f = {"CsvOptionType.Delimiter": "delimiter", "CsvOptionType.Quote": "quote", "CsvOptionType.Null": "null"}[pr[0]]
            o = o or Node('CsvOptions', {})
            if o.f.get(f) is not None:
                reject("CSV options (DELIMITER, NULL, QUOTE) cannot be provided more than once.")
            return Node('CsvOptions', dict(o.f, **{f: pr[1]}))

        def column(n, t, cs, refs):
            notnull = "ConstraintType.NotNull" in cs or "ConstraintType.PrimaryKey" in cs
            if notnull and "ConstraintType.Null" in cs:
                self.pending = ("Conflicting nullability constraints for " + n.decode('latin1'), self.loc[0])
            return Node('ColumnDefinition', {"name": n, "type": t, "column_constraints": cs, "references": refs, "nullable": not notnull})
        self._env = {"_get": _get, "_name": _name, "_new": _new, "upd": upd, "app": app, "reject": reject, "ieq": ieq, "pair": pair, "csv_add": csv_add, "column": column,
                     "_only": lambda l, c: [x for x in l if x.cls in DERIVED[c]], "pending_error": lambda: self.pending is not None, "setof": lambda *a: Set(a), "add": lambda s, x: Set(s | {x}),
                     "ipair": lambda a, b: {"first": a, "second": b}, "struct": lambda **k: k, "result": lambda l: l, "isdate": _date, "isduration": lambda b: _scan(b, (18,)) is not None,
                     "isinterval": lambda b: _interval(b) is not None, "unit": lambda b: _unit(_interval(b)[1]), "duration": lambda b: (_scan(b, (18,)) or _interval(b))[0]}
        return self._env
