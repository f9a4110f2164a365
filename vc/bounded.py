"""Bounded stand-in and replay: texts for every property, run through the real code (sanitized build) and compared with the
reference interpreter of the specification. Finds the failing input for a failed obligation; never counts as a proof."""
import re
import random
from . import gen as gn

LITERAL = {"literal", "string_literal", "bool_literal", "num_literal", "int_literal", "null_literal", "date_literal", "interval_literal", "datetime_field", "datetime_field_plural",
           "duration_field", "extended_literal", "casted_extended_literal"}
OPERATOR = {"unary_expr", "binary_expr", "logic_expr", "in_expr", "comp_expr", "between_expr", "exists_expr", "operand", "expr"}
SELECT = {"select_statement", "select_within_set_operation", "select_within_set_operation_no_parentheses", "select_with_paren", "select_no_paren", "set_operator", "set_type", "opt_all",
          "select_clause", "opt_distinct", "select_list", "opt_from_clause", "from_clause", "opt_where", "opt_group", "opt_having", "opt_order", "order_list", "order_desc", "opt_order_type",
          "opt_null_ordering", "opt_top", "opt_limit", "opt_locking_clause", "opt_locking_clause_list", "locking_clause", "row_lock_mode", "opt_row_lock_policy", "opt_with_clause", "with_clause",
          "with_description_list", "with_description"}
EXPR = {"expr_list", "expr_alias", "case_expr", "case_list", "exists_expr", "in_expr", "function_expr", "opt_window", "opt_partition", "opt_frame_clause", "frame_type", "frame_bound", "extract_expr", "cast_expr",
        "datetime_field", "datetime_field_plural", "array_expr", "array_index", "column_name", "scalar_expr", "operand", "expr", "table_ref", "table_ref_atomic", "nonjoin_table_ref_atomic", "table_ref_commalist",
        "table_ref_name", "table_ref_name_no_alias", "table_name", "table_alias", "opt_table_alias", "alias", "opt_alias", "join_clause", "opt_join_type", "join_condition", "ident_commalist",
        "column_type", "opt_time_precision", "opt_decimal_specification"}
DDL = {"create_statement", "opt_not_exists", "table_elem_commalist", "table_elem", "column_def", "column_type", "opt_time_precision", "opt_decimal_specification", "opt_column_constraints", "column_constraints",
       "column_constraint", "table_constraint", "references_spec", "drop_statement", "opt_exists", "alter_statement", "alter_action", "drop_action", "opt_index_name", "opt_column_list", "ident_commalist", "table_name", "file_path"}
DATA = {"statement", "preparable_statement", "opt_hints", "hint_list", "hint", "transaction_statement", "opt_transaction_keyword", "prepare_statement", "prepare_target_query", "execute_statement", "import_statement",
        "file_type", "file_path", "opt_import_export_options", "import_export_options", "csv_option", "export_statement", "show_statement", "delete_statement", "truncate_statement", "insert_statement",
        "opt_column_list", "update_statement", "update_clause_commalist", "update_clause", "opt_extended_literal_list", "extended_literal_list", "extended_literal", "casted_extended_literal", "table_name",
        "table_ref_name_no_alias", "ident_commalist", "opt_where"}
SEMANTIC = {"file_type", "csv_option", "import_export_options", "import_statement", "export_statement", "opt_import_export_options", "column_def", "table_elem", "opt_column_constraints", "column_constraints", "column_constraint",
            "create_statement", "table_elem_commalist", "date_literal", "interval_literal", "opt_null_ordering", "order_desc", "extended_literal", "extended_literal_list", "casted_extended_literal", "hint", "execute_statement"}
SLICES = {"input", "statement_list", "statement", "opt_semicolon"}
PARAMS = {"param_expr", "literal", "scalar_expr", "opt_limit", "select_no_paren", "case_expr", "case_list", "between_expr", "in_expr", "statement_list", "insert_statement", "update_statement", "select_clause", "select_statement",
          "select_within_set_operation_no_parentheses", "expr_list", "function_expr", "opt_window", "join_clause", "table_ref", "table_ref_atomic", "with_description", "binary_expr", "comp_expr", "logic_expr", "expr_alias"}
PRODS = {"C06": LITERAL | {"unary_expr", "array_index", "frame_bound", "column_type", "opt_top"}, "C07": OPERATOR, "C08": SELECT, "C09": EXPR, "C10": DDL, "C11": DATA, "C12": PARAMS, "C13": SLICES, "C14": SEMANTIC}

CLASSES = {"C06": {"Expr": {"type", "ival", "fval", "name", "isBoolLiteral", "datetimeField"}, "ColumnType": None, "FrameBound": {"offset"}},
           "C07": {"Expr": {"type", "opType", "expr", "expr2", "exprList", "select", "ival", "name"}},
           "C08": {c: None for c in ("SelectStatement", "OrderDescription", "LimitDescription", "GroupByDescription", "SetOperation", "WithDescription", "LockingClause")},
           "C09": {c: None for c in ("Expr", "TableRef", "JoinDefinition", "Alias", "WindowDescription", "FrameDescription", "FrameBound", "OrderDescription", "ColumnType")},
           "C10": {c: None for c in ("CreateStatement", "DropStatement", "AlterStatement", "DropColumnAction", "AlterAction", "ColumnDefinition", "ColumnType", "TableConstraint", "ForeignKeyConstraint", "TableElement", "ReferencesSpecification")},
           "C11": {c: None for c in ("ImportStatement", "ExportStatement", "CsvOptions", "InsertStatement", "UpdateStatement", "UpdateClause", "DeleteStatement", "PrepareStatement", "ExecuteStatement", "ShowStatement",
                                     "TransactionStatement", "TableRef", "SQLStatement")}}


def lastclass(path):
    p = re.sub(r'\[\d+\]', '', path).split("/")
    for x in reversed(p):
        m = re.match(r'(\w+)\.(\w+)', x)
        if m:
            return m[1], m[2]
    return None, None


def astrel(prop, d):
    kind, path = d[0], d[1]
    if kind == 'accessor':
        return False
    c, f = lastclass(path)
    if c is None:
        return True
    if path.endswith("/class"):
        return True
    if f == 'hints' or c == 'Expr' and 'hints' in path:
        return prop in ("C08", "C11")
    # a part that is absent, or of another length, belongs to the node that should have it
    k = CLASSES[prop].get(c, 0)
    return k is None or k != 0 and f in k


def relevant(prop, d):
    """the difference contradicts the property"""
    k = d[0]
    if k == 'crash':
        return prop in ("C01", "C06", "C07", "C08", "C09", "C10", "C11", "C14", "C12")
    if prop == "C01":
        return k == 'leak'
    if prop == "C02":
        return k in ('moved', 'history')
    if prop == "C03":
        return k in ('outcome', 'variant')
    if prop == "C04":
        return k in ('variant', 'accept', 'reject', 'ast', 'semantic')
    if prop == "C05":
        return k in ('accept', 'reject', 'ast', 'semantic')
    if prop in CLASSES:
        return k in ('reject', 'semantic') or k == 'ast' and astrel(prop, d) or prop == "C06" and k == 'accept'
    if prop == "C12":
        return k == 'param'
    if prop == "C13":
        return k == 'slice'
    if prop == "C14":
        return k == 'semantic' or k == 'accept' or k == 'message'
    if prop == "C15":
        return k == 'position'
    if prop == "C16":
        return k in ('changed', 'printcrash')
    if prop == "C17":
        return k == 'differs'
    if prop == "C18":
        return k == 'tokens'
    if prop == "C19":
        return k in ('accessor', 'value')
    if prop == "C20":
        return k in ('accept', 'reject')
    return False


MODES = {"C01": "dm", "C03": "ds", "C04": "ds", "C02": "drh", "C16": "dp", "C17": "dr", "C18": "dt", "C19": "dc"}


class Corpus:
    def __init__(self, S, seed):
        self.S, self.G = S, gn.Gen(S, seed)
        self.r = random.Random(seed)

    def text(self, t, plain=False):
        return self.G.text(t, None if plain else 1)

    def pairs(self, names=None, n=1, plain=False):
        ps = None if names is None else {p for p in self.S.prods if p.lhs in names}
        return [self.text(t, plain) for t in self.G.pairs(ps, n)]

    def productions(self, ps, n=40):
        """sentences through given productions in many contexts"""
        out = []
        ps = set(ps)
        for p in sorted(ps, key=lambda p: p.num):
            for k in range(n):
                out.append(self.text(self.G.embed(self.G.expand(p, k % 4), k % 3, .3 * (k % 3)), k % 2 == 0))
        out += [self.text(t) for t in self.G.pairs(ps, max(1, n // 10))]
        return out

    def random(self, n, depth=6):
        return [self.text(self.G.random(depth=depth)) for _ in range(n)]

    def mutants(self, n, depth=4):
        return [self.G.join(self.G.mutate(self.G.words(self.G.random(depth=depth), [])), 1) for _ in range(n)]

    def truncated(self, texts):
        """every prefix at a word boundary: rejected in every parser state"""
        out = []
        for t in texts:
            ws = t.split(b" ")
            for k in range(1, len(ws)):
                out.append(b" ".join(ws[:k]))
                if self.r.random() < .5:
                    out.append(b" ".join(ws[:k]) + b" " + self.r.choice([b")", b"SELECT", b"x", b"'s'", b"5", b",", b"$", b"FROM", b"'unterminated", b"\"q"]))
        return out

    def lexical(self, n=1):
        """bytes of every value in every lexical environment, neighbouring tokens without blanks, comments and line ends"""
        out = []
        envs = [b"%s", b"SELECT a%sb FROM t", b"SELECT a FROM t%s", b"SELECT a FROM t %s WHERE x", b"SELECT 'a%sb' FROM t", b"SELECT \"a%sb\" FROM t", b"SELECT a -- c%sd\nFROM t", b"%sSELECT a", b"SELECT a; %s DELETE FROM t",
                b"SELECT 1%s2", b"SELECT a FROM t; -- %s", b"SELECT 1.%s", b"SELECT 'a'%s'b'"]
        for e in envs:
            for c in range(256):
                out.append(e.replace(b"%s", bytes([c])))
        for x in (b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xc2\xa0", b"\xe2\x80\x8b", b"\xe3\x80\x80", b"\x1a", b"\0\0", b"\\", b"\\n", b"`", b"/*", b"/* x */", b"#", b"//", b"\r", b"\r\n", b"\f", b"\v", b"\x1b[0m", b"!", b"@", b"$", b"$$",
                  b"{", b"}", b"[", b"]", b"~", b"&", b"\x7f", b"\x80", b";", b";;", b"; ;", b"--", b"--\0", b"-- \r", b"..", b"0x1", b"\\q", b"GO", b"\ngo", b"\nEOF", b"\n.", b"/"):
            out += [x + t for t in (b"SELECT a FROM t", b" SELECT a FROM t;", b"\nSELECT 'a' FROM t -- x")] + [t + x for t in (b"SELECT a FROM t", b"SELECT a FROM t;", b"SELECT a FROM t ", b"SELECT a FROM t;\n", b"SELECT a FROM t; SELECT 1", b"SELECT a FROM t -- x\n")] + \
                [b"SELECT a " + x + b" FROM t", b"SELECT a FROM t; " + x + b"SELECT 1", b"SELECT a FROM t;\n" + x + b"\nSELECT 1", x + b"SELECT a FROM t" + x, x]
        frag = [b"--", b"-- x", b"-", b"\n", b"\r", b"\r\n", b"\t", b" ", b"'", b"''", b"'''", b"\"", b"\"\"", b"a", b"1", b".", b"1.5", b".5", b"*", b"=", b"==", b"!=", b"!", b"<>", b"<", b"<=", b">", b">=", b"||", b"|", b";",
                b"(", b")", b",", b"?", b"\0", b"%", b"^", b"+", b"/", b"[", b"]", b"AND", b"is", b"Null", b"CURRENT ROW", b"CURRENT", b"ROW", b"character varying", b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808",
                b"\x80", b"_", b"$", b":", b"{", b"}", b"\f", b"\v", b"\b", b"/*", b"*/", b"#", b"a1_", b"\"a b\""]
        for x in frag:
            for y in frag:
                out.append(b"SELECT a" + x + y + b"b FROM t")
        for _ in range(4000 * n):
            k = self.r.randrange(1, 6)
            out.append(self.r.choice([b"SELECT a", b"SELECT ", b"", b"SELECT 'x", b"SELECT \"x"]) + b"".join(self.r.choice(frag) + self.r.choice([b"", b"", b" "]) for _ in range(k)) + self.r.choice([b"", b" FROM t", b"' FROM t", b"; SELECT 1"]))
        return out

    def names(self, names=None, n=8):
        """every identifier of every production in many spellings"""
        out = []
        for p in sorted((p for p in self.S.prods if (names is None or p.lhs in names) and ("IDENTIFIER" in p.rhs or "STRING" in p.rhs)), key=lambda p: p.num):
            for c in self.r.sample(self.G.WORD, n):
                d = {}
                for i, s in enumerate(p.rhs):
                    if s == "IDENTIFIER" and (p.lhs, i) not in gn.SPECIAL:
                        d[i] = self.r.choice((c, c + self.G.ident().strip('"').replace(" ", "")[:9] + "1", '"' + c + self.G.ident().strip('"') + '"'))
                        if d[i].upper() in self.S.keywords:
                            d[i] = c
                out.append(self.text(self.G.embed(self.G.expand(p, 1, d), 0, .2), True))
        return out

    def words(self, n=1):
        """every keyword in every use: alone, in mixed case, as the beginning and the end of a longer word"""
        out = []
        ks = list(self.S.keywords) + ["CURRENT ROW", "CURRENT", "ROW", "CHARACTER VARYING", "CHARACTER", "VARYING"]
        for k in ks:
            mixed = "".join(c.upper() if self.r.random() < .5 else c.lower() for c in k)
            for w in {k, k.lower(), k.capitalize(), mixed, k + "x", "x" + k, k + "_", k + "1", k[:-1], "\"" + k + "\"", k + "$"}:
                w = w.encode()
                out += [b"SELECT " + w + b" FROM t", b"SELECT a " + w + b" b FROM t", b"SELECT a FROM t " + w + b" b", w + b" a"]
        for t in self.pairs(plain=True, n=1)[::max(1, 3 // n)]:
            s = bytearray(t)
            q = None
            for i, c in enumerate(s):
                ch = chr(c)
                if q:
                    q = None if ch == q else q
                elif ch in "'\"":
                    q = ch
                elif ch.isalpha() and self.r.random() < .5:
                    s[i] = ord(ch.swapcase())
            out.append(bytes(s))
        return out

    def spaced(self, n=1500):
        """one sentence in different layouts"""
        out = []
        for _ in range(n):
            ws = self.G.words(self.G.random(depth=5), [])
            out.append(self.G.join(ws))
            out.append(self.G.join(ws, 1))
            out.append(self.tight(ws))
        return out

    def tight(self, ws):
        """no blanks where none are needed"""
        out = ""
        for w in ws:
            if out and (re.match(r'[A-Za-z0-9_.]', w) and re.search(r'[A-Za-z0-9_.]$', out) or out[-1:] in "=!<>|-'\"" and w[:1] in "=>|-'\"" or out[-1:] == "-" and w[:1].isdigit()):
                out += " "
            out += w
        return out.encode("latin1")

    def numbers(self):
        out = []
        nums = ["0", "1", "7", "9", "10", "00", "007", "0000000000000000000000012", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
                "18446744073709551615", "18446744073709551616", "99999999999999999999", "0.0", "1.0", "1.", ".5", "0.1", "3.14159265358979323846", "123456789.123456789", "9223372036854775807.0", "9223372036854775808.0", "1e5", "0x10", "1.5.2", "1..2", "."]
        nums += [str(self.r.getrandbits(self.r.randrange(1, 66))) for _ in range(120)]
        nums += [f"{self.r.getrandbits(self.r.randrange(1, 60))}.{self.r.getrandbits(self.r.randrange(1, 50))}" for _ in range(80)]
        for x in nums:
            for e in ("SELECT %s", "SELECT -%s", "SELECT - %s", "SELECT a FROM t WHERE b = %s", "SELECT 1-%s", "SELECT a-%s", "SELECT a - -%s", "INSERT INTO t VALUES (%s, -%s)", "SELECT a[%s]", "SELECT a FROM t LIMIT %s", "SELECT TOP %s a FROM t",
                      "SELECT (%s)", "SELECT %s.5", "SELECT -%s.5", "EXECUTE p(%s, -%s)", "SELECT %s DAYS", "SELECT INTERVAL '%s' DAY", "SELECT INTERVAL '%s days'", "CREATE TABLE t (a VARCHAR(%s))", "CREATE TABLE t (a DECIMAL(%s, 3))", "CREATE TABLE t (a TIME(%s), b CHAR(%s))",
                      "SELECT SUM(a) OVER (ORDER BY b ROWS BETWEEN %s PRECEDING AND %s FOLLOWING) FROM t", "SELECT %s AS x", "SELECT CASE WHEN %s THEN -%s END"):
                out.append(e.replace("%s", x).encode())
        return out

    def strings(self):
        out = []
        parts = ["a", "''", " ", "\n", "--", ";", "\"", "\\", "\\'", "%", "x'y" if False else "é", "\r\n", "\t", "/*", "A", "0"]
        strs = ["'" + "".join(self.r.choice(parts) for _ in range(self.r.randrange(0, 7))) + "'" for _ in range(250)] + ["''", "''''", "''''''", "'a'", "'a''b'", "'''a'", "'a'''"]
        for s in strs:
            for e in ("SELECT %s", "SELECT a FROM t WHERE b = %s AND c = 1", "SELECT %s, %s", "INSERT INTO t VALUES (%s)", "PREPARE x FROM %s", "IMPORT FROM CSV FILE %s INTO t"):
                out.append(e.replace("%s", s).encode("latin1"))
        for s in ("2020-01-02", "2020-1-2", "0001-01-01", "9999-99-99", "2020-01", "2020-01-02x", "x", "", " 2020-01-02", "2020- 1- 2", "20200-01-02", "2020-001-02", "-200-01-02", "2020/01/02", "+202-01-02", "2020-01-02 ", "2020-01-2 3", "12-3-4", "1-1-1"):
            out.append(f"SELECT DATE '{s}'".encode())
            out.append(f"INSERT INTO t VALUES (DATE '{s}', 1)".encode())
        units = ["second", "minute", "hour", "day", "month", "year"]
        for q in ("5", "-5", "+5", "0", "007", "123456789012345678", "1234567890123456789", "-99999999999999999", "", "x", "5.5", "2147483648", "99999999999"):
            for u in units:
                for v in (u, u + "s", u.upper(), u.capitalize() + "S", u[:-1], u + "x", u + " ", "x" + u):
                    out.append(f"SELECT INTERVAL '{q} {v}'".encode())
                    out.append(f"SELECT INTERVAL '{q}{v}' , INTERVAL '{q}' {v}".encode())
        return out

    def operators(self, n=1):
        """chains of operators, with and without parentheses"""
        bins = ["OR", "AND", "=", "==", "!=", "<>", "<", ">", "<=", ">=", "LIKE", "NOT LIKE", "ILIKE", "+", "-", "*", "/", "%", "^", "||"]
        pre = ["", "", "", "-", "NOT ", "- ", "NOT NOT "]
        post = ["", "", "", " IS NULL", " IS NOT NULL", " ISNULL", "[1]", " IN (1, 2)", " NOT IN (c)", " BETWEEN 1 AND 2", " BETWEEN 9 AND 3", " BETWEEN 'b' AND 'a'", " BETWEEN 2.5 AND 1", " BETWEEN c AND 1", " IN (SELECT 1)"]
        ops = ["a", "b", "1", "7", "0.5", "'s'", "NULL", "TRUE", "?", "t.a", "*" if False else "t.b", "f(x)", "(a)", "(a OR b)", "(SELECT 1)", "CASE WHEN a THEN b END", "EXISTS (SELECT 1)", "(a = b)", "(- a)"]
        out = []
        for x in bins:
            for y in bins:
                out.append(f"SELECT a {x} b {y} c")
                for p in ("-", "NOT "):
                    out += [f"SELECT {p}a {x} b {y} c", f"SELECT a {x} {p}b {y} c"]
                for q in post[3:]:
                    out += [f"SELECT a {x} b{q}", f"SELECT a{q} {x} b {y} c", f"SELECT a {x} b{q} {y} c"]
                out += [f"SELECT (a {x} b) {y} c", f"SELECT a {x} (b {y} c)", f"SELECT a BETWEEN b {x} c AND d {y} e"]
        for _ in range(3000 * n):
            k = self.r.randrange(2, 6)
            s = ""
            for i in range(k):
                s += (" " + self.r.choice(bins) + " " if i else "") + self.r.choice(pre) + self.r.choice(ops) + self.r.choice(post)
            out.append("SELECT " + s)
        return [x.encode() for x in out]

    def multi(self, n=800):
        """statement lists with all kinds of layout around the semicolons"""
        out = []
        blanks = [b"", b"", b" ", b"\n", b"  ", b"-- c;'\n", b" -- c\n\n", b"\t\r\n", b"--\n"]
        for _ in range(n):
            k = self.r.randrange(1, 5)
            s = self.r.choice(blanks)
            for i in range(k):
                st = self.text(self.G.embed(self.G.tree("statement", self.r.randrange(0, 4))), self.r.random() < .5) if False else self.G.join(self.G.words(self.G.tree("statement", self.r.randrange(0, 4)), []), None if self.r.random() < .3 else 1)
                s += (b";" if i else b"") + self.r.choice(blanks) + st + self.r.choice(blanks)
            s += self.r.choice([b"", b";", b" ; ", b";\n", b"; -- end", b" -- end"])
            out.append(s)
        return out

    def params(self, n=1200):
        """question marks everywhere"""
        out = []
        for _ in range(n):
            t = self.G.join(self.G.words(self.G.random(depth=5), []), 1)
            ws = t.split(b" ")
            out.append(b" ".join(b"?" if w in (b"1", b"7", b"42", b"'s'", b"1.5", b"TRUE", b"NULL", b"0.25", b"''", b"a", b"b", b"0") and self.r.random() < .6 else w for w in ws))
        hand = ["SELECT ?", "SELECT ?, ? FROM t WHERE a = ? AND b IN (?, ?) LIMIT ? OFFSET ?", "SELECT * FROM t WHERE a = ? ; SELECT ? ; DELETE FROM t WHERE b = ?", "INSERT INTO t VALUES (?, 1)", "UPDATE t SET a = ?, b = ? WHERE c = ?",
                "SELECT CASE ? WHEN ? THEN ? ELSE ? END", "SELECT a FROM t WHERE x BETWEEN ? AND ?", "SELECT (SELECT ? FROM s WHERE ?) FROM t WHERE ?", "WITH w AS (SELECT ?) SELECT ? FROM w", "SELECT ? UNION SELECT ? ORDER BY ? LIMIT ?",
                "SELECT f(?, ?) OVER (PARTITION BY ? ORDER BY ?) FROM t", "SELECT a FROM t JOIN s ON ? = ? WHERE ?", "SELECT ?[1], ARRAY[?, ?]", "SELECT a FROM t ORDER BY ?, ? DESC", "SELECT a FROM t GROUP BY ? HAVING ?", "SELECT -?, NOT ?",
                "SELECT a FROM t WHERE a = ? FOR UPDATE", "COPY t FROM 'f' WHERE a = ?", "COPY (SELECT ?) TO 'f'", "EXECUTE p(?)", "CREATE VIEW v AS SELECT ?", "CREATE TABLE t AS SELECT ? WHERE ?", "SELECT CAST(? AS INT), EXTRACT(YEAR FROM ?)"]
        for k in (17, 33, 129, 300, 1100):
            hand += ["SELECT " + ", ".join(["?"] * k), "; ".join(["SELECT ?, a FROM t WHERE b = ?"] * (k // 2)), "SELECT a FROM t WHERE x IN (" + ", ".join(["?"] * k) + ") LIMIT ?",
                     "INSERT INTO t VALUES (" + ",".join(["?", "1"] * k) + "); SELECT ?"]
        return out + [h.encode() for h in hand]

    def errors(self, n=2500):
        """near misses in all layouts"""
        out = []
        for _ in range(n):
            ws = self.G.words(self.G.random(depth=4), [])
            out.append(self.G.join(self.G.mutate(ws)))
        for t in self.multi(n // 8):
            ws = t.split(b" ")
            k = self.r.randrange(len(ws) + 1)
            out.append(b" ".join(ws[:k] + [self.r.choice([b"FROM", b"$", b"'x", b")", b"\n\n  )", b"-- c\n WHERE WHERE", b"'a\nb' x 'c", b"99999999999999999999"])] + ws[k:]))
        return out

    def deep(self):
        out = []
        for n in (5, 20, 40, 60):
            out += ["SELECT " + "(" * n + "a" + ")" * n, "SELECT " + "-" * 0 + "NOT " * n + "a", "SELECT " + " + ".join(["a"] * n * 3), "SELECT " + "(SELECT " * (n // 4) + "a" + ")" * (n // 4), "SELECT " + ", ".join(["a"] * n * 5),
                    "SELECT a FROM " + ", ".join(["t"] * n), "SELECT a FROM t " + "JOIN s ON x = y " * (n // 3), "SELECT CASE " + "WHEN a THEN b " * n + "END", "; ".join(["SELECT a"] * n), "SELECT a" + " UNION SELECT b" * (n // 3)]
        return [x.encode() for x in out]

    def big(self):
        """sizes beyond the usual small limits: one byte, two bytes, scanner and vector blocks"""
        out = []
        for n in (15, 16, 17, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 4100, 8200, 16500, 33000, 66000):
            out += ["SELECT " + "a" * n + " FROM t", "SELECT '" + "b" * n + "' FROM t", "SELECT \"" + "c" * n + "\" x FROM t", "SELECT a" + " " * n + "FROM t; SELECT b", "SELECT a" + "\n" * n + "FROM t; DELETE FROM s", "SELECT a --" + "z" * n + "\n FROM t; SELECT b",
                    "SELECT a" + "\n" * n + "FROM FROM", "SELECT a" + " " * n + "FROM FROM", "SELECT '" + "b" * n]
            if n < 5000:
                out += ["SELECT a FROM t;" * n, "SELECT " + ",".join(["1"] * n), "SELECT a FROM t WHERE b IN (" + ",".join(["c"] * n) + ")", "SELECT a FROM t;" * n + "x", "SELECT " + " + ".join(["a"] * n), "INSERT INTO t (" + ",".join(["a"] * n) + ") VALUES (" + ",".join(["1"] * n) + ")"]
        # exact lengths of the whole text, with something at the end that matters
        for k in (8, 12, 15, 16, 17):
            for d in (-1, 0, 1):
                n = (1 << k) + d
                for head, tail in (("SELECT ", "b"), ("SELECT ", " b"), ("SELECT ", " FROM t)"), ("SELECT '", "'"), ("SELECT a FROM t -- ", "\n;"), ("SELECT 1; SELECT ", "; x"), ("SELECT a FROM t WHERE ", " = ?")):
                    out.append(head + "a" * (n - len(head) - len(tail)) + tail)
        return [x.encode() for x in out]

    def exhausting(self):
        """deeper than the parser's stack"""
        out = []
        for n in (190, 195, 199, 200, 201, 205, 260, 1000, 9000, 20000):
            out += ["SELECT " + "(" * n + "a" + ")" * n, "SELECT " + "NOT " * n + "a", "SELECT " + "(SELECT " * (n // 2) + "a" + ")" * (n // 2), "SELECT a FROM " + "(SELECT b FROM " * (n // 3) + "t" + ") x" * (n // 3), "SELECT 1; SELECT " + "f(" * n + "a" + ")" * n,
                    "INSERT INTO t VALUES (" + "-" .join(["("] * n), "SELECT a FROM t WHERE " + "a = (" * n]
        return [x.encode() for x in out]

    def lists(self, names=None, sizes=(2, 3, 5, 9, 17, 33, 40, 65, 130, 260)):
        """lists of many elements, for every list of the grammar"""
        out = []
        for p in self.S.prods:
            if names is not None and p.lhs not in names or p.lhs not in p.rhs or p.rhs.count(p.lhs) != 1 or len(p.rhs) > 3:
                continue
            base = [q for q in self.G.by[p.lhs] if p.lhs not in q.rhs]
            i = p.rhs.index(p.lhs)
            if not base or i and p.rhs[0][0] == "'":
                continue
            for k in sizes:
                t = self.G.expand(self.r.choice(base), 1)
                for _ in range(k - 1):
                    t = self.G.expand(p, 1, {i: t})
                out.append(self.text(self.G.embed(t, 0), True))
        hand = []
        names = lambda k, f="c{}": ", ".join(f.format(i) for i in range(k))
        for k in sizes:
            hand += ["CREATE TABLE t (" + names(k, "c{} INT") + ")", "CREATE TABLE t (" + names(k, "PRIMARY KEY (c{})") + ", a INT)", "CREATE TABLE t (a INT" + " REFERENCES s (x)" * k + ")",
                     "CREATE TABLE t (" + names(k, "c{0} INT REFERENCES s (x) UNIQUE, FOREIGN KEY (c{0}) REFERENCES u (y)") + ")", "CREATE TABLE t (a INT" + " UNIQUE PRIMARY KEY REFERENCES s" * min(k, 40) + ")", "CREATE TABLE t (a INT" + " NOT NULL UNIQUE" * k + ")",
                     "CREATE INDEX i ON t (" + names(k) + ")", "CREATE VIEW v (" + names(k) + ") AS SELECT 1", "CREATE TABLE t (FOREIGN KEY (" + names(k) + ") REFERENCES s (" + names(k) + "))",
                     "INSERT INTO t (" + names(k) + ") VALUES (" + names(k, "{}") + ")", "UPDATE t SET " + names(k, "c{0} = {0}") + " WHERE a", "EXECUTE p(" + names(k, "{}") + ")",
                     "SELECT " + names(k, "c{0} AS d{0}") + " FROM " + names(k, "t{}"), "SELECT a FROM t ORDER BY " + names(k, "c{} DESC") + " LIMIT 3", "SELECT a FROM t GROUP BY " + names(k) + " HAVING b", "SELECT a FROM t" + " FOR UPDATE OF x" * k,
                     "SELECT a FROM t FOR UPDATE OF " + names(k), "SELECT a FROM t" + " JOIN s ON x = y" * min(k, 130), "SELECT f(" + names(k) + ")", "SELECT ARRAY[" + names(k, "{}") + "]", "SELECT CASE a" + " WHEN b THEN c" * k + " ELSE d END",
                     "SELECT a FROM t WHERE a IN (" + names(k, "{}") + ")", "WITH " + names(k, "w{} AS (SELECT 1)") + " SELECT a", "SELECT a" + " UNION SELECT b" * min(k, 60), "SELECT a FROM t WITH HINT (" + names(k, "h{}") + ")",
                     "SELECT f(a) OVER (PARTITION BY " + names(k) + " ORDER BY " + names(k) + ")", "SELECT a FROM (SELECT 1) AS x (" + names(k) + ")", "SELECT " + "a." + "b" * k, ";".join(["SELECT a"] * k)]
        return out + [x.encode() for x in hand]

    def options(self):
        """all orders of import and export options, with values that matter to CSV files"""
        import itertools
        out = []
        vals = ["','", "'|'", "''''", "'\"'", "''", "'\t'", "'n'", "'NULL'"]
        kinds = ["DELIMITER %s", "QUOTE %s", "NULL %s", "ENCODING %s", "FORMAT CSV"]
        sets = [c for k in (1, 2, 3, 4, 5) for c in itertools.permutations(kinds, k)]
        sets += [c for k in (2, 3) for c in itertools.product(kinds, repeat=k) if len(set(c)) < k]
        for c in sets:
            for j in range(6 if len(c) == 2 else 2):
                o = ", ".join(x.replace("%s", self.r.choice(vals)) for x in c)
                head = self.r.choice(["COPY t FROM 'f'", "COPY t TO 'f'", "COPY (SELECT a FROM t) TO 'f'"])
                out.append(f"{head} WITH ({o})")
        for a in vals:
            for b in vals:
                for x, y in itertools.permutations(kinds[:3], 2):
                    out.append(f"COPY t FROM 'f' WITH ({x}, {y})".replace("%s", a, 1).replace("%s", b, 1))
        return [x.encode() for x in out]

    def conflicts(self):
        """texts with an error that is noticed late, followed by other errors"""
        out = []
        cols = ["a INT NULL NOT NULL", "a INT NOT NULL NULL", "a INT PRIMARY KEY NULL", "a INT NULL UNIQUE NOT NULL", "a VARCHAR(5) NULL PRIMARY KEY REFERENCES s (b)"]
        for c in cols:
            for c2 in ("", ", b INT", ", b INT NULL NOT NULL", ", PRIMARY KEY (a)", ", FOREIGN KEY (a) REFERENCES s (x)"):
                for tail in (")", "", ",", ", FOO BAR", ") x", "))", ", b", "); SELECT 1", "); SELECT FROM", ") WITH", ", $", ", 'x", "); CREATE TABLE u (c INT NULL NOT NULL)"):
                    out.append(f"CREATE TABLE t ({c}{c2}{tail}".encode())
                    out.append(f"SELECT a; CREATE TABLE IF NOT EXISTS t ({c}{c2}{tail}".encode())
        return out


def corpus(prop, S, seed, scale=1):
    C = Corpus(S, seed)
    n = scale
    if prop in ("C06",):
        return C.numbers() + C.strings() + C.pairs(PRODS[prop], n)
    if prop == "C07":
        return C.operators(n) + C.pairs(PRODS[prop], n) + C.lists()[::2]
    if prop in ("C08", "C09", "C10", "C11"):
        ps = [p for p in S.prods if p.lhs in PRODS[prop]]
        return C.pairs(PRODS[prop], 2 * n) + C.productions(ps, 10 * n) + C.random(400 * n) + C.lists() + C.names(PRODS[prop]) + (C.options() if prop == "C11" else [])
    if prop == "C12":
        return C.params(1500 * n) + C.multi(200)
    if prop == "C13":
        return C.multi(1500 * n) + C.pairs(SLICES, n) + C.big()
    if prop == "C14":
        return C.pairs(SEMANTIC, 4 * n) + C.strings() + C.random(300 * n) + C.lists() + C.options()
    if prop == "C15":
        return C.big() + C.errors(3500 * n) + C.lexical(1)[::4] + C.truncated(C.pairs(n=1)[::9])
    if prop == "C20":
        return C.pairs(n=n) + C.random(1000 * n) + C.mutants(4000 * n) + C.operators(n)[::3] + C.truncated(C.pairs()[::12]) + C.exhausting() + C.big()[::3] + C.lists() + C.options()
    if prop == "C04":
        return C.lexical(n) + C.mutants(500 * n) + C.big()
    if prop == "C05":
        return C.words(n) + C.spaced(900 * n) + C.lexical(n)[::4] + C.names(n=12 * n)
    if prop == "C18":
        return C.big() + C.lexical(n) + C.words(1)[::3] + C.mutants(1000 * n) + C.numbers()[::5] + C.strings()[::5]
    if prop == "C16":
        return C.pairs(n=2 * n) + C.random(2500 * n) + C.lists()
    if prop in ("C01",):
        return C.pairs(n=n) + C.truncated(C.pairs()[::6 // min(n, 3)]) + C.mutants(2000 * n) + C.random(500 * n) + C.strings()[::6] + C.lexical(1)[::6] + C.deep() + C.conflicts() + C.exhausting() + C.lists() + C.options()
    if prop == "C03":
        return C.pairs(n=1)[::2] + C.mutants(3000 * n) + C.multi(300 * n) + C.lexical(1)[::4] + C.truncated(C.pairs()[::12]) + C.deep() + C.conflicts() + C.exhausting() + C.big()[::2] + C.options()[::3] + [b"", b" ", b";", b";;", b"-- x", b"\n"]
    if prop in ("C02", "C17"):
        return C.pairs(n=1)[::3] + C.mutants(1000 * n) + C.multi(300 * n) + C.params(300 * n) + C.numbers()[::9] + C.strings()[::9]
    if prop == "C19":
        return C.pairs(n=1) + C.random(800 * n) + C.numbers()[::7] + C.lists()[::2]
    return C.pairs(n=1)


def judge(S, cmp, want, g):
    ds = cmp.outcome(want, g)
    for k in ('leak', 'changed', 'differs', 'moved', 'history', 'value', 'variant', 'tokens'):
        if g.get(k):
            ds.append((k, k, 0, g[k]))
    return ds
