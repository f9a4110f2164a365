"""Runs texts through the real code (driver) and compares what is observed with the specification."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from . import build
from .ref import Node, Set, STMT, DEFAULT

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=1000000:malloc_fill_byte=190:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67"}


class Driver:
    def __init__(self, T, exe=None):
        self.T = T
        self.exe = exe or build.sanitized(T, os.path.join(T.dir, "drv"), os.path.join(HERE, "driver", "drv.cpp"))

    def run(self, texts, mode="d", timeout=120):
        """one result per text: a dictionary, or {"crash": output}"""
        out = []
        pos = 0
        while pos < len(texts):
            d = tempfile.mkdtemp(prefix="drv.", dir=self.T.dir)
            fi, fo, fe = (os.path.join(d, x) for x in ("in", "out", "err"))
            with open(fi, "wb") as f:
                for t in texts[pos:]:
                    f.write(b"%d\n" % len(t) + t + b"\n")
            to = False
            with open(fe, "wb") as e:
                try:
                    r = subprocess.run([self.exe, mode, fi, fo], stdout=subprocess.DEVNULL, stderr=e, env={**os.environ, **ENV}, timeout=timeout, cwd=d)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    to, rc = True, -1
            data = open(fo, "rb").read()
            got = 0
            for l in data.split(b"\n"):
                if l.startswith(b"@{") and l.endswith(b"}"):
                    try:
                        out.append(json.loads(l[1:]))
                    except ValueError:
                        out.append({"crash": "unreadable output " + repr(l[:200])})
                    got += 1
            if data.endswith(b"#"):
                shutil.rmtree(d)
                break
            # the driver ended in the middle
            with open(fe, "rb") as e:
                err = e.read()
            k = err.find(b"ERROR: AddressSanitizer")
            k = k if k >= 0 else err.find(b"runtime error")
            msg = err[max(0, k - 100):k + 1800] if k >= 0 else err[-800:]
            out.append({"crash": ("no answer in time: " if to else "") + msg.decode("latin1"), "rc": rc})
            pos += got + 1
            shutil.rmtree(d)
            if pos < len(texts) and len([x for x in out if "crash" in x]) > 20:
                out += [{"skipped": True}] * (len(texts) - pos)
                break
        return out


_words = []


def words():
    """the enumerators the specification tells apart are among these"""
    if not _words:
        t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "sql.spec")).read()
        _words.append(frozenset(re.findall(r'[A-Za-z_]\w+', t)))
    return _words[0]


class Ambiguous(str):
    """the value of an enumerator that cannot be told from another one"""


def enumval(L, s):
    c, k = s.split(".") if "." in s else (None, s)
    for en, vals in L.enums.items():
        if k in vals and c in (None, en):
            v = vals[k]
            twin = next((x for x, y in vals.items() if y == v and x != k and x in words()), None)
            return v if twin is None or k not in words() else Ambiguous(f"{k} and not {twin}")
    return None


SKIP = {"acc", "getName", "hasSchema", "badIs", "param", "_", "stmtType", "action"}


class Cmp:
    def __init__(self, L):
        self.L = L
        self.cache = {}

    def val(self, s):
        v = self.cache.get(s)
        if v is None:
            v = self.cache[s] = enumval(self.L, s)
        return v

    def node(self, e, a, path, out, params, top=False):
        if e is None:
            if a is not None:
                out.append((path, "absent", short(a)))
            return
        if isinstance(e, dict):     # ColumnType never gets here
            raise TypeError
        if a is None:
            out.append((path, short(e), "absent"))
            return
        if not isinstance(a, dict):
            out.append((path, short(e), short(a)))
            return
        if a.get("_") != e.cls:
            out.append((path + "/class", e.cls, a.get("_")))
            return
        base = e.cls + "." if path == "" else path + "/" + e.cls + "."
        for k in set(e.f) | (set(a) - SKIP):
            if k == "stringLength" and not top:
                continue
            if e.cls == "Expr" and e.f.get("type") == "kExprParameter" and k == "ival2":
                continue
            ev = e.f.get(k)
            if ev is None and (e.cls, k) in DEFAULT:
                ev = DEFAULT[(e.cls, k)]
            self.value(ev, a.get(k), base + k, out, params)
        if e.cls in STMT and a.get("stmtType", 0) != self.val(STMT[e.cls]):
            out.append((base + "stmtType", STMT[e.cls], a.get("stmtType", 0)))
        if a.get("badIs"):
            out.append((base + "is()", "consistent", "inconsistent"))
        if e.cls == "Expr":
            f = e.f
            par = next((i for i, q in enumerate(params) if q is e), None)
            if par != a.get("param"):
                out.append((base + "param", par, a.get("param")))
            lit = f.get("type") in ("kExprLiteralInt", "kExprLiteralFloat", "kExprLiteralString", "kExprParameter", "kExprLiteralNull", "kExprLiteralDate", "kExprLiteralInterval")
            acc = 1 | (2 if lit else 0) | (4 if f.get("alias") is not None else 0) | (8 if f.get("table") is not None else 0)
            if acc != a.get("acc"):
                out.append((base + "accessors", acc, a.get("acc")))
            n = f.get("alias") if f.get("alias") is not None else f.get("name")
            if (n.decode("latin1") if n is not None else None) != a.get("getName"):
                out.append((base + "getName", n, a.get("getName")))
        if e.cls == "TableRef":
            f = e.f
            if (1 if f.get("schema") is not None else 0) != a.get("hasSchema", 0):
                out.append((base + "hasSchema", f.get("schema"), a.get("hasSchema", 0)))
            al = f.get("alias")
            n = al.f["name"] if al is not None else f.get("name")
            if (n.decode("latin1") if n is not None else None) != a.get("getName"):
                out.append((base + "getName", n, a.get("getName")))

    def value(self, e, a, path, out, params):
        if isinstance(e, bool):
            e = int(e)
        if isinstance(e, str):
            v = self.val(e)
            if v != (a or 0):
                out.append((path, e, a or 0))
        elif isinstance(e, int):
            if e != (a or 0):
                out.append((path, e, a or 0))
        elif isinstance(e, float):
            if e != (float.fromhex(a) if isinstance(a, str) else a or 0):
                out.append((path, e, a))
        elif isinstance(e, bytes):
            if e.decode("latin1") != a:
                out.append((path, e, a))
        elif isinstance(e, Set):
            if sorted((self.val(x) for x in e), key=str) != sorted(a, key=str):
                out.append((path, sorted(e), a))
        elif isinstance(e, list):
            if not isinstance(a, list):
                out.append((path, short(e), short(a)))
            elif len(a) != len(e):
                out.append((path + "/length", len(e), len(a)))
            else:
                for i, (x, y) in enumerate(zip(e, a)):
                    if isinstance(x, bytes):
                        self.value(x, y, f"{path}[{i}]", out, params)
                    else:
                        self.node(x, y, f"{path}[{i}]", out, params)
        elif e is None:
            if isinstance(a, dict) and a.get("_") == "ColumnType":
                if set(a) != {"_"}:
                    out.append((path, "no type", short(a)))
            elif a:
                out.append((path, "absent", short(a)))
        elif isinstance(e, Node):
            if e.cls == "ColumnType":
                for k in ("data_type", "length", "precision", "scale"):
                    x = e.f.get(k, 0)
                    x = self.val(x) if isinstance(x, str) else x
                    if x != (a or {}).get(k, 0):
                        out.append((path + "." + k, e.f.get(k, 0), (a or {}).get(k, 0)))
            else:
                self.node(e, a, path, out, params)

    def outcome(self, want, got):
        """differences: (kind, path, expected, observed)"""
        if "crash" in got:
            return [("crash", "", "an outcome", got["crash"])]
        o = got.get("out")
        if o is None:
            return []
        ds = []
        valid, n, msg = bool(o.get("valid")), o.get("size", 0), o.get("msg")
        if not o.get("ret"):
            ds.append(("outcome", "parse()", "true", "false"))
        if valid and (n < 1 or msg is not None or o["line"] != -1 or o["col"] != -1):
            ds.append(("outcome", "valid result", "statements and no error", f"{n} statements, error {msg!r} at {o['line']}:{o['col']}"))
        if not valid and (n or not msg or o["nparams"]):
            ds.append(("outcome", "invalid result", "an error and no statements", f"{n} statements, {o['nparams']} parameters, error {msg!r}"))
        if len(o.get("stmts", ())) != n:
            ds.append(("outcome", "size()", len(o.get("stmts", ())), n))
        if want is None:
            return ds
        if want["valid"] != valid:
            ds.append(("reject" if want["valid"] else ("accept" if want["syntax"] else "semantic"), "isValid", want["valid"] or want["msg"] or "syntax error", f"{valid} {msg or ''}"))
            return ds
        if not valid and msg is None:
            return ds
        if not valid:
            if want["syntax"] and not msg.startswith("syntax error"):
                ds.append(("message", "errorMsg", "syntax error", msg))
            if not want["syntax"] and msg != want["msg"]:
                ds.append(("semantic", "errorMsg", want["msg"], msg))
            if (o["line"], o["col"]) != (want["line"], want["col"]):
                ds.append(("position", "errorLine:errorColumn", f"{want['line']}:{want['col']}", f"{o['line']}:{o['col']}"))
            return ds
        if len(want["stmts"]) != n:
            ds.append(("ast", "statements", len(want["stmts"]), n))
            return ds
        if len(want["params"]) != o["nparams"]:
            ds.append(("param", "parameters()", len(want["params"]), o["nparams"]))
        for i, (e, a) in enumerate(zip(want["stmts"], o["stmts"])):
            x = []
            self.node(e, a, "", x, want["params"], True)
            for p, ex, ac in x:
                k = "slice" if p.endswith("stringLength") else "param" if p.endswith("Expr.param") or p.endswith("Expr.ival2") else \
                    "accessor" if p.rsplit(".", 1)[-1] in ("accessors", "getName", "hasSchema", "is()", "stmtType") else "ast"
                ds.append((k, f"[{i}]{p}", ex, ac))
        return ds


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "..."
