"""Builds the verified artefacts from /repo's current working tree: regenerated scanner and parser, LLVM bitcode, class layouts."""
import concurrent.futures as cf
import glob
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, check=True, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if check and r.returncode:
        raise BuildError(f"{' '.join(cmd)}\n{r.stdout[-4000:]}")
    return r.stdout


class Tree:
    pass


def scratch():
    base = tempfile.mkdtemp(prefix="sqlvc.", dir=os.environ.get("TMPDIR", "/tmp"))
    return base


def prepare(dst=None):
    """Copies the sources and regenerates scanner and parser."""
    T = Tree()
    T.dir = dst or scratch()
    T.src = os.path.join(T.dir, "src")
    shutil.copytree(os.path.join(REPO, "src"), T.src)
    p = os.path.join(T.src, "parser")
    for f in ("bison_parser.cpp", "bison_parser.h", "flex_lexer.cpp", "flex_lexer.h"):
        try:
            os.unlink(os.path.join(p, f))
        except FileNotFoundError:
            pass
    sh(["flex", "flex_lexer.l"], p)
    sh(["bison", "bison_parser.y", "--output=bison_parser.cpp", "--defines=bison_parser.h", "--xml=" + os.path.join(T.dir, "grammar.xml")], p)
    T.cpps = sorted(glob.glob(os.path.join(T.src, "**", "*.cpp"), recursive=True))
    T.headers = [open(f, errors="replace").read() for f in sorted(glob.glob(os.path.join(T.src, "**", "*.h"), recursive=True)) if "flex_lexer" not in f and "bison_parser" not in f]
    return T


FLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-discard-value-names", "-fno-threadsafe-statics", "-w", "-Wno-c++11-narrowing"]


def bitcode(T):
    T.bc = os.path.join(T.dir, "all.bc")
    jobs = []
    for i, c in enumerate(T.cpps):
        o = os.path.join(T.dir, f"{i}.bc")
        jobs.append((["clang++"] + FLAGS + ["-I" + T.src, "-c", "-emit-llvm", c, "-o", o], o))

    def layout():
        s = sh(["clang++", "-std=c++17", "-w", "-Wno-c++11-narrowing", "-I" + T.src, "-I" + os.path.join(T.src, "parser"), "-Xclang", "-fdump-record-layouts", "-S", "-emit-llvm", "-o", "/dev/null",
                os.path.join(T.src, "parser", "bison_parser.cpp")])
        s2 = sh(["clang++", "-std=c++17", "-w", "-Wno-c++11-narrowing", "-I" + T.src, "-I" + os.path.join(T.src, "parser"), "-Xclang", "-fdump-record-layouts", "-S", "-emit-llvm", "-o", "/dev/null",
                 os.path.join(T.src, "parser", "flex_lexer.cpp")])
        blocks = [b.split("*** Dumping IRgen")[0] for b in s.split("*** Dumping AST Record Layout")[1:]]
        blocks += [b.split("*** Dumping IRgen")[0] for b in s2.split("*** Dumping AST Record Layout")[1:] if "| struct yyguts_t\n" in b or "| yyguts_t\n" in b]
        T.laytext = "*** Dumping AST Record Layout".join([""] + blocks)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(sh, c) for c, o in jobs] + [ex.submit(layout)]
        for f in fs:
            f.result()
    sh(["llvm-link"] + [o for c, o in jobs] + ["-o", T.bc])
    return T


def module(T):
    from . import llvm, layout
    T.M = llvm.Module(T.bc)
    T.L = layout.Layout(T.laytext, T.headers)
    names = list(T.M.fn_ref)
    out = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    T.dem = dict(zip(names, out))
    T.undem = {}
    for m, d in T.dem.items():
        T.undem.setdefault(d, m)
    return T


def sanitized(T, out, main, san="address,undefined", extra=()):
    """Executable of the sources plus a driver, with sanitizers."""
    d = os.path.join(T.dir, "san_" + os.path.basename(out))
    os.makedirs(d, exist_ok=True)
    objs = []
    jobs = []
    for i, c in enumerate(T.cpps + [main]):
        o = os.path.join(d, f"{i}.o")
        objs.append(o)
        jobs.append(["clang++", "-std=c++17", "-g", "-O1", "-w", "-Wno-c++11-narrowing", "-fno-omit-frame-pointer", *( ["-fsanitize=" + san, "-fno-sanitize-recover=undefined"] if san else []), *extra, "-I" + T.src, "-c", c, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(sh, j) for j in jobs]:
            f.result()
    sh(["clang++", *(["-fsanitize=" + san] if san else []), *objs, "-o", out])
    shutil.rmtree(d)
    return out
