"""Bounded exploration for C17: the same texts after different histories, and in several threads at once (ThreadSanitizer)."""
import concurrent.futures as cf
import os
import random
import shutil
import subprocess
import tempfile
from . import bounded, build, diff

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def out(g):
    return g.get("out", g)


def minimize(D, t, hist, want):
    """a short history after which the text is parsed differently"""
    def bad(h):
        g = D.run(h + [t], "d")
        return len(g) == len(h) + 1 and out(g[-1]) != want and out(g[-1])
    if not bad(hist):
        return None
    for h in ([x] for x in hist[-12:][::-1]):
        r = bad(h)
        if r:
            return h, r
    k = max(1, len(hist) // 2)
    runs = 0
    while k >= 1 and runs < 60:
        i, ch = 0, False
        while i < len(hist) and runs < 60:
            runs += 1
            h = hist[:i] + hist[i + k:]
            if bad(h):
                hist, ch = h, True
            else:
                i += k
        k = k // 2 if not ch or k > len(hist) else k
    return hist, bad(hist)


def explore(ctx, T, D, stats):
    C = bounded.Corpus(ctx.S, ctx.seed + 5)
    n = ctx.scale
    texts = C.pairs(n=1)[::3] + C.mutants(700 * n) + C.multi(150 * n) + C.params(250 * n) + C.numbers()[::9] + C.strings()[::9] + C.truncated(C.pairs()[::25])
    texts = list(dict.fromkeys(texts))
    random.Random(ctx.seed).shuffle(texts)
    found = []
    W = ctx.workers
    orders = []
    chunks = [texts[i::W] for i in range(W)]
    for c in chunks:
        orders += [c, c[::-1]]
    with cf.ThreadPoolExecutor(W) as ex:
        res = list(ex.map(lambda c: D.run(c, "d"), orders))
    stats['evaluations'] += 2 * len(texts)
    stats['histories'] += len(orders)
    for k in range(0, len(orders), 2):
        a, b = res[k], res[k + 1][::-1]
        if len(a) != len(orders[k]) or len(b) != len(a):
            continue
        for i, t in enumerate(orders[k]):
            if "crash" in a[i] or "crash" in b[i] or a[i].get("skipped") or b[i].get("skipped") or out(a[i]) == out(b[i]):
                continue
            want = out(D.run([t], "d")[0])
            h = minimize(D, t, orders[k][:i], want) if out(a[i]) != want else None
            h = h or minimize(D, t, orders[k + 1][:len(b) - 1 - i], want)
            if h:
                found.append((t, ("differs", f"after {len(h[0])} other parses", want, h[1], h[0])))
            if len(found) > 2:
                return found
    found += concurrent(T, texts[:2500 * n], stats)
    return found


def concurrent(T, texts, stats):
    try:
        exe = os.path.join(T.dir, "drvt")
        if not os.path.exists(exe):
            build.sanitized(T, exe, os.path.join(HERE, "driver", "drv.cpp"), san="thread")
    except build.BuildError:
        return []
    d = tempfile.mkdtemp(prefix="thr.", dir=T.dir)
    try:
        fi, fo = os.path.join(d, "in"), os.path.join(d, "out")
        with open(fi, "wb") as f:
            for t in texts:
                f.write(b"%d\n" % len(t) + t + b"\n")
        try:
            r = subprocess.run([exe, "T", fi, fo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=240, env={**os.environ, "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, cwd=d)
        except subprocess.TimeoutExpired:
            return []
        stats['evaluations'] += 6 * len(texts)
        err = r.stderr.decode("latin1")
        if "WARNING: ThreadSanitizer" in err and "memory mapping" not in err[:300]:
            stats['thread_runs'] += 1
            return [(texts[0], ("differs", "parses in other threads", "no data race", err[err.find("WARNING: ThreadSanitizer"):][:1500], texts))]
        if r.returncode == 0 and os.path.exists(fo):
            stats['thread_runs'] += 1
            ls = [l for l in open(fo, "rb").read().split(b"\n") if l.startswith(b"@")]
            for t, l in zip(texts, ls):
                if b"differs" in l:
                    return [(t, ("differs", "parses in other threads", "equal outcomes in all threads", "another outcome", texts))]
        elif r.returncode < 0:
            return [(texts[0], ("differs", "parses in other threads", "no crash", f"signal {-r.returncode} " + err[-500:], texts))]
        return []
    finally:
        shutil.rmtree(d)


def replay(T, D, t, hist):
    want = out(D.run([t], "d")[0])
    g = D.run(hist + [t], "d")
    if len(g) == len(hist) + 1 and out(g[-1]) != want:
        return [(t, ("differs", f"after {len(hist)} other parses", want, out(g[-1])))]
    import collections
    return [(x, d[:4]) for x, d in concurrent(T, hist, collections.Counter())]
