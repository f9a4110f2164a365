"""Runs one property's check: proof obligations from the current sources, replay of failed ones, bounded stand-ins, evidence."""
import argparse
import collections
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import threading
import time
import traceback

from . import build, spec, ref, diff, bounded, layout


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    pass


_J = {}


def _job(i):
    from . import units
    name, fn, attrs, limit = _J['units'][i]
    r = units.run_unit(_J['T'], name, fn, limit)
    r.same = r.extra if r.extra and all(isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, str) for y in x) for x in r.extra) else None
    r.extra = None
    r.__dict__.update(attrs)
    return i, r


def run_units(ctx, us, limit=90):
    """us: [(name, function of the engine, attributes of the result)]"""
    _J['units'] = [(u[0], u[1], u[2] if len(u) > 2 else {}, limit) for u in us]
    _J['T'] = ctx.T
    out = [None] * len(us)
    with mp.Pool(ctx.workers) as P:
        for i, r in P.imap_unordered(_job, range(len(us)), chunksize=1):
            out[i] = r
    # what a unit assumes about a symbol is not known when a production of that symbol is undecided
    und = getattr(ctx, 'undinf', None)
    if und:
        unknown = {ctx.G.rules[n].lhs for n in und}
        ch = True
        while ch:
            new = {R.lhs for R in ctx.G.rules if R.num and set(R.rhs) & unknown} - unknown
            unknown |= new
            ch = bool(new)
        for r in out:
            if r.status == 'failed' and any(set(rhs) & unknown for lhs, rhs in getattr(r, 'prods', None) or ()):
                r.status, r.reason = 'undecided', "an obligation fails on values about which nothing is known, as a production of their symbol is undecided: " + r.fails[0]["msg"][:160]
    return out


def infer(ctx):
    """contracts of the grammar symbols and data structure invariants (candidates; every use is verified by the units)"""
    from . import units
    if getattr(ctx, 'facts', None) is None:
        units._W.update(T=ctx.T, G=ctx.G)
        units.instantiated(ctx.T)
        with mp.Pool(ctx.workers) as P:
            ctx.facts, ctx.wf, ctx.undinf, ctx.infruns = units.infer_contracts(ctx.T, ctx.G, P)
    return ctx.facts, ctx.wf


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--no-bounded", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    ctx = Ctx()
    ctx.id, ctx.tier = a.property, a.tier
    ctx.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx.scale = 1 if a.tier == "quick" else 6
    ctx.workers = min(8, os.cpu_count() or 8)
    ctx.notes = []
    from .props import PROPS
    P = PROPS[a.property]
    try:
        T = build.prepare()
    except build.BuildError as x:
        print("cannot build the sources:", str(x)[-1500:])
        return 2
    rc = 2
    try:
        rc = go(ctx, T, P, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(T.dir, ignore_errors=True)
    return rc


def go(ctx, T, P, a, t0):
    ctx.T = T
    drv = {}

    def mkdriver():
        try:
            drv['d'] = diff.Driver(T)
        except Exception as x:
            drv['err'] = str(x)
    th = threading.Thread(target=mkdriver)
    th.start()
    results, undecided_all = [], None
    try:
        build.bitcode(T)
        build.module(T)
        from . import grammar
        ctx.G = grammar.parse(T)
    except build.BuildError as x:
        th.join()
        print("cannot build the sources:", str(x)[-1500:])
        return 2
    except Exception as x:
        undecided_all = f"the front end does not understand the code: {type(x).__name__} {x}"
    ctx.S = spec.load()
    spec.automaton(ctx.S, T.dir)
    if not hasattr(T, 'L'):
        T.L = layout.Layout(T.laytext, T.headers)
    tables = []
    if undecided_all is None:
        th.join()       # the units fork; no thread may be running
        for stage in P["stages"]:
            try:
                r = stage(ctx)
            except Exception as x:
                from .units import Result
                r = Result(getattr(stage, '__name__', 'stage'))
                r.status, r.reason = 'undecided', f"{type(x).__name__} {x} " + traceback.format_exc().strip().split('\n')[-3].strip()[:200]
                r = [r]
            results += r
    else:
        th.join()
    if 'd' not in drv:
        print("cannot build the driver:", drv.get('err', '')[-1500:])
        return 2
    D = drv['d']
    t1 = time.time()

    # ---- failed obligations: look for a failing input
    found = []          # (text, difference)
    failed = [r for r in results if r.status == 'failed']
    und = [r for r in results if r.status == 'undecided']
    cmp = diff.Cmp(T.L)
    stats = collections.Counter()
    samples = []
    seen = set()

    def explore(texts, label, stop=3):
        S = ctx.S
        texts = [t for t in dict.fromkeys(texts) if t not in seen]
        seen.update(texts)
        if not texts:
            return
        stats['evaluations'] += len(texts)
        I = ref.Interp(S)
        chunks = [texts[i::ctx.workers] for i in range(ctx.workers)]
        mode = bounded.MODES.get(ctx.id, "d")
        _X.update(S=S, D=D, mode=mode, prop=ctx.id, cmp=cmp, G=getattr(ctx, 'G', None))
        try:
            with mp.Pool(ctx.workers) as pool:
                for bad, n in pool.imap_unordered(_explore, chunks):
                    stats['nontrivial'] += n
                    found.extend(bad)
        except Exception as x:
            print(f"  the comparison of texts ended early: {type(x).__name__} {x}"[:300])
            stats['aborted'] += 1
        for t in texts[:2]:
            if len(samples) < 6:
                samples.append(t.decode('latin1')[:300])
    if failed or und:
        from . import replay
        for r in (failed + und)[:12]:
            texts = replay.directed(ctx, r)
            explore(texts, r.unit)
    if not a.no_bounded:
        explore(bounded.corpus(ctx.id, ctx.S, ctx.seed, ctx.scale), "corpus")
        if (failed or und) and not found:
            for k in range(1, 3 if ctx.tier == "quick" else 6):
                explore(bounded.corpus(ctx.id, ctx.S, ctx.seed + 1000 * k, ctx.scale), "corpus")
                if found:
                    break
        if ctx.id == "C17":
            from . import histories
            for h in histories.explore(ctx, T, D, stats):
                found.append(h)
    t2 = time.time()

    # ---- report
    known = load_known(ctx.id)
    viol = []
    repdir = os.path.join(HERE, "evidence")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(ctx.id + ".violation"):
            os.unlink(os.path.join(repdir, f))
    fresh = []
    knownhit = collections.OrderedDict()
    for text, d in sorted(found, key=lambda x: len(x[0])):
        k = next((k for k in known if k["input"].encode('latin1') == text or k.get("contains") and k["contains"].encode('latin1') in text), None)
        if k is not None:
            knownhit[k["what"]] = 1
        else:
            fresh.append((text, d))
    for k in known:
        print(f"KNOWN-FINDING: property={ctx.id} {k['what']}")
    n = 0
    done = set()
    for text, d in fresh:
        key = (d[0], bounded.re.sub(r'\[\d+\]', '', d[1]).rsplit("/", 1)[-1], str(d[2])[:20])
        if key in done or n >= 5:
            continue
        done.add(key)
        n += 1
        path = os.path.join(repdir, f"{ctx.id}.violation-{n}.json")
        json.dump({"property": ctx.id, "input_hex": text.hex(), "input": text.decode('latin1'), "kind": d[0], "where": d[1], "expected": repr(d[2])[:2000], "observed": repr(d[3])[:4000], **({"history_hex": [x.hex() for x in d[4]]} if len(d) > 4 else {}),
                   "failed_obligations": [{"unit": r.unit, "failures": r.fails[:5]} for r in failed[:5]],
                   "how": "python3-vt /verif/replay.py " + path}, open(path, "w"), indent=1)
        print(f"VIOLATION property={ctx.id} replay={path}")
        print(f"  {d[0]} {d[1]}: expected {str(d[2])[:200]}, observed {str(d[3])[:300]}; input {text[:200]!r}")
        viol.append(path)
    if failed and not fresh:
        for r in failed[:5]:
            n += 1
            path = os.path.join(repdir, f"{ctx.id}.violation-{n}.json")
            json.dump({"property": ctx.id, "unit": r.unit, "failed_obligations": r.fails, "obligations": r.obl, "discharged": r.disch, "note": "the verifier rejects this obligation; no failing input was found in the search"}, open(path, "w"), indent=1)
            print(f"  obligation failed in {r.unit}: " + "; ".join(f"[{f['kind']}] {f['msg']}" for f in r.fails[:3])[:600])
            print(f"VIOLATION property={ctx.id} replay={path} no-failing-input-found")
            viol.append(path)
    for r in failed:
        print(f"  failed: {r.unit}: " + "; ".join(f"[{f['kind']}] {f['msg']} {f['where']}" for f in r.fails[:3])[:500])
    for r in und[:20]:
        print(f"  undecided: {r.unit}: {r.reason}"[:400])
    evidence(ctx, P, results, stats, samples, viol, t0, t1, t2, undecided_all)
    done_ = sum(r.status == 'proved' for r in results)
    print(f"{ctx.id}: {done_} of {len(results)} units proved, {len(failed)} failed, {len(und)} undecided; {sum(r.disch for r in results)}/{sum(r.obl for r in results)} obligations; "
          f"{stats['evaluations']} texts compared; {time.time() - t0:.1f} s")
    return 1 if viol else 0


_X = {}


def _explore(texts):
    S, D, mode, prop, cmp = _X['S'], _X['D'], _X['mode'], _X['prop'], _X['cmp']
    I = ref.Interp(S)
    got = D.run(texts, mode)
    bad, n = [], 0
    for t, g in zip(texts, got):
        if g.get('skipped'):
            continue
        want = I.run(t)
        if want is None:
            if prop == "C01" and (g.get("leak") or "crash" in g):
                bad.append((t, ("leak" if g.get("leak") else "crash", "memory", "released", g.get("leak") or g["crash"])))
            if prop in ("C03", "C20") and "out" in g:
                # beyond the nesting limit either outcome is fine, but it must be one of the two
                o = g["out"]
                ok = bool(o.get("valid")) == (o.get("msg") is None) and bool(o.get("valid")) == bool(o.get("size"))
                if not ok or not o.get("ret"):
                    bad.append((t, ("outcome" if prop == "C03" else "accept", "outcome", "success or an error message", {k: v for k, v in o.items() if k != "stmts"})))
            continue
        n += 1 if want["valid"] or want.get("tok", 1) > 0 else 0
        if "crash" in g and prop == "C16" and "crash" not in D.run([t], "d")[0]:
            g = {"printcrash": 1, "crash": g["crash"]}
            bad.append((t, ("printcrash", "printStatementInfo", "total", g["crash"])))
            continue
        if "crash" in g and prop == "C02" and "crash" not in D.run([t], "d")[0]:
            bad.append((t, ("history", "results", "defined behaviour", g["crash"])))
            continue
        ds = bounded.judge(S, cmp, want, g)
        if prop == "C18" and "crash" in g and "crash" not in D.run([t], "d")[0]:
            ds = [("tokens", "tokenize", "tokens", g["crash"])]
        for d in ds:
            if bounded.relevant(prop, d):
                bad.append((t, d))
                break
        if len(bad) > 200:
            break
    return bad, n


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: {"):
                k = json.loads(l[7:])
                if k.get("property") == prop:
                    out.append(k)
    return out


def evidence(ctx, P, results, stats, samples, viol, t0, t1, t2, undecided_all):
    from . import models
    kinds = collections.Counter()
    fns, mods = set(), set()
    z3t = 0
    backends = collections.Counter()
    for r in results:
        kinds.update(r.kinds)
        fns.update(r.fns)
        mods.update(r.models)
        z3t += r.z3time
        backends[getattr(r, 'backend', 'symbolic execution + z3')] += r.disch
    dem = getattr(ctx.T, 'dem', {})
    cov = {"obligations": sum(r.obl for r in results), "discharged": sum(r.disch for r in results),
           "checker_cmd": f"python3-vt /verif/check.py {ctx.id} --tier {ctx.tier}",
           "trusted_base": P["trusted"],
           "units": len(results), "units_proved": sum(r.status == 'proved' for r in results), "units_with_a_reachable_end": sum(getattr(r, 'reached', False) for r in results), "units_failed": [r.unit for r in results if r.status == 'failed'],
           "units_undecided": {r.unit: r.reason for r in results if r.status == 'undecided'},
           "obligations_by_kind": dict(kinds), "discharged_by_backend": dict(backends), "solver_seconds": round(z3t, 2),
           "functions_under_contract": sorted({dem.get(f.split(':')[0], f) for f in fns}), "external_functions_with_trusted_contracts": sorted({dem.get(f, f) for f in mods}),
           "bounded": {"evaluations": stats['evaluations'], "distinct_nontrivial": stats['nontrivial'], "bound": P.get("bound", "generated texts, at most 195 entries on the parser stack"),
                       "rule": "texts generated from the specification (production pairs, random derivations, near misses, lexical fragments) run through the sanitized build of the real code and compared with the reference interpreter; non-trivial: not rejected at its first token", "samples": samples, "counted_as_proof": False, **{k: stats[k] for k in ("histories", "thread_runs") if stats[k]}},
           "seconds": {"proof": round(t1 - t0, 1), "bounded": round(t2 - t1, 1)}}
    if undecided_all:
        cov["undecided"] = undecided_all
    ev = {"property": ctx.id, "tier": ctx.tier, "seed": ctx.seed, "level": P["level"], "coverage": cov, "assumptions": P["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
