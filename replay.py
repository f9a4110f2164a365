"""replay.py FILE: runs the input of a violation through the current /repo and shows the difference to the specification."""
import json
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build, spec, ref, diff, bounded, layout, check, grammar
v = json.load(open(sys.argv[1]))
if "input_hex" not in v:
    print(json.dumps(v, indent=1))
    sys.exit(0)
T = build.prepare()
try:
    build.bitcode(T)
    T.L = layout.Layout(T.laytext, T.headers)
    S = spec.load()
    spec.automaton(S, T.dir)
    t = bytes.fromhex(v["input_hex"])
    D = diff.Driver(T)
    check._X.update(S=S, D=D, mode=bounded.MODES.get(v["property"], "d"), prop=v["property"], cmp=diff.Cmp(T.L), G=grammar.parse(T))
    bad, n = check._explore([t])
    print("input:", t)
    if "history_hex" in v:
        from vc import histories
        bad = histories.replay(T, D, t, [bytes.fromhex(x) for x in v["history_hex"]])
    for t, d in bad:
        print("difference:", d)
    print("reproduced" if bad else "no difference")
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(T.dir, ignore_errors=True)
