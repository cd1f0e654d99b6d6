"""jitsample.py C23 [n] [key]: replay n generated cases of a check with the compiled code (one per value of case[key])."""
import sys, os, random, importlib, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, os.path.join(V, "lib")]
p = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 3; key = sys.argv[3] if len(sys.argv) > 3 else None
m = importlib.import_module("checks." + p.lower()); import core
seen = set(); cs = []
for c in m.cases(random.Random(77), "quick"):
    k = c.get(key) if key else len(cs)
    if k in seen: continue
    seen.add(k); cs.append(core.jsonable(c))
for c in cs[:n]:
    f = "/tmp/jitsample_%d.json" % os.getpid(); json.dump({"property": p, "case": c, "engine": "jit"}, open(f, "w"))
    r = subprocess.run([core.PY, "-W", "ignore", os.path.join(V, "check.py"), p, "--replay", f, "--engine", "jit"], cwd=V, capture_output=True, text=True, env=dict(os.environ, NUMBA_OPT="0", NUMBA_BOUNDSCHECK="1"))
    print(c.get(key) if key else c, r.returncode, (r.stdout + r.stderr).strip()[-300:] if r.returncode else "held", flush=True); os.unlink(f)
