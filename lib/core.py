"""Runner shared by every check: cases -> execution under monitors -> three-valued verdict + evidence."""
import importlib, json, os, sys, time, traceback, signal, subprocess, random, hashlib, io, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the case is outside the property's domain (counted, never a verdict)"""


class HarnessError(Exception):
    """something of ours failed: never a verdict"""


class Rec:
    """Monitor results of one case."""
    def __init__(self):
        self.evals = 0
        self.viol = []          # (key, message)
        self.buckets = set()
        self.notes = {}

    def ok(self, cond, key, msg=""):
        self.evals += 1
        if not bool(cond):
            if len(self.viol) < 40:
                self.viol.append((key, msg() if callable(msg) else str(msg)))
            return False
        return True

    def close(self, got, want, tol, key, msg="", scale=None):
        """|got-want| <= tol*scale elementwise; shape mismatch, NaN and inf fail."""
        import numpy as np
        self.evals += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.viol.append((key, "%s: shape %s, expected %s" % (msg, g.shape, w.shape))); return False
        if g.size == 0:
            return True
        if scale is None:
            scale = max(1.0, float(np.max(np.abs(w[np.isfinite(w)]))) if np.isfinite(w).any() else 1.0)
        d = np.abs(g - w)
        bad = ~(d <= tol * scale)
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.ndim else ()
            if len(self.viol) < 40:
                self.viol.append((key, "%s: got %r, expected %r (tol %.2g, at %s)" % (msg, float(g[i]), float(w[i]), tol * scale, i)))
            return False
        return True

    def bucket(self, *k):
        self.buckets.add("|".join(str(x) for x in k))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


UNUSABLE = (ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError, FloatingPointError)


def _from_repo(tb):
    """does the exception come out of the code under test (deepest frame that is ours or the repo's)?"""
    for fr in reversed(traceback.extract_tb(tb)):
        if fr.filename == os.path.join(VERIF, "lib", "engines.py"): continue          # attribute traps of the interpreted classes
        if fr.filename.startswith(REPO + "/"):
            return "%s:%s" % (os.path.basename(fr.filename), fr.name)
        if fr.filename.startswith(VERIF + "/"):
            return None
    return None


def _lost_result(e):
    """a result attribute the loading, plotting and driver classes promise is not there"""
    if not isinstance(e, AttributeError) or getattr(e, "obj", None) is None: return False
    m = type(e.obj).__module__ or ""
    return m.startswith("moving_mesh_transport.") and m.split(".")[1] in ("loading_and_saving", "plots", "solver") or m.endswith(".make_phi") or m == "moving_mesh_transport.solver_functions.run_functions"


def execute(mod, env, case, limit):
    """Run one case; returns a plain dict."""
    rec = Rec()
    out = {"case": case, "status": "ok"}
    def onalarm(*_a): raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm) if limit else None
    if limit: signal.setitimer(signal.ITIMER_REAL, limit)
    cov = None
    if os.environ.get("VERIF_COV"): import linecov as cov
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            mod.run_case(env, case, rec)
    except Skip as e:
        out["status"] = "skip"; rec.note("skip:" + str(e)[:60])
    except CaseTimeout:
        out["status"] = "timeout"
    except Exception as e:
        where = _from_repo(e.__traceback__)
        jit_exc = where is None and not isinstance(e, HarnessError) and env.engine == "jit" and getattr(env, "in_repo", False)
        if (where and not isinstance(e, HarnessError)) or jit_exc:
            rec.viol.append(("exception:" + type(e).__name__, "%s: %s raised in %s" % (type(e).__name__, str(e)[:300], where)))
        elif isinstance(e, UNUSABLE) or _lost_result(e) or (isinstance(e, TypeError) and "NoneType" in str(e)):
            # what the code under test returned cannot be evaluated at all (wrong length, missing entry, not a number);
            # on code that delivers what it promises no case ever gets here
            rec.viol.append(("unusable-result:" + type(e).__name__, "%s: %s while judging what the code returned (%s)" % (
                type(e).__name__, str(e)[:300], traceback.extract_tb(e.__traceback__)[-1].name)))
        else:
            out["status"] = "error"
            out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    finally:
        if cov: cov.dump()
        if limit:
            signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    out.update(evals=rec.evals, viol=rec.viol, buckets=sorted(rec.buckets), notes=rec.notes)
    return out


def load_known(prop):
    d = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = dict(p.split("=", 1) for p in line.split()[1:3])
                if parts.get("property") == prop:
                    d[parts["key"]] = line.split(None, 3)[3]
    return d


class Env:
    """what run_case gets: engine name, the imported package, scratch dir, tier"""
    def __init__(self): self._cache = {}
    def cache(self, key, make):
        if key not in self._cache: self._cache[key] = make()
        return self._cache[key]


def make_env(engine, tier, scratch_dir=True):
    import engines, scratch
    if os.environ.get("VERIF_COV"):
        import linecov; linecov.start()
    engines.setup(engine)
    env = Env()
    env.engine, env.tier = engine, tier
    env.scratch = scratch.make_scratch() if scratch_dir else None
    import repo_api
    with contextlib.redirect_stdout(io.StringIO()):
        env.api = repo_api.Api(engine)
    env.in_repo = True
    return env


def jsonable(o):
    import numpy as np
    if isinstance(o, dict): return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [jsonable(v) for v in o]
    if isinstance(o, np.generic): return o.item()
    if isinstance(o, np.ndarray): return o.tolist()
    return o


_W = {}
def _worker_init(mod, env, limit):
    _W.update(mod=mod, env=env, limit=limit)

def _worker_scratch():
    """every worker gets its own copy of the scratch directory (the repository opens data files read-write)"""
    import shutil
    d = os.path.join(_W["env"].scratch, "worker_%d" % os.getpid())
    os.makedirs(d)
    for n in os.listdir(_W["env"].scratch):
        if not n.startswith("worker_"):
            src = os.path.join(_W["env"].scratch, n)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, n))
    os.chdir(d)
    _W["env"].scratch = d

def _work(case):
    return execute(_W["mod"], _W["env"], case, _W["limit"])


def run_all(mod, env, cases, limit, workers, budget):
    t0 = time.time()
    res = []
    if workers <= 1 or env.engine == "jit":
        for c in cases:
            if time.time() - t0 > budget: break
            res.append(execute(mod, env, c, limit if env.engine == "interp" else 0))
        return res
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    _worker_init(mod, env, limit)
    with ctx.Pool(workers, initializer=_worker_scratch) as pool:
        for r in pool.imap_unordered(_work, cases, chunksize=1):
            res.append(r)
            if time.time() - t0 > budget:
                pool.terminate(); break
    order = {json.dumps(c, sort_keys=True): i for i, c in enumerate(cases)}
    res.sort(key=lambda r: order[json.dumps(r["case"], sort_keys=True)])
    return res


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replays"); os.makedirs(d, exist_ok=True)
    return d


def confirm_jit(prop, case, timeout=420):
    """Replay a case with the compiled code in a fresh process. -> 'violated' | 'held' | 'unknown'"""
    path = os.path.join(replay_dir(), "confirm_%s_%d.json" % (prop, os.getpid()))
    json.dump({"property": prop, "case": case, "engine": "jit"}, open(path, "w"))
    e = dict(os.environ, NUMBA_OPT="0", NUMBA_BOUNDSCHECK="1", NUMBA_LOOP_VECTORIZE="0", NUMBA_SLP_VECTORIZE="0")
    try:
        p = subprocess.run([PY, "-W", "ignore", os.path.join(VERIF, "check.py"), prop, "--replay", path, "--engine", "jit", "--raw"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=VERIF)
    except subprocess.TimeoutExpired:
        return "timeout", []
    finally:
        os.unlink(path)
    for line in p.stdout.decode(errors="replace").splitlines():
        if line.startswith("RAW "):
            r = json.loads(line[4:])
            if r["viol"]: return "violated", r["viol"]
            if r["status"] == "ok": return "held", []
    if p.returncode in (-11, -7, -8, -6):
        return "violated", [("memory-fault", "the compiled code was ended by signal %d" % -p.returncode)]
    return "unknown", [("output", p.stdout.decode(errors="replace")[-800:])]


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + prop.lower())
    engine = getattr(mod, "ENGINE", "interp")
    if "--engine" in argv: engine = argv[argv.index("--engine") + 1]
    if engine == "jit":
        for k, v in (("NUMBA_OPT", "0"), ("NUMBA_LOOP_VECTORIZE", "0"), ("NUMBA_SLP_VECTORIZE", "0"), ("NUMBA_BOUNDSCHECK", "1")):
            os.environ.setdefault(k, v)
    t0 = time.time()
    if "--replay" in argv:
        data = json.load(open(argv[argv.index("--replay") + 1]))
        if "--engine" not in argv: engine = data.get("engine", engine)
        env = make_env(engine, tier)
        r = execute(mod, env, data["case"], 0)
        if "--raw" in argv:
            print("RAW " + json.dumps(jsonable(r)), flush=True); return 0
        known = load_known(prop)
        v = [x for x in r["viol"] if x[0] not in known]
        for k, m in r["viol"]:
            print("  [%s] %s" % (k, m))
        if r["status"] == "error": print(r["error"]); return 2
        if v:
            print("VIOLATION property=%s replay=%s" % (prop, argv[argv.index("--replay") + 1])); return 1
        print("held"); return 0

    env = make_env(engine, tier)
    rng = random.Random("%s-%d-%s" % (prop, seed, tier))
    cases = [jsonable(c) for c in mod.cases(rng, tier)]
    seen = set(); uniq = []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen: seen.add(k); uniq.append(c)
    cases = uniq
    limit = getattr(mod, "CASE_LIMIT", 60)
    budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 1500})[tier]
    workers = int(os.environ.get("VERIF_WORKERS", "0")) or max(1, min(6, os.cpu_count() or 1))
    results = run_all(mod, env, cases, limit, workers, budget)

    known = load_known(prop)
    hit_known, suspects, errors, timeouts = set(), [], [], []
    for r in results:
        if r["status"] == "error": errors.append(r)
        if r["status"] == "timeout": timeouts.append(r)
        bad = []
        for k, m in r["viol"]:
            if k in known: hit_known.add(k)
            else: bad.append((k, m))
        if bad: suspects.append((r["case"], bad))

    verdict, lines, replay, anomalies = "held", [], None, []
    confirm = engine == "interp" and getattr(mod, "CONFIRM", True) and not os.environ.get("VERIF_NOCONFIRM")   # the variable is for screening mutants only
    tried = 0
    keys_tried = set()
    for case, bad in suspects:
        key = bad[0][0]
        if confirm:
            if tried >= 2 and key in keys_tried: continue
            if tried >= 3: break
            tried += 1; keys_tried.add(key)
            st, v = confirm_jit(prop, case, timeout=max(60, min(330, 820 - (time.time() - t0))))
            if st == "violated":
                v = [x for x in v if x[0] not in known]
                if not v: anomalies.append((case, bad, st)); continue
            elif st in ("held", "unknown"):
                anomalies.append((case, bad, st, v)); continue
        verdict = "violated"
        replay = os.path.join(replay_dir(), "%s_%s.json" % (prop, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump({"property": prop, "case": case, "engine": "jit" if confirm else engine, "violations": bad}, open(replay, "w"), indent=1)
        lines = bad
        break

    if verdict == "held" and timeouts and not errors:
        # bounded progress: the case finishes in a small fraction of the limit on correct code
        case = timeouts[0]["case"]
        st = "timeout"
        if confirm:
            st, _v = confirm_jit(prop, case, timeout=330)
        if st in ("timeout", "violated"):
            verdict = "violated"
            replay = os.path.join(replay_dir(), "%s_hang.json" % prop)
            json.dump({"property": prop, "case": case, "engine": "jit"}, open(replay, "w"), indent=1)
            lines = [("no-progress", "the case did not finish within %ss (interpreted) / 330s (compiled)" % limit)]
        else:
            anomalies.append((case, [("timeout", "")], st))

    evals = sum(r["evals"] for r in results)
    buckets = set(b for r in results for b in r["buckets"])
    notes = {}
    for r in results:
        for k, n in r["notes"].items(): notes[k] = notes.get(k, 0) + n
    skipped = sum(1 for r in results if r["status"] == "skip")
    minb = getattr(mod, "MIN_BUCKETS", 3)
    sample = [{"case": r["case"], "oracle_evaluations": r["evals"], "buckets": r["buckets"][:6]} for r in results[:3] + results[-2:]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(buckets), "rule": mod.RULE, "samples": sample,
                       "cases_generated": len(cases), "cases_executed": len(results), "cases_skipped": skipped,
                       "observed": notes, "engine": engine, "distinct_examples": sorted(buckets)[:40],
                       "interpreter_only_anomalies": len(anomalies)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if verdict == "violated" else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(jsonable(ev), open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    for k in sorted(hit_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s tier=%s seed=%d engine=%s cases=%d/%d oracle-evaluations=%d distinct=%d wall=%.1fs" %
          (prop, tier, seed, engine, len(results), len(cases), evals, len(buckets), time.time() - t0))
    if verdict == "violated":
        for k, m in lines[:6]: print("  [%s] %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, VERIF)))
        return 1
    for a in anomalies[:3]:
        print("anomaly (interpreted run only, compiled replay: %s): %s" % (a[2], json.dumps(jsonable(a[1]))[:600]))
        print("   case", json.dumps(a[0])[:300])
        if len(a) > 3: print("   ", str(a[3])[:700])
    if errors:
        print("INCONCLUSIVE: %d case(s) failed inside the harness" % len(errors)); print(errors[0]["error"]); print(json.dumps(errors[0]["case"])); return 2
    if any(a[2] == "unknown" for a in anomalies):
        print("INCONCLUSIVE: a suspected violation could not be replayed"); return 2
    if anomalies and len(suspects) * 4 > max(4, len(results)):
        print("INCONCLUSIVE: interpreted execution is not representative"); return 2
    if len(buckets) < minb or evals == 0:
        print("INCONCLUSIVE: monitors observed too little (%d distinct, %d evaluations)" % (len(buckets), evals)); return 2
    print("HELD property=%s on everything explored" % prop)
    return 0
