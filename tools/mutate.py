"""mutate.py N SEED OUT [file-substring]: screens the checks with N random small mutants of lines the checks execute.
Needs line coverage per check under COV (VERIF_COV=COV/Cxx ./run.sh Cxx). Runs copies of this directory on scratch copies of the repository."""
import ast, glob, json, os, random, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
COV = os.environ.get("COV", "/tmp/cov"); REPO = os.environ.get("MUT_REPO", "/repo"); W = int(os.environ.get("MUT_PAR", "4"))
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; SUB = sys.argv[4] if len(sys.argv) > 4 else ""
COST = ["C01", "C02", "C19", "C23", "C26", "C04", "C03", "C21", "C18", "C11", "C12", "C15", "C16", "C07", "C06", "C10", "C17", "C14", "C13", "C05", "C08", "C25", "C09", "C24"] + (["C22"] if os.environ.get("MUT_C22") else [])
COST = [c for c in COST if c not in os.environ.get("MUT_SKIP", "").split()]
cov = {}
for c in COST:
    for f in glob.glob("%s/%s/*.json" % (COV, c)):
        for a, n in json.load(open(f)): cov.setdefault((a, n), set()).add(c)

OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}

TRIG = {"M": ("{} >= 5", "{} == 0", "{} == 3"), "N_space": ("{} >= 16", "{} % 2 == 1"), "N_ang": ("{} >= 10", "{} == 2", "{} % 2 == 1"), "t": ("{} > 4", "0 < {} < 1e-2"), "tfinal": ("{} > 6",), "x0": ("{} > 1.5", "{} < 0.3"),
        "t0": ("{} < 0.2", "{} > 4"), "sigma": ("{} > 2",), "source_strength": ("{} > 1.5",), "sigma_t": ("{} > 1.5",), "sigma_s": ("{} < 0.3",), "c": ("{} < 0.3",), "Msigma": ("{} >= 3",), "mu": ("abs({}) < 0.1",), "mul": ("{} < -0.9",), "angle": ("{} >= 5",),
        "space": ("{} >= 8", "{} == 1"), "xL": ("{} > 2",), "i": ("{} >= 6",), "j": ("{} >= 5",), "k": ("{} >= 4",), "uncollided": ("{} != 1",), "moving": ("{} != 1",), "domain_width": ("{} > 5",), "fake_sedov_v0": ("{} > 0.1",), "move_factor": ("{} > 1.1",)}

def triggered(path, fn, tree, lines):
    """the same small changes, but only under a condition on a configured size, a time or an index: finds ranges the checks do not visit"""
    cls = next((c for c in ast.walk(tree) if isinstance(c, ast.ClassDef) and fn in c.body), None)
    names = ["self." + x for x in {n.attr for n in ast.walk(cls) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store)}] if cls and fn.name != "__init__" else []
    names += [a.arg for a in fn.args.args]; out = []
    conds = sorted(t.format(x) for x in names for t in TRIG.get(x.split(".")[-1], ()))
    if not conds: return out
    for n in ast.walk(fn):
        if not hasattr(n, "lineno") or (path, n.lineno) not in cov or n.lineno == fn.lineno or n.lineno != n.end_lineno: continue
        if any(w in lines[n.lineno - 1] for w in ("print(", "raise", "assert")): continue
        L = lines[n.lineno - 1].encode(); seg = L[n.col_offset:n.end_col_offset].decode() if hasattr(n, "end_col_offset") else ""
        rng = random.Random("%d %s %d" % (SEED, path, n.lineno * 1000 + n.col_offset)); cond = rng.choice(conds)
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = n.left.end_col_offset - n.col_offset, n.right.col_offset - n.col_offset; mid = L[n.left.end_col_offset:n.right.col_offset].decode(); o = {"-": "+", "+": "-", "/": "*", "*": "/"}[OPS[type(n.op)]]
            if mid.count(o) != 1: continue
            new = L[n.col_offset:n.left.end_col_offset].decode() + mid.replace(o, OPS[type(n.op)]) + L[n.right.col_offset:n.end_col_offset].decode()
            out.append((n.lineno, n.col_offset, n.end_col_offset, "(%s if %s else %s)" % (new, cond, seg), "trig-op"))
        elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
            out.append((n.lineno, n.col_offset, n.end_col_offset, "if not (%s): %s" % (cond, seg), "trig-del"))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and not isinstance(n.ops[0], (ast.In, ast.NotIn)):
            out.append((n.lineno, n.col_offset, n.end_col_offset, "(%s and not (%s))" % (seg, cond), "trig-cmp"))
    return out

def mutants(path):
    src = open(os.path.join(REPO, path), newline="").read().replace("\r\n", "\n"); tree = ast.parse(src); lines = src.split("\n"); out = []
    docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)}
    def span(n): return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
    for fn in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,))]:
        if os.environ.get("MUT_TRIGGER"): out += triggered(path, fn, tree, lines); continue
        for n in ast.walk(fn):
            if not hasattr(n, "lineno") or (path, n.lineno) not in cov or n.lineno == fn.lineno: continue
            if any(w in lines[n.lineno - 1] for w in ("print(", "raise", "assert")): continue
            if n.lineno != n.end_lineno and not isinstance(n, ast.If): continue
            L = lines[n.lineno - 1].encode()
            if isinstance(n, ast.BinOp) and type(n.op) in OPS:
                a, b = n.left.end_col_offset, n.right.col_offset; mid = L[a:b].decode(); o = {"-": "+", "+": "-", "/": "*", "*": "/"}[OPS[type(n.op)]]
                if mid.count(o) == 1: out.append((n.lineno, a, b, mid.replace(o, OPS[type(n.op)]), "op"))
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                a, b = n.left.end_col_offset, n.comparators[0].col_offset; mid = L[a:b].decode()
                o = {"<=": "<", "<": "<=", ">=": ">", ">": ">=", "!=": "==", "==": "!="}[CMP[type(n.ops[0])]]
                if o in mid: out.append((n.lineno, a, b, mid.replace(o, CMP[type(n.ops[0])]), "cmp"))
            elif isinstance(n, ast.BoolOp) and n.lineno == n.end_lineno:
                a, b = n.values[0].end_col_offset, n.values[1].col_offset; mid = L[a:b].decode(); o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                if o in mid: out.append((n.lineno, a, b, mid.replace(o, w), "bool"))
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bool, type(None))) and id(n) not in docs:
                v = n.value; out.append((n.lineno, n.col_offset, n.end_col_offset, repr(v + 1 if isinstance(v, int) else (v * 1.05 if v else 0.05)), "const"))
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                if n.lineno == n.end_lineno: out.append((n.lineno, n.col_offset, n.end_col_offset, "pass", "del"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): out.append((n.lineno, n.col_offset, n.col_offset + 1, " ", "neg"))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("sin", "cos", "max", "min", "abs", "maximum", "minimum"):
                t = {"sin": "cos", "cos": "sin", "max": "min", "min": "max", "abs": "array", "maximum": "minimum", "minimum": "maximum"}[n.func.attr]
                out.append((n.lineno, n.func.end_col_offset - len(n.func.attr), n.func.end_col_offset, t, "call"))
    return sorted(set(out)), lines

def main():
    rng = random.Random(SEED); pool = []
    for f in sorted({a for a, _ in cov}):
        if not f.endswith(".py") or "/tests/" in f or SUB not in f or any(x in f for x in os.environ.get("MUT_NOFILE", "none").split()): continue
        ms, lines = mutants(f)
        k = max(1, int(os.environ.get("MUT_PER_FILE", "10000"))); rng.shuffle(ms)
        pool += [(f, m, lines[m[0] - 1]) for m in ms[:k]]
    rng.shuffle(pool); pool = pool[:N]; print(len(pool), "mutants", flush=True)
    base = "/tmp/mut/v%d" % os.getpid(); subprocess.run(["mkdir", "-p", base]); HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for x in ("check.py", "run.sh", "known_findings.txt", "lib", "checks"): subprocess.run(["cp", "-a", os.path.join(HERE, x), base])
    def one(i):
        f, (ln, a, b, new, kind), text = pool[i]
        w = "/tmp/mut/r%d_%d" % (os.getpid(), i); subprocess.run(["cp", "-a", REPO, w]); p = os.path.join(w, f)
        raw = open(p, "rb").read(); nl = b"\r\n" if b"\r\n" in raw else b"\n"; L = raw.split(nl)
        L[ln - 1] = L[ln - 1][:a] + new.encode() + L[ln - 1][b:]; open(p, "wb").write(nl.join(L)); shown = L[ln - 1].decode().strip()
        killed = None; seen = []
        for c in [c for c in COST if c in cov[f, ln]]:
            e = dict(os.environ, VERIF_REPO=w, VERIF_NOCONFIRM="1", VERIF_WORKERS="1", VERIF_SEED="1", VERIF_TIER="quick"); e.pop("VERIF_COV", None)
            try: rc = subprocess.run(["bash", base + "/run.sh", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=900)
            except subprocess.TimeoutExpired: killed = c + "(timeout)"; break
            seen.append("%s:%d" % (c, rc.returncode))
            if rc.returncode == 1: killed = c; break
        subprocess.run(["rm", "-rf", w])
        with open(OUT, "a") as o: o.write(json.dumps({"file": f, "line": ln, "kind": kind, "old": text.strip(), "new": shown, "killed": killed, "seen": seen}) + "\n")
    with ThreadPoolExecutor(W) as ex: list(ex.map(one, range(len(pool))))
    subprocess.run(["rm", "-rf", base])
main()
