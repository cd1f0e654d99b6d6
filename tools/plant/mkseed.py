"""mkseed.py spec.py [ID...]: writes /verif/seeded/<ID>/{patch.diff,demo.sh,demo.py,h.py,meta.json} from the table SEEDS of spec.py.
Each entry: id, property, edits [(file, old, new)], needs, breaks, demo source."""
import json, os, shutil, subprocess, sys, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE)); REPO = "/repo"
sp = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
only = sys.argv[2:]
for (sid, prop, edits, needs, breaks, demo) in m.SEEDS:
    if only and sid not in only: continue
    w = "/tmp/mk_" + sid
    subprocess.run(["rm", "-rf", w]); subprocess.run(["git", "clone", "-q", REPO, w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, "moving_mesh_transport", f); b = open(p, "rb").read()
        o, n = old.encode(), new.encode()
        if b.count(o) != 1:
            o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
        if b.count(o) != 1: sys.exit("%s: %d matches in %s for %r" % (sid, b.count(o), f, old))
        open(p, "wb").write(b.replace(o, n))
    d = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, check=True).stdout
    out = os.path.join(VERIF, "seeded", sid); os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "wb").write(d)
    open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'); os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(demo.lstrip("\n")); shutil.copy(HERE + "/h.py", out + "/h.py")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    subprocess.run(["rm", "-rf", w]); print(sid, len(d))
