"""Lines of the repository executed by a check (VERIF_COV=<dir>): written after every case, one file per worker process."""
import os, sys, json
LINES, _n = set(), [0]

def start():
    m = sys.monitoring; root = os.environ.get("VERIF_REPO", "/repo")
    m.use_tool_id(4, "linecov")
    def line(code, no):
        f = code.co_filename
        if f.startswith(root): LINES.add((f[len(root) + 1:], no))
        return m.DISABLE
    m.register_callback(4, m.events.LINE, line); m.set_events(4, m.events.LINE)

def dump():
    if len(LINES) == _n[0]: return
    _n[0] = len(LINES)
    json.dump(sorted(LINES), open(os.path.join(os.environ["VERIF_COV"], "%d.json" % os.getpid()), "w"))
