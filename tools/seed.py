"""Development aid: writes a planted bug into seeded/<id> and tries its demonstration with and without the change in a
scratch copy (/tmp/wt).  mk(id, property, needs, breaks, [(path, old, new)...], demo) ; demo is python text."""
import os, subprocess, json, shutil, sys
V = "/verif/seeded/"; WT = "/tmp/wt"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(WT): sh("cp -a /repo " + WT)
    sh("cd %s && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git checkout -q -- ." % WT)
def edit(path, reps):
    p = WT + "/" + path
    s = open(p, newline="").read(); crlf = "\r\n" in s
    if crlf: s = s.replace("\r\n", "\n")
    for o, n in reps:
        assert s.count(o) == 1, (path, s.count(o), o)
        s = s.replace(o, n)
    if crlf: s = s.replace("\n", "\r\n")
    open(p, "w", newline="").write(s)
def demo(d):
    r = sh("timeout 280 bash %s/demo.sh" % d, cwd=WT)
    return r.returncode, (r.stdout + r.stderr)[-700:]
def mk(id, prop, needs, breaks, edits, text, run=True):
    d = V + id; os.makedirs(d, exist_ok=True)
    fresh()
    by = {}
    for p, o, n in edits: by.setdefault(p, []).append((o, n))
    for p, r in by.items(): edit(p, r)
    diff = subprocess.run("git diff", shell=True, capture_output=True, cwd=WT).stdout
    open(d + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy("/verif/tools/demo_lib.py", d + "/demo_lib.py")
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom demo_lib import *\n" + text)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    if run:
        b = demo(d); sh("git checkout -q -- .", cwd=WT); g = demo(d)
        print(id, "with change:", b[0], b[1][-400:].strip(), "| without:", g[0], "" if g[0] == 0 else g[1])
        return b[0] not in (0,) and g[0] == 0
