"""mkseed(id, property, edits, demo, needs, breaks, files): writes seeded/<id>/."""
import json
import os
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mkseed(sid, prop, edits, demo, needs, breaks, files=None):
    d = os.path.join(ROOT, "seeded", sid)
    shutil.rmtree(d, True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mkseed-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t + "/r", stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(t, True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    for n, c in (files or {}).items():
        open(os.path.join(d, n), "w").write(c)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
