#!/usr/bin/env python3
"""tryseed.py ID [--no-check] [--check P ...]: confirms a planted change in a scratch copy of /repo.

Not part of any check.  Applies seeded/ID/patch.diff to a copy, runs the
stable tests there, the demonstration with and without the patch, and the
check of the property against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo(sid, cwd):
    d = tempfile.mkdtemp(prefix="demo-")
    src = os.path.join(ROOT, "seeded", sid)
    for f in os.listdir(src):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(src, f), d)
    try:
        p = sh(["bash", os.path.join(d, "demo.sh")], cwd=cwd, timeout=300)
        return p.returncode, p.stdout[-600:]
    finally:
        shutil.rmtree(d, True)


def main():
    sid = sys.argv[1]
    meta = json.load(open(os.path.join(ROOT, "seeded", sid, "meta.json")))
    copy = tempfile.mkdtemp(prefix="seed-")
    wt = os.path.join(copy, "repo")
    res = {}
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        res["demo_clean"] = demo(sid, wt)
        p = sh(["git", "apply", os.path.join(ROOT, "seeded", sid, "patch.diff")], cwd=wt)
        res["apply"] = (p.returncode, p.stdout)
        env = dict(os.environ, PYTHONPATH=os.path.join(wt, "src"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        p = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/parse_epochs", "tests/parse_timestamps", "-rA"], cwd=wt, env=env)
        p.stdout += sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--float64", "-m", "float64", "tests/parse_epochs/test_limits.py", "-rA"], cwd=wt, env=env).stdout
        bad = []
        for t in stable:
            mod, name = t.split("::", 1)
            line = "PASSED " + mod.replace(".", "/") + ".py::" + name
            if line not in p.stdout:
                bad.append(t)
        res["stable_failed"] = bad
        p = sh(["gcc", "-w", "-o", "/dev/null", "src/fpfind/freqcd.c", "src/fpfind/lib/getopt.c", "-lm"], cwd=wt)
        res["cc"] = p.returncode
        res["demo_patched"] = demo(sid, wt)
        ok = res["demo_clean"][0] == 0 and res["demo_patched"][0] != 0 and not bad and res["apply"][0] == 0 and res["cc"] == 0
        print(f"{sid}: {'VALID' if ok else 'INVALID'}")
        if not ok:
            print(json.dumps(res, indent=1))
        if "--no-check" not in sys.argv:
            props = sys.argv[sys.argv.index("--check") + 1:] if "--check" in sys.argv else [meta["property"]]
            for pr in props:
                env = dict(os.environ, FPFIND_REPO=wt, VERIF_EVIDENCE=copy)
                p = sh([sys.executable, os.path.join(ROOT, "harness", "run.py"), pr], env=env, cwd=ROOT)
                line = [x for x in p.stdout.splitlines() if x.strip()]
                print(f"   {pr}: exit {p.returncode}  " + " | ".join(line[-4:])[:400])
    finally:
        shutil.rmtree(copy, True)


main()
