#!/usr/bin/env python3
"""Parses every specification once, so that a broken one is noticed early."""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from common import JARS, NCPU, SPEC  # noqa: E402


def main():
    d = tempfile.mkdtemp(prefix="verif-setup-")
    shutil.copytree(SPEC, d + "/spec")
    bad = []

    def one(f):
        p = subprocess.run(["java", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tla2sany.SANY", os.path.basename(f)],
                           cwd=d + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            bad.append(f + "\n" + p.stdout)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, sorted(glob.glob(d + "/spec/*.tla"))))
    shutil.rmtree(d, True)
    for b in bad:
        print(b)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
