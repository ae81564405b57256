"""What the words of a call of freqcd ask for (C33)."""
import concurrent.futures as cf
import os
import random
import select
import shutil
import struct
import subprocess
import time

from common import NCPU, cfg_with, design, enumerate_states, generate, validate
from freqcd import build

CORR = {"C": "700", "D": "-1500000"}


def words_of(case):
    return ["".join(map(chr, w)) for w in case]


def pair(r):
    """Two events, a long time apart whichever half of a word is the upper one."""
    a = struct.pack("<II", r.randrange(1 << 20), r.randrange(1 << 20))
    return a, struct.pack("<II", r.randrange(1 << 29, 1 << 31), r.randrange(1 << 29, 1 << 31))


def read(p):
    with open(p, "rb") as f:
        return f.read()


class Call:
    def __init__(self, exe, d, words, r):
        self.d, self.words = d, words
        os.makedirs(d)
        self.ev = {n: pair(r) for n in ("", "A", "B")}
        self.old = {"O": r.randbytes(r.choice([3, 16, 500])), **{n: (t + "\n").encode() for n, t in CORR.items()}}
        for n, b in self.old.items():
            with open(os.path.join(d, n), "wb") as f:
                f.write(b)
        self.fifo = {}
        for n in ("A", "B"):
            os.mkfifo(os.path.join(d, n))
            self.fifo[n] = os.open(os.path.join(d, n), os.O_RDWR | os.O_NONBLOCK)
        self.out = b""
        self.p = subprocess.Popen([exe, *words], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)

    def send(self, k):
        for n, fd in self.fifo.items():
            os.write(fd, self.ev[n][k])
        try:
            self.p.stdin.write(self.ev[""][k])
        except BrokenPipeError:
            pass

    def changed(self):
        out = {}
        for n in os.listdir(self.d):
            if n not in self.fifo:
                b = read(os.path.join(self.d, n))
                if b != self.old.get(n):
                    out[n] = b
        return out

    def wait(self, n, seconds):
        """Until the program wrote n bytes to wherever it writes, or ended."""
        end = time.time() + seconds
        while time.time() < end:
            if select.select([self.p.stdout], [], [], 0.01)[0]:
                b = os.read(self.p.stdout.fileno(), 4096)
                self.out += b
                if not b:
                    return
            if len(self.out) >= n or any(len(b) == n for b in self.changed().values()):
                return
            if self.p.poll() is not None:
                return

    def run(self):
        self.send(0)
        self.wait(8, 10)
        time.sleep(0.03)
        self.send(1)
        self.wait(16, 10)
        for fd in self.fifo.values():
            os.close(fd)
        try:
            rest, err = self.p.communicate(timeout=10)
            code = self.p.returncode
        except subprocess.TimeoutExpired:
            self.p.kill()
            rest, err = self.p.communicate()
            code = 999
        self.out += rest
        return {"words": [list(w.encode()) for w in self.words], "exit": code, "said": int(bool(err.strip())), "out": list(self.out[:64]),
                "srcs": [{"n": list(n.encode()), "w": list(a + b)} for n, (a, b) in self.ev.items()],
                "corrs": [{"n": list(n.encode()), "t": list(t.encode())} for n, t in CORR.items()],
                "files": [{"n": list(n.encode()), "b": list(b[:64])} for n, b in sorted(self.changed().items())]}, err[-200:].decode(errors="replace")


def check_C33(ctx):
    design(ctx, "MCArgs", [("3 words", cfg_with("MCArgs"))] + ([("4 words", cfg_with("MCArgs", MaxWords="4"))] if ctx.thorough() else []),
           [(d, cfg_with("MCArgs", Defect=f'"{d}"')) for d in ("prefix", "unknown", "stray", "missing", "first", "order", "single", "stale", "dashed")])
    r = ctx.rng
    cases = []
    for k in (0, 1, 2):
        cs = sorted(enumerate_states(ctx, "GenArgs", cfg_with("GenArgs", Steps=str(k))))
        cases += cs if k < 2 or ctx.thorough() else r.sample(cs, 500)
    for k in (3, 4, 6):
        for bad in (0, 1):
            cases += generate(ctx, "GenArgs", cfg_with("GenArgs", Steps=str(k), MaxBad=str(bad)), ctx.scale(80, 800), k + 2, tag="CASE", seed=ctx.seed * 16 + 2 * k + bad)
    exe, _ = build(ctx)

    def one(job):
        k, case = job
        d = os.path.join(ctx.scratch, "call%05d" % k)
        call = Call(exe, d, words_of(case), random.Random(f"{ctx.seed}/{k}"))
        try:
            o, err = call.run()
        finally:
            shutil.rmtree(d, True)
        return {**o, "_label": "call", "_replay": {"words": call.words, "stderr": err, "number": k}}
    with cf.ThreadPoolExecutor(2 * NCPU) as ex:
        runs = list(ex.map(one, enumerate(cases)))
    validate(ctx, "TraceArgs", runs)
    ctx.notes["calls"] = len(runs)
