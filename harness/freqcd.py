"""Drives the real freqcd program (C01-C04) and records what it did."""
import concurrent.futures as cf
import os
import random
import re
import signal
import subprocess
import threading
import time

from common import (NCPU, REPO, VERIF, MachineryError, big, cfg_with, chars, design,
                    generate, validate)

TSM = (1 << 54) - 1
FMAX = 2097151


def build(ctx):
    """Builds the program and the shim from the current working tree."""
    exe = os.path.join(ctx.scratch, "freqcd")
    src = [os.path.join(REPO, "src/fpfind/freqcd.c"), os.path.join(REPO, "src/fpfind/lib/getopt.c")]
    p = subprocess.run(["gcc", "-o", exe, *src, "-lm"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise MachineryError("freqcd does not compile:\n" + p.stdout[-2000:])
    so = os.path.join(ctx.scratch, "shim.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so,
                        os.path.join(VERIF, "harness/shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise MachineryError("shim does not compile:\n" + p.stdout[-2000:])
    return exe, so


def ev_bytes(ts, low, legacy):
    e = ((ts & TSM) << 10) | (low & 1023)
    if legacy:
        e = ((e & 0xffffffff) << 32) | (e >> 32)
    return e.to_bytes(8, "little")


class Sched:
    """A schedule for one run, built step by step."""

    def __init__(self, legacy=False, f0=None, freq=False, files=False, decimal=False):
        self.legacy, self.f0, self.freq, self.files = legacy, f0, freq, files
        self.steps = []           # (in, freq, write)
        self.faulty = False
        self.decimal = decimal

    def step(self, i="-", f="-", w="-"):
        if isinstance(i, (bytes, bytearray)):
            i = i.hex() if i else "-"
        if isinstance(f, (bytes, bytearray)):
            f = f.hex() if f else "-"
        self.steps.append((i, f, w))

    def args(self):
        a = []
        if self.legacy:
            a.append("-x")
        if self.f0 is not None:
            a += ["-f", str(self.f0)]
        if self.decimal:
            a.append("-d")
        if self.freq:
            a += ["-F", "FREQ"]
        if self.files:
            a += ["-i", "INP", "-o", "OUT"]
        return a


_lock = threading.Lock()
_ctr = [0]


_hung = [0]


def patience(t=20):
    """How long to wait for a run; less once several were waited for in vain."""
    return t if _hung[0] < 4 else 2


def run_sched(ctx, exe, so, sc):
    with _lock:
        _ctr[0] += 1
        n = _ctr[0]
    d = os.path.join(ctx.scratch, f"r{n}")
    os.mkdir(d)
    scr, log = os.path.join(d, "s"), os.path.join(d, "l")
    with open(scr, "w") as f:
        f.write("".join("%s %s %s\n" % s for s in sc.steps))
    env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": so, "SHIM_SCRIPT": scr, "SHIM_LOG": log}
    if sc.freq:
        env["SHIM_FREQ"] = "FREQ"
    if sc.files:
        env["SHIM_IN"], env["SHIM_OUT"] = "INP", "OUT"
    try:
        p = subprocess.run([exe, *sc.args()], cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=patience())
        code = p.returncode
    except subprocess.TimeoutExpired:
        _hung[0] += 1
        code = 999
    rounds = []
    cur = None
    hang = False
    eof = left = 0
    text = open(log).read() if os.path.exists(log) else ""
    for line in text.splitlines():
        t = line[:1]
        if line == "HANG":
            hang = True
            continue
        if line == "FD":
            left = 1
            continue
        if t == "W" or cur is None:
            cur = {"i": bytearray(), "f": bytearray(), "o": bytearray(), "w": 0}
            rounds.append(cur)
            if t == "W":
                continue
        v = line[2:]
        if line == "OE":
            cur["w"] = 1
        elif t == "I":
            if v == "e":
                cur["w"] = 1
            elif v == "z":
                eof = 1
            else:
                cur["i"] += bytes.fromhex(v)
        elif t == "F":
            if v == "e":
                cur["w"] = 1
            elif v != "z":
                cur["f"] += bytes.fromhex(v)
        elif t == "O":
            cur["o"] += bytes.fromhex(v)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    if hang:
        code = 999
    waitfail = any(s[0].startswith("w") for s in sc.steps)
    if waitfail and rounds:
        # everything from the failing wait on is covered by the prefix promise only
        rounds[-1]["w"] = 1
    rr = [{"i": list(r["i"]), "f": list(r["f"]), "o": list(r["o"]), "w": r["w"]}
          for r in rounds if r["i"] or r["f"] or r["o"] or r["w"]]
    return {"legacy": int(sc.legacy), "f0": sc.f0 or 0, "rounds": rr, "exit": code, "eof": eof, "left": left,
            "_label": "freqcd", "_replay": {"args": sc.args(), "steps": [list(s) for s in sc.steps]}}


def run_all(ctx, exe, so, scheds):
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda s: run_sched(ctx, exe, so, s), scheds))


# --------------------------------------------------------------------------
# event and correction material
# --------------------------------------------------------------------------
class Source:
    """Produces event bytes with chosen gaps."""

    def __init__(self, rng, legacy, start=None):
        self.rng, self.legacy = rng, legacy
        self.ts = start if start is not None else rng.choice(
            [0, 1, TSM, TSM - rng.randrange(1 << 30), rng.getrandbits(54), rng.getrandbits(32), 1 << 53])
        self.first = True
        self.tail = b""           # undelivered bytes of the last event
        self.tailgap = 0          # gap before that event
        self.budget = 0
        self.k = 0

    def event(self, gap):
        # what arrives at once spans less than the range of timestamps
        g = self.gap(gap)
        if self.first:
            g = 0
        if g > self.budget:
            g = self.budget >> self.rng.randrange(0, 8)
        self.budget -= g
        self.lastgap = g
        if not self.first:
            self.ts = (self.ts + g) & TSM
        self.first = False
        self.k += 1
        low = self.rng.getrandbits(10)
        return ev_bytes(self.ts, low, self.legacy)

    def gap(self, g):
        r = self.rng
        if isinstance(g, int):
            return g
        return {"zero": lambda: 0,
                "one": lambda: r.randrange(1, 4),
                "sub": lambda: r.randrange(1, 4096),
                "mid": lambda: r.randrange(4096, 1 << 22),
                "sec": lambda: r.randrange(1 << 36, 1 << 39),
                "hour": lambda: r.randrange(1 << 48, 1 << 51),
                "top": lambda: r.randrange(1 << 53, 1 << 54),
                "mix": lambda: r.getrandbits(r.randrange(1, 54))}[g]()

    def take(self, n, gap):
        b = self.tail
        self.budget = (1 << 54) - 8192 - self.tailgap
        while len(b) < n:
            b += self.event(gap)
            self.tailgap = self.lastgap
        self.tail = b[n:]
        if not self.tail:
            self.tailgap = 0
        return b[:n]


BAD_LINES = ["abc", "12x", "1.5", "--3", "+", "-", "0x10", "1e3", "12,", "7-", "x5", "\x7f", "5;"]
# only streams can have a zero byte in a line
NUL_LINES = ["12\0", "1000000\0junk", "\0", "\0" "7", "-5\0" "3", "-1048576\0\0"]
STREAM_BAD = BAD_LINES + NUL_LINES
RANGE_LINES = ["2097152", "-2097152", "2097153", "4294967301", "-4294967291", "99999999999999999999",
               "2147483648", "-2147483648", "2147483647", "8589934597", "18446744073709551621",
               "3000000", "-100000000", "9223372036854775808", "-9223372036854775809"]


def rand_f(rng):
    return rng.choice([0, 1, -1, FMAX, -FMAX, rng.randrange(-FMAX, FMAX + 1), rng.randrange(-FMAX, FMAX + 1),
                       rng.randrange(-2000, 2000), 1 << rng.randrange(0, 21), -(1 << rng.randrange(0, 21))])


def f_text(rng, v=None):
    v = rand_f(rng) if v is None else v
    t = str(v)
    x = rng.random()
    if v >= 0 and x < 0.1:
        t = "+" + t
    elif x < 0.2:
        t = ("-" if v < 0 else "") + "00" + str(abs(v))
    return t


class FreqSource:
    def __init__(self, rng):
        self.rng, self.rest = rng, None

    def token(self, tok):
        r = self.rng
        if tok == "none":
            return b""
        if tok == "whole":
            s = f_text(r) + "\n"
        elif tok == "two":
            s = f_text(r) + "\n" + r.choice([f_text(r), r.choice(STREAM_BAD), r.choice(RANGE_LINES)]) + "\n"
        elif tok == "bad":
            s = r.choice(STREAM_BAD) + "\n"
        elif tok == "range":
            s = r.choice(RANGE_LINES) + "\n"
        elif tok == "empty":
            s = "\n"
        elif tok == "part":
            t = f_text(r)
            k = r.randrange(1, len(t) + 1)
            self.rest = t[k:] + "\n"
            s = t[:k]
            if r.random() < 0.3:
                s = f_text(r) + "\n" + s
        elif tok == "badpart":
            t = r.choice(STREAM_BAD + RANGE_LINES)
            k = r.randrange(1, len(t) + 1)
            self.rest = t[k:] + "\n"
            s = t[:k]
        elif tok == "rest":
            s = self.rest or "\n"
            self.rest = None
            if r.random() < 0.2:
                s = s + f_text(r) + "\n"
        return s.encode()


NBYTES = {"b1": 1, "b3": 3, "b4": 4, "b7": 7, "b8": 8, "b9": 9, "b12": 12, "ev2": 16, "ev3": 24, "ev9": 72}


def concretise(rng, sched, freq, zero=False):
    """A schedule of GenFreqcd turned into bytes."""
    legacy = rng.random() < 0.5
    f0 = 0 if zero else rand_f(rng)
    sc = Sched(legacy, f0 if (f0 or rng.random() < 0.5) else None, freq, rng.random() < 0.5)
    src, fs = Source(rng, legacy), FreqSource(rng)
    for r in sched:
        if r["i"] == "none":
            i = b""
        elif r["i"] == "rest":
            i = src.take(len(src.tail) or 8, r["g"])
        else:
            i = src.take(NBYTES[r["i"]], r["g"])
        f = fs.token(r["f"])
        w = "-"
        if r["w"] == "short":
            w = "s%d" % rng.choice([0, 1, 4, 7, 8, 9, 12, 16])
            sc.faulty = True
        elif r["w"] == "err":
            w = "e:%d" % rng.choice([4, 11, 28, 32])
            sc.faulty = True
        elif r["w"] == "readerr":
            sc.step("e:%d" % rng.choice([4, 5, 11]), "-", "-")
            sc.faulty = True
            continue
        elif r["w"] == "waiterr":
            sc.step("w4", "-", "-")
            sc.faulty = True
            continue
        elif r["w"] == "freqerr":
            f = "e:%d" % rng.choice([5, 11]) if freq else b""
            sc.faulty = True
        sc.step(i, f, w)
    # let the last correction show: one more event far away, then the end
    if freq:
        sc.step(b"", fs.token("rest") if fs.rest else b"")
        if rng.random() < 0.5:
            sc.step("-", "z")
    need = len(src.tail)
    if need:
        sc.step(src.take(need, "sec"))
    sc.step(src.take(8, "hour"))
    sc.step("z")
    return sc


def generated(ctx, n, depth, freq, fault, zero=False, reps=1):
    cfg = cfg_with("GenFreqcd", Depth=str(depth), WithFreq="TRUE" if freq else "FALSE",
                   WithFault="TRUE" if fault else "FALSE")
    out = []
    for s in generate(ctx, "GenFreqcd", cfg, n, depth + 3):
        for _ in range(reps):
            out.append(concretise(ctx.rng, s, freq or (fault and ctx.rng.random() < 0.3), zero))
    return out


def design_freqcd(ctx, defects=True):
    base = cfg_with("MCFreqcd")
    good = [("4 events, 1 correction", base)]
    if ctx.thorough():
        good.append(("5 events, 2 corrections",
                     cfg_with("MCFreqcd", MaxEvents="5", MaxUpd="2", Gaps="{0, 1, 7, 40}", Fs="<- FsWide")))
    bad = [(d, cfg_with("MCFreqcd", Defect=f'"{d}"'))
           for d in ("reapply", "nomask", "nofrac", "losepartial", "norange")] if defects else []
    design(ctx, "MCFreqcd", good, bad)


def handmade_blocks(rng, zero, sizes):
    """Large deliveries: more than one buffer of events at once, odd splits."""
    out = []
    for total, legacy in sizes:
        f0 = 0 if zero else rng.choice([FMAX, -FMAX, 12345, -1])
        sc = Sched(legacy, f0, False, rng.random() < 0.5)
        src = Source(rng, legacy)
        left = total * 8 + rng.choice([0, 0, 3, 7])
        while left > 0:
            n = min(left, rng.choice([1, 5, 8, 8184, 8192, 8193, 8199, 9000, 16384, 20000, left]))
            sc.step(src.take(n, "mix"))
            left -= n
            if rng.random() < 0.3:
                sc.step()
        out.append(sc)
    return out


# --------------------------------------------------------------------------
# C01
# --------------------------------------------------------------------------
def check_C01(ctx):
    exe, so = build(ctx)
    design_freqcd(ctx)
    sch = []
    sch += generated(ctx, ctx.scale(250, 2500), 6, False, False, zero=True)
    sch += generated(ctx, ctx.scale(120, 1200), 5, True, False)
    sch += generated(ctx, ctx.scale(150, 1500), 5, False, True)
    r = ctx.rng
    # every split of three events into at most three deliveries
    cuts = [(a, b) for a in range(0, 25) for b in range(a, 25)]
    if not ctx.thorough():
        cuts = r.sample(cuts, 110)
    for a, b in cuts:
        legacy = r.random() < 0.5
        sc = Sched(legacy, r.choice([None, 0]), False, r.random() < 0.5)
        src = Source(r, legacy)
        data = src.take(24, r.choice(["sub", "mid", "hour"]))
        for p in (data[:a], data[a:b], data[b:]):
            if p:
                sc.step(p)
            if r.random() < 0.2:
                sc.step()
        out = sc
        if r.random() < 0.5:
            sc.step("z")
        sch.append(out)
    sch += handmade_blocks(r, True, [(1500, False), (2100, True), (1024, False), (1025, True)])
    sch += handmade_blocks(r, False, [(1300, False), (1100, True)])
    # byte by byte
    for legacy in (False, True):
        sc = Sched(legacy, None)
        for b in Source(r, legacy).take(8 * 6, "mid"):
            sc.step(bytes([b]))
        sch.append(sc)
    sch.append(Sched(False, None))     # nothing at all
    # long pauses: minutes to hours without an event
    for before, between in ((0, 40), (700, 0), (0, 3000), (9000, 20)):
        sc = Sched(r.random() < 0.5, r.choice([0, 1000]), r.random() < 0.5, r.random() < 0.5)
        src = Source(r, sc.legacy)
        for _ in range(before):
            sc.step()
        for n in (3, 1, 2):
            sc.step(src.take(8 * n + r.choice([0, 3]), "sec"))
            for _ in range(between):
                sc.step()
        sc.step(src.take(len(src.tail) or 8, "sec"))
        sch.append(sc)
    # corrections arriving while no events do must not cause output
    for _ in range(ctx.scale(20, 200)):
        legacy = r.random() < 0.5
        sc = Sched(legacy, rand_f(r), True)
        src, fs = Source(r, legacy), FreqSource(r)
        for _ in range(r.randrange(3, 9)):
            x = r.random()
            if x < 0.5:
                sc.step(b"", fs.token(r.choice(["whole", "two", "bad", "range", "empty"])))
            elif x < 0.8:
                sc.step(src.take(r.choice([3, 8, 13, 16, 40]), "sec"))
            else:
                sc.step()
        sch.append(sc)
    runs = run_all(ctx, exe, so, sch)
    # whole-file runs without the stand-in: real files, pipes and FIFOs
    runs += real_runs(ctx, exe)
    validate(ctx, "TraceFreqcd", runs, shards=NCPU)
    ctx.notes["program_runs"] = len(runs)
    ctx.notes["output_events"] = sum(len(x["o"]) // 8 for r in runs for x in r["rounds"])


def real_runs(ctx, exe):
    """Runs with the real system calls: regular files, pipes, FIFO corrections."""
    r = ctx.rng
    runs = []
    for mode in ("files", "pipe", "fifo-idle", "fifo-in", "mixed"):
        for legacy in (False, True):
            d = ctx.path("real")
            os.mkdir(d)
            n = r.choice([0, 1, 700, 1500])
            if mode in ("fifo-in", "pipe"):
                n = r.choice([900, 1500])
            data = Source(r, legacy).take(8 * n + r.choice([0, 0, 5]), "mix")
            f0 = r.choice([0, 1000, -77])
            args = ["-f", str(f0)] + (["-x"] if legacy else [])
            inp = os.path.join(d, "in put.dat" if r.random() < 0.5 else "in")
            outp = os.path.join(d, "out put.dat" if r.random() < 0.5 else "out")
            kw = dict(stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            writer = None
            if mode in ("files", "fifo-idle"):
                open(inp, "wb").write(data)
                # an old, longer output file must be replaced entirely
                open(outp, "wb").write(b"\xff" * (len(data) + 800))
                args += ["-i", inp, "-o", outp]
            if mode == "mixed":
                open(inp, "wb").write(data)
                args += ["-i", inp]
            if mode in ("fifo-idle",):
                os.mkfifo(os.path.join(d, "fq"))
                args += ["-F", os.path.join(d, "fq")]
            if mode == "fifo-in":
                os.mkfifo(inp)
                args += ["-i", inp, "-o", outp]
            if mode == "pipe":
                kw["stdin"] = subprocess.PIPE
            hold = None
            try:
                if mode == "fifo-in":
                    hold = os.open(inp, os.O_RDWR | os.O_NONBLOCK)
                p = subprocess.Popen([exe, *args], cwd=d, **kw)
                if mode == "fifo-in":
                    def feed():
                        pos = 0
                        while pos < len(data):
                            k = r2.choice([5, 333, 4096, 9000])
                            try:
                                pos += os.write(hold, data[pos:pos + k])
                            except BlockingIOError:
                                time.sleep(0.002)
                            if p.poll() is not None:
                                break
                        # close only after the program has the FIFO open and has drained it
                        time.sleep(0.3)
                        os.close(hold)
                    r2 = random.Random(1)
                    t = threading.Thread(target=feed)
                    t.start()
                    so_, _ = p.communicate(timeout=patience(30))
                    t.join()
                else:
                    so_, _ = p.communicate(input=data if mode == "pipe" else None, timeout=patience(30))
                code = p.returncode
            except subprocess.TimeoutExpired:
                _hung[0] += 1
                p.kill()
                so_, _ = p.communicate()
                code = 999
            out = open(outp, "rb").read() if "-o" in args and os.path.exists(outp) else (so_ or b"")
            runs.append({"legacy": int(legacy), "f0": f0, "exit": code, "eof": 1, "left": 0,
                         "rounds": [{"i": list(data), "f": [], "o": list(out), "w": 0}],
                         "_label": "real-" + mode, "_replay": {"args": args, "mode": mode}})
    return runs


# --------------------------------------------------------------------------
# C02
# --------------------------------------------------------------------------
def check_C02(ctx):
    exe, so = build(ctx)
    design_freqcd(ctx)
    r = ctx.rng
    sch = generated(ctx, ctx.scale(250, 2500), 6, False, False)
    # drip: many tiny deliveries, so that per-read rounding would accumulate
    for f0 in (FMAX, -FMAX, 1500000, -1, 1, 3, -700001):
        for gap in (1000, 4095, 4097, 100000, 1 << 33, "sub"):
            legacy = r.random() < 0.5
            sc = Sched(legacy, f0, False, r.random() < 0.3)
            src = Source(r, legacy)
            for _ in range(ctx.scale(60, 400)):
                sc.step(src.take(8, gap))
            sch.append(sc)
    # long gaps, rollover, extremes
    for f0 in (FMAX, -FMAX, 1, -1, 0, 999999, -1048576):
        for start in (0, TSM, TSM - (1 << 40), 1 << 53, r.getrandbits(54)):
            for per in (1, 3, 50):
                legacy = r.random() < 0.5
                sc = Sched(legacy, f0)
                src = Source(r, legacy, start)
                for _ in range(3):
                    sc.step(src.take(8 * per, r.choice(["top", "hour", "mix", "sec"])))
                    if r.random() < 0.3:
                        sc.step(src.take(r.choice([2, 5, 11]), "mix"))
                sch.append(sc)
    sch += handmade_blocks(r, False, [(1500, False), (1500, True), (2500, False)] * ctx.scale(1, 4))
    # the same stream in different deliveries
    for _ in range(ctx.scale(15, 150)):
        legacy = r.random() < 0.5
        f0 = rand_f(r)
        n = r.randrange(20, 60)
        data = Source(r, legacy).take(8 * n, r.choice(["sub", "mid", "sec", "mix"]))
        for style in ("one", "events", "random"):
            sc = Sched(legacy, f0)
            pos = 0
            while pos < len(data):
                k = {"one": len(data), "events": 8, "random": r.randrange(1, 90)}[style]
                sc.step(data[pos:pos + k])
                pos += k
            sch.append(sc)
    runs = run_all(ctx, exe, so, sch)
    validate(ctx, "TraceFreqcd", runs, shards=NCPU)
    ctx.notes["program_runs"] = len(runs)


# --------------------------------------------------------------------------
# C03
# --------------------------------------------------------------------------
def check_C03(ctx):
    exe, so = build(ctx)
    design_freqcd(ctx)
    r = ctx.rng
    sch = generated(ctx, ctx.scale(300, 3000), 7, True, False)
    # every split of correction texts
    texts = [b"1234567\n-2000000\n", b"-7\n", b"2097151\n-2097151\n5\n", b"12\nabc\n99\n2097152\n-3\n"]
    for t in texts:
        for cut in range(0, len(t) + 1):
            for cut2 in ([cut] if not ctx.thorough() else range(cut, len(t) + 1)):
                legacy = r.random() < 0.5
                sc = Sched(legacy, rand_f(r), True, r.random() < 0.3)
                src = Source(r, legacy)
                sc.step(src.take(8, "sec"))
                for p in (t[:cut], t[cut:cut2], t[cut2:]):
                    if p:
                        sc.step(b"", p)
                    sc.step(src.take(8 * r.choice([1, 2]), "hour"))
                sch.append(sc)
    # byte-wise text, unterminated last line, end of the stream
    for t in (b"1500000\n", b"-1500000\n77", b"100000", b"", b"\n\n9\n"):
        for eof in (False, True):
            sc = Sched(False, 1000, True)
            src = Source(r, False)
            sc.step(src.take(8, "sec"))
            for b in t:
                sc.step(b"", bytes([b]))
            if eof:
                sc.step("-", "z")
            sc.step(src.take(16, "hour"))
            sc.step(src.take(16, "sec"))
            sch.append(sc)
    # overlong garbage, followed by a good value
    for n in (97, 98, 99, 100, 101, 150, 198, 199, 300, 500):
        for ch in (b"x", b"9", b"1"):
            for mode in ("whole", "pieces"):
                sc = Sched(False, 321, True)
                src = Source(r, False)
                sc.step(src.take(8, "sec"))
                t = ch * n + b"\n"
                if mode == "whole":
                    sc.step(b"", t)
                else:
                    pos = 0
                    while pos < len(t):
                        k = r.choice([1, 10, 50, 99])
                        sc.step(b"", t[pos:pos + k])
                        pos += k
                sc.step(src.take(8, "hour"))
                sc.step(b"", b"-654321\n")
                sc.step(src.take(8, "hour"))
                sch.append(sc)
    # long pauses between corrections, with and without events meanwhile
    for gap, events in ((60, 0), (1500, 0), (25, 1), (400, 1)):
        sc = Sched(r.random() < 0.5, 77, True)
        src = Source(r, sc.legacy)
        sc.step(src.take(8, "sec"))
        for v in (b"1000000\n", b"-2000", b"000\n", b"2097151\n"):
            for k in range(gap):
                sc.step(src.take(8, "mid") if events and k % 16 == 0 else b"")
            sc.step(b"", v)
            sc.step(src.take(8, "hour"))
        sch.append(sc)
    # many values in one delivery (more than one read)
    for _ in range(ctx.scale(20, 200)):
        sc = Sched(False, None, True)
        src = Source(r, False)
        sc.step(src.take(8, "sec"))
        t = "".join((f_text(r) if r.random() < 0.8 else r.choice(STREAM_BAD + RANGE_LINES)) + "\n"
                    for _ in range(r.randrange(5, 40))).encode()
        sc.step(b"", t)
        sc.step(src.take(8, "hour"))
        sc.step(b"", r.choice([b"", b"17\n"]))
        sc.step(src.take(24, "hour"))
        sch.append(sc)
    # corrections before the first event; long interleavings
    for _ in range(ctx.scale(40, 400)):
        legacy = r.random() < 0.5
        sc = Sched(legacy, rand_f(r), True, r.random() < 0.3)
        src, fs = Source(r, legacy), FreqSource(r)
        both = 0
        for _ in range(r.randrange(6, 30)):
            x = r.random()
            if x < 0.45:
                sc.step(b"", fs.token(r.choice(["whole", "whole", "two", "part", "bad", "range", "badpart"])))
            elif x < 0.9:
                sc.step(src.take(r.choice([8, 8, 16, 5, 3, 30]), r.choice(["sub", "mid", "sec", "hour", "mix"])))
            elif both < 3:
                both += 1
                sc.step(src.take(8, "sec"), fs.token("whole"))
        sch.append(sc)
    runs = run_all(ctx, exe, so, sch)
    runs += real_fifo_corrections(ctx, exe)
    validate(ctx, "TraceFreqcd", runs, shards=NCPU)
    ctx.notes["program_runs"] = len(runs)


def real_fifo_corrections(ctx, exe):
    """Real FIFOs: events, then a correction, then events, in lock step."""
    runs = []
    r = ctx.rng
    for legacy in (False, True):
        d = ctx.path("fifo")
        os.mkdir(d)
        fq = os.path.join(d, "fq")
        os.mkfifo(fq)
        args = ["-f", "500", "-F", fq] + (["-x"] if legacy else [])
        p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, bufsize=0)
        rounds = []
        src = Source(r, legacy)
        code = None
        h = None

        def readn(n):
            limit = patience()
            out = b""
            os.set_blocking(p.stdout.fileno(), False)
            t0 = time.time()
            while len(out) < n and time.time() - t0 < limit:
                b = p.stdout.read(n - len(out))
                if b:
                    out += b
                else:
                    if p.poll() is not None:
                        break
                    time.sleep(0.002)
            if len(out) < n:
                _hung[0] += 1
            return out
        try:
            for v in (None, b"-1900000\n", b"20", b"00000\n", b"oops\n"):
                f = b""
                if v is not None:
                    if h is None:
                        t0 = time.time()
                        while h is None:
                            try:
                                h = os.open(fq, os.O_WRONLY | os.O_NONBLOCK)
                            except OSError:
                                if time.time() - t0 > patience():
                                    raise subprocess.TimeoutExpired("fifo", 20)
                                time.sleep(0.002)
                    os.write(h, v)
                    f = v
                    # taken once the FIFO is empty again
                    import fcntl, struct, termios
                    t0 = time.time()
                    while time.time() - t0 < patience():
                        if struct.unpack("i", fcntl.ioctl(h, termios.FIONREAD, b"\0\0\0\0"))[0] == 0:
                            break
                        time.sleep(0.002)
                    time.sleep(0.02)
                    rounds.append({"i": [], "f": list(f), "o": [], "w": 0})
                e = src.take(16, "hour")
                p.stdin.write(e)
                o = readn(16)
                rounds.append({"i": list(e), "f": [], "o": list(o), "w": 0})
            p.stdin.close()
            code = p.wait(timeout=patience())
        except subprocess.TimeoutExpired:
            _hung[0] += 1
            p.kill()
            p.wait()
            code = 999
        except BrokenPipeError:
            code = p.wait()
        if h is not None:
            os.close(h)
        p.stdout.close()
        runs.append({"legacy": int(legacy), "f0": 500, "rounds": rounds, "exit": code, "eof": 1, "left": 0,
                     "_label": "real-fifo", "_replay": {"args": args}})
    return runs


# --------------------------------------------------------------------------
# C04
# --------------------------------------------------------------------------
def run_arg(ctx, exe, text, dec, style):
    with _lock:
        _ctr[0] += 1
        n = _ctr[0]
    d = os.path.join(ctx.scratch, f"a{n}")
    os.mkdir(d)
    rng = random.Random(f"{ctx.seed}/{n}")
    t0 = rng.choice([0, 1 << 20, rng.getrandbits(54)])
    ev = ev_bytes(t0, rng.getrandbits(10), False) + ev_bytes(t0 + (1 << 53), rng.getrandbits(10), False)
    old = b"previous contents of the output file"
    with open(os.path.join(d, "in"), "wb") as f:
        f.write(ev)
    with open(os.path.join(d, "out"), "wb") as f:
        f.write(old)
    fargs = ["-f" + text] if style % 2 and text else ["-f", text]
    rest = ["-i", "in", "-o", "out"]
    dargs = ["-d"] if dec else []
    args = [dargs + fargs + rest, rest + fargs + dargs, rest + dargs + fargs, fargs + dargs + rest][style % 4]
    try:
        p = subprocess.run([exe, *args], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=patience())
        code = p.returncode
    except subprocess.TimeoutExpired:
        _hung[0] += 1
        code = 999
    out = None
    if os.path.exists(os.path.join(d, "out")):
        out = open(os.path.join(d, "out"), "rb").read()
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    kept = int(out == old)
    return {"t": chars(text), "dec": int(dec), "exit": code, "kept": kept, "i": list(ev),
            "o": list(out[:64]) if out is not None and not kept else [], "_label": "freqcd -f",
            "_replay": {"args": args}}


def check_C04(ctx):
    exe, so = build(ctx)
    r = ctx.rng
    base = cfg_with("MCFreqArg")
    good = [("texts up to length 4", base)]
    if ctx.thorough():
        good.append(("texts up to length 5", cfg_with("MCFreqArg", MaxLen="5")))
    design(ctx, "MCFreqArg", good,
           [(d, cfg_with("MCFreqArg", Defect=f'"{d}"', MaxLen="4",
                         Alphabet="{45, 48, 49, 57}" if d in ("wrap", "truncated") else "{45, 50, 57, 120}"))
            for d in ("wrap", "prefix", "late", "convert", "truncated")])
    # every text over a small alphabet, enumerated by TLC
    from common import enumerate_states
    cases = enumerate_states(ctx, "MCFreqArg",
                             cfg_with("MCFreqArg", Alphabet="{43, 45, 48, 55, 46, 101}", Emit="TRUE",
                                      MaxLen=str(ctx.scale(3, 4))))
    todo = [("".join(map(chr, c["t"])), c["d"]) for c in cases]
    if not ctx.thorough():
        todo = r.sample(todo, min(len(todo), 350))
    for lim, dec in ((2097152, False), (1220703, True), (2097152, True), (1220703, False)):
        for k in (-3, -2, -1, 0, 1, 2, 3):
            for s in ("", "-", "+", "00"):
                todo.append((s + str(lim + k), dec))
    for p in (31, 32, 33, 63, 64, 65, 128):
        for k in (-100001, -2, -1, 0, 1, 2, 100001):
            for s in ("", "-"):
                todo.append((s + str((1 << p) + k), r.random() < 0.5))
                if dec:
                    todo.append((s + str(((1 << p) + k) * 10 ** 10 // (1 << 34)), True))
    for t in BAD_LINES + RANGE_LINES + ["", "9" * 40, "-" + "9" * 40, "1\n", "5\t"]:
        for dec in (False, True):
            todo.append((t, dec))
    for _ in range(ctx.scale(250, 4000)):
        dec = r.random() < 0.5
        v = rand_f(r) if r.random() < 0.6 else r.choice([1, -1]) * r.getrandbits(r.randrange(1, 90))
        todo.append((f_text(r, v), dec))
    todo = [(t, d) for t, d in todo if not t.startswith("h")]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        runs = list(ex.map(lambda x: run_arg(ctx, exe, x[1][0], x[1][1], x[0]), enumerate(todo)))
    validate(ctx, "TraceFreqArg", runs, shards=4, label="freqcd -f")
    # invalid corrections on the correction stream
    design_freqcd(ctx, defects=False)
    sch = []
    for t in RANGE_LINES + STREAM_BAD + ["2097151", "-2097151", ""]:
        for prev in (None, "123456", "-2000000"):
            for rep in range(ctx.scale(2, 6)):
                legacy = r.random() < 0.5
                sc = Sched(legacy, rand_f(r), True, r.random() < 0.3)
                # -d changes the unit of -f only
                src = Source(r, legacy)
                sc.step(src.take(8, "sec"))
                pre = (prev + "\n").encode() if prev else b""
                sc.step(b"", pre + t.encode() + b"\n" + (b"" if rep == 0 else (r.choice(STREAM_BAD + RANGE_LINES) + "\n").encode()))
                sc.step(src.take(16, "hour"))
                sch.append(sc)
    for _ in range(ctx.scale(60, 600)):
        legacy = r.random() < 0.5
        sc = Sched(legacy, rand_f(r), True)
        src, fs = Source(r, legacy), FreqSource(r)
        sc.step(src.take(8, "sec"))
        for _ in range(r.randrange(2, 8)):
            sc.step(b"", fs.token(r.choice(["bad", "range", "bad", "range", "badpart", "rest", "whole"])))
            if r.random() < 0.6:
                sc.step(src.take(8, "hour"))
        sc.step(src.take(8, "hour"))
        sch.append(sc)
    for s in sch:
        if r.random() < 0.3:
            s.decimal, s.f0 = True, None     # the unit of -f changes, that of -F does not
    sruns = run_all(ctx, exe, so, sch)
    validate(ctx, "TraceFreqcd", sruns, shards=NCPU)
    ctx.notes["program_runs"] = len(runs) + len(sruns)
