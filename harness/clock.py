"""Arrays, correlation and the search for the clock offsets (C16-C22, C24)."""
import os
import re
from fractions import Fraction

from common import NCPU, big, call_worker, cfg_with, design, generate, validate
from eventfile import fail_of
from freqcd import build

SEC = 256 * 10 ** 9
LIM = 60


def nums(xs):
    return [big(-1 if x is None else x) for x in xs]


def refine_cfg(**kw):
    return cfg_with("MCRefine", **{k: str(v) for k, v in kw.items()})


def design_clock(ctx, which):
    if which == "arrays":
        good = [("4 bins", cfg_with("MCClockArrays", L="5"))]
        if ctx.thorough():
            good += [("4 bins, longer", cfg_with("MCClockArrays", L="7")), ("6 bins", cfg_with("MCClockArrays", N="6", L="6"))]
        bad = [(d, cfg_with("MCClockArrays", L="4", Defect=f'"{d}"')) for d in ("conj", "wrap", "larger", "first")]
        design(ctx, "MCClockArrays", good, bad)
    elif which == "refine":
        good = [("4 windows", refine_cfg()), ("bound", refine_cfg(Lim=3)),
                ("6 windows", refine_cfg(TMax=14, K=10, KD=256, Sep=6, Rho=4, R0=16, Ta=20))]
        if ctx.thorough():
            good += [("8 windows", refine_cfg(TMax=20, K=20, KD=256, Sep=8, Rho=5, R0=20, Ta=20, Rf=2)),
                     ("more offsets", refine_cfg(TMax=14, K=12, R0=8)),
                     ("far offsets", refine_cfg(TMax=60, K=24, KD=256, Sep=6, Rho=4, R0=16, Ta=20))]
        bad = [(d, refine_cfg(Defect=f'"{d}"')) for d in ("norec", "sign", "add", "noshift")]
        bad += [("stop", refine_cfg(Defect='"stop"', TMax=8, Rho=4, R0=8, Ta=10)), ("rails", refine_cfg(Defect='"rails"', Buf=3))]
        design(ctx, "MCRefine", good, bad)
    else:
        good = [("up to 4", cfg_with("MCScan"))]
        if ctx.thorough():
            good.append(("up to 6", cfg_with("MCScan", Max0="6", Reach="2")))
        bad = [(d, cfg_with("MCScan", Max0="3", Defect=f'"{d}"')) for d in ("short", "twice", "last", "giveup")]
        design(ctx, "MCScan", good, bad)


def calls(ctx, cmds, kind, what, make):
    runs = []
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": kind, "fail": fail_of(rep, what), "_label": what,
               "_replay": {k: v for k, v in c.items() if len(repr(v)) < 20000}}
        if not run["fail"]:
            try:
                run.update(make(c, rep["ok"]))
            except (KeyError, TypeError, ValueError, IndexError):
                run["fail"] = what + " returned something unusable"
        runs.append(run)
    return runs


# --------------------------------------------------------------------------
# C16
# --------------------------------------------------------------------------
def some_times(r, n, how, shape=None):
    """Sorted times in 1/256 ns that the representation holds exactly."""
    shape = shape or r.choice(["zero", "small", "late", "huge", "raw", "epoch"])
    lo = {"zero": 0, "small": r.randrange(1 << 20), "late": r.randrange(1 << 40), "huge": r.randrange(1 << 53),
          "raw": r.randrange(1 << 53, 1 << 54), "epoch": r.randrange(1 << 60, 1 << 62)}[shape]
    if how != "ld":
        lo %= 1 << 53
    step = r.choice([1, 256, 1 << 20, 1 << 33, SEC])
    t = [lo]
    for _ in range(n - 1):
        t.append(t[-1] + r.choice([0, 1, 255, 256, r.randrange(1, 2 * step + 1), step]))
    if how == "i8":
        t = [x & ~255 for x in t]
    if how == "f8":
        t = [x for x in t if x < 1 << 52] or [0]
    return t


def check_C16(ctx):
    design_clock(ctx, "arrays")
    r = ctx.rng
    cmds = []
    for s in generate(ctx, "GenClock", cfg_with("GenClock"), ctx.scale(300, 3000), 12):
        if s["c"]["op"] != "norm":
            continue
        how = s["c"]["how"]
        T = []
        base = some_times(r, 1, how)[0]
        for x in s["l"]:
            n = x["n"]
            d = {"same": 0, "near": 256 * r.randrange(4), "far": r.randrange(1 << 36), "before": -min(base, r.randrange(1 << 36))}[x["at"]]
            t = [max(0, base + d)]
            for _ in range(n - 1):
                t.append(t[-1] + r.choice([0, 1, 256, r.randrange(1 << 20), r.randrange(1 << 36)]))
            if how == "i8":
                t = [y & ~255 for y in t]
            if how == "f8":
                t = [min(y, (1 << 52) - 1) for y in t]
            T.append(t)
        ev = sorted({t for x in T for t in x})
        o = max(x[0] for x in T)
        skip = {"none": None, "zero": 0, "some": r.choice([1, 2, 3, 8]), "beyond": 1 << 14}[s["c"]["skip"]]
        if s["c"]["skip"] == "some":
            # events exactly at, just before and just after the new origin
            for t in T:
                for e in (-1, 0, 1):
                    v = (o if s["c"]["rel"] else t[0]) + skip * (SEC // 8) + (e if how == "ld" else 256 * e)
                    if how != "f8" or v < 1 << 52:
                        t.append(v)
                t.sort()
        cmds.append({"op": "norm", "T": T, "how": how, "skip": skip, "rel": s["c"]["rel"]})
    runs = calls(ctx, cmds, "norm", "normalising", lambda c, o: {
        "T": [nums(t) for t in c["T"]], "skip": big((c["skip"] or 0) * (SEC // 8)), "rel": c["rel"],
        "o": [nums(t) for t in o["o"]], "same": o["same"]})
    cmds = []
    for _ in range(ctx.scale(400, 4000)):
        how = r.choice(["ld", "ld", "f8", "i8"])
        t = some_times(r, r.choice([1, 2, 3, 10, 30]), how)
        if r.random() < 0.05:
            t = []
        edge = [x + e for x in (t or [0]) for e in (-1, 0, 1, -256, 256)]
        start = r.choice([None, 0, r.choice(edge), r.choice(edge), (t or [0])[-1] + 512])
        o = (t or [0])[0] if start is None else start
        dur = r.choice([None, 0, r.choice(edge) - o, r.choice(edge) - o, r.choice(edge) - o, 1 << 50])
        if start is not None:
            start = max(0, start)
        if how != "ld":
            start, dur = [v if v is None else v & ~255 for v in (start, dur)]
        if dur is not None and dur < 0:
            dur = -dur
        if how != "ld" and any(v is not None and v >= 1 << 53 for v in (start, dur)):
            continue
        cmds.append({"op": "slice", "t": t, "how": how, "start": start, "dur": dur})
    runs += calls(ctx, cmds, "slice", "slicing", lambda c, o: {
        "t": nums(c["t"]), "hasstart": int(c["start"] is not None), "start": big(c["start"] or 0),
        "hasdur": int(c["dur"] is not None), "dur": big(c["dur"] or 0), "o": nums(o["o"]), "same": o["same"]})
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["calls"] = len(runs)


# --------------------------------------------------------------------------
# C17
# --------------------------------------------------------------------------
def check_C17(ctx):
    design_clock(ctx, "arrays")
    r = ctx.rng
    runs = []
    # bins
    cmds = []
    for _ in range(ctx.scale(150, 1500)):
        how = r.choice(["ld", "ld", "f8", "i8"])
        n = 2 * r.choice([1, 2, 3, 4, 8, 16])
        res = r.choice([256, 512, 256 * 3, 256 * 16] if how == "i8" else [1, 64, 256, 300, 512, 4096, 256 * 100])
        t = some_times(r, r.choice([1, 2, 5, 20]), how, r.choice(["zero", "small", "late"]))
        k = r.randrange(0, 1 << 20)
        t += [k * n * res, k * n * res + res - (256 if how == "i8" else 1), (k * n + n - 1) * res, (k * n + n) * res]
        t = sorted(x for x in t if how != "f8" or x < 1 << 50)
        if r.random() < 0.04:
            t = []
        cmds.append({"op": "hist", "a": t, "bins": n, "res": res, "how": how})
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": "bins", "fail": "", "err": 0, "t": nums(c["a"]), "res": c["res"], "n": c["bins"], "h": [],
               "_label": "binning", "_replay": c}
        if "err" in rep:
            run["err"] = 1
        else:
            run["fail"] = fail_of(rep, "binning")
            run["h"] = rep.get("ok", [])
        runs.append(run)
    # correlations: every pair of small sets, and larger ones
    cmds = []

    def xc(a, b, n, res, how="ld", intres=0):
        cmds.append({"op": "xcorr", "a": a, "b": b, "bins": n, "res": res, "how": how, "intres": intres})
    for n, top in ((4, 4), (6, 5)):
        sets = [[i * 256 for i in range(top) if m >> i & 1] for m in range(1, 1 << top)]
        pairs = [(a, b) for a in sets for b in sets]
        for a, b in pairs if ctx.thorough() else r.sample(pairs, 150):
            xc(a, b, n, 256)
    for _ in range(ctx.scale(150, 1500)):
        n = 2 * r.choice([2, 3, 4, 8, 12, 16])
        res = 256 * r.choice([1, 2, 16])
        size = r.choice([1, 2, 6, 20])
        a = sorted(r.randrange(3 * n * res) for _ in range(size))
        d = r.choice([0, 1, -1, n // 2, n // 2 - 1, n // 2 + 1, r.randrange(-n, n + 1)]) * res
        b = [x + d for x in a]
        low = min(b)
        if low < 0:
            k = -(low // (n * res)) * n * res
            b = [x + k for x in b]
        if r.random() < 0.5:
            b = sorted(b + [r.randrange(3 * n * res) for _ in range(r.randrange(4))])
        if r.random() < 0.3:                # a common shift
            k = r.randrange(1, 50) * res
            a, b = [x + k for x in a], [x + k for x in b]
        xc(a, b, n, res, *r.choice([("ld", 0), ("f8", 0), ("ld", 1)]))
    runs += calls(ctx, cmds, "xcorr", "correlating", lambda c, o: {
        "a": nums(c["a"]), "b": nums(c["b"]), "res": c["res"], "n": c["bins"], "y": o["y"], "exact": o["exact"],
        "len": o["len"], "d": nums(o["d"])})
    # delays of histograms
    cmds = []
    for n in (1, 2, 3, 4, 5, 8, 9):
        for p in range(n):
            h = [r.randrange(5) for _ in range(n)]
            h[p] = 9
            cmds.append({"op": "delay", "h": h, "res": r.choice([256, 1, 4096])})
    for _ in range(ctx.scale(80, 800)):
        n = r.choice([2, 4, 6, 16, 31, 64])
        cmds.append({"op": "delay", "h": [r.randrange(r.choice([3, 100])) for _ in range(n)], "res": r.choice([256, 512, 3, 4096 * 4])})
    runs += calls(ctx, cmds, "delay", "the delay of a histogram", lambda c, o: {
        "h": c["h"], "res": c["res"], "d": nums(o["d"]), "at": [nums(x) for x in o["at"]], "top": nums(o["top"])})
    # height of the peak
    cmds = []
    for _ in range(ctx.scale(150, 1500)):
        n = r.choice([8, 9, 16, 32, 50, 64])
        top = r.choice([1, 3, 20, 100])
        h = [r.randrange(top + 1) for _ in range(n)]
        if r.random() < 0.1:
            h = [top] * n
        if r.random() < 0.6:
            h[r.choice([0, 1, n // 2, n - 2, n - 1, r.randrange(n)])] += r.choice([1, 5, 60])
        cmds.append({"op": "peak", "h": h, "res": r.choice([1, 16, 0.5]), "how": r.choice(["f8", "i8"])})
    runs += calls(ctx, cmds, "stats", "peak statistics", lambda c, o: {"h": c["h"], "max": o["max"], "s": o["s"] if o["near"] else -9})
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["calls"] = len(runs)


# --------------------------------------------------------------------------
# simulated clocks
# --------------------------------------------------------------------------
def number(text):
    try:
        return Fraction(text)
    except (ValueError, ZeroDivisionError):
        return None


def parsed(o, v=0, bits=60):
    """What a run printed, as the specification sees it."""
    x = {"code": 0 if o["code"] == 0 else 1, "printed": int(o["out"].strip() != ""), "fmt": 0,
         "df": big(0), "dt": big(0), "f34": big(0), "f": ""}
    notime = v & 4
    m = re.fullmatch(r"(\S+)\n" if notime else r"(\S+)\t(-?\d+)\n", o["out"])
    if not m:
        return x
    if v & 2:
        if not re.fullmatch(r"-?\d+", m.group(1)):
            return x
        x["f34"] = big(int(m.group(1)))
    else:
        f = number(m.group(1))
        if f is None or abs(f) >= 1024:
            return x
        x["df"] = big(f * (1 << bits) // 1)
    if not notime:
        if abs(int(m.group(2))) >= 1 << 40:
            return x
        x["dt"] = big(int(m.group(2)))
    x["fmt"] = 1
    return x


def clocks(r, q, R, k=1, sep=6.0, res=1, D=None, F=None, per=8000, smear=None, base=None, **kw):
    """A simulation whose offsets the search has to find; D, F as real numbers."""
    N = 1 << q
    Ta = R * N * k
    if D is None:
        lim = min(9.7e7, 0.3 * R * N)
        D = 0 if r.random() < 0.1 else r.choice([-1, 1]) * 10 ** r.uniform(0, len(str(int(lim))) - 1 + 0.3)
        D = max(-lim, min(lim, D))
    top = min((4 if smear is None else smear) * R / Ta, 1e-4)
    if F is None:
        F = 0 if r.random() < 0.1 else r.choice([-1, 1]) * min(top, 10 ** r.uniform(-9.5, -3.9))
    span = int((sep + 1.15) * Ta)
    base = int(10 ** r.uniform(3, 13.5)) if base is None else base
    jit = r.uniform(0, 0.6) * res
    c = {"op": "sim", "seed": r.randrange(1 << 30), "n": int(min(60000, per * (sep + 1.2))), "span": span, "base": base,
         "c0": base * 256, "D": int(D * 256), "F": int(F * (1 << 50)), "loss": round(r.uniform(0, 0.35), 3),
         "jit": round(jit, 3), "noise": round(r.uniform(0, 0.3), 3), "limit": LIM}
    c.update(kw)
    c["opts"] = ["-q", str(q), "-R", str(R), "-r", str(res), "-s", repr(sep), "-k", str(k)]
    c["Ts"] = int(sep * Ta)
    c["res"] = res
    return c


def random_clocks(r, **kw):
    q = r.choice([14, 15, 16, 17])
    R = r.choice([16, 16, 32, 64, 100, 256, 1024])
    k = r.choice([1, 1, 1, 2, 3])
    sep = r.choice([2.0, 4.0, 6.0, 6.0, 8.0, 12.0, 5.5])
    return clocks(r, q, R, k, sep, r.choice([1, 1, 1, 2, 4]), **kw)


def found(c, o, out, skip=0, swapped=0, first=None):
    f = first or o
    run = {"kind": "found", "fail": "", "fa": big(f["fa"]), "fb": big(f["fb"]), "skip": big(skip), "D": big(c["D"]),
           "F": big(c["F"]), "c0": big(c["c0"]), "Ts": big(c["Ts"]), "res": c["res"], "swapped": swapped}
    run.update(parsed(out))
    return run


def sims(ctx, cmds):
    """Runs simulations; yields (command, reply or None, failed run)."""
    reps = call_worker(ctx, cmds, shards=min(NCPU, len(cmds)), timeout=800)
    for c, rep in zip(cmds, reps):
        if "ok" in rep:
            yield c, rep["ok"], None
        else:
            yield c, None, {"kind": "none", "fail": fail_of(rep, "a search"), "_label": "search", "_replay": c}


def tag(run, c, argv=None):
    run["_label"] = "search"
    run["_replay"] = dict(c, argv=argv)
    return run


RAW = ["-t", "ref", "-T", "tgt"]
SWAP = ["-t", "tgt", "-T", "ref"]


def check_C18(ctx):
    design_clock(ctx, "refine")
    r = ctx.rng
    cmds = []
    for s in generate(ctx, "GenClock", cfg_with("GenClock"), ctx.scale(400, 4000), 12):
        if s["c"]["op"] != "search" or len(cmds) >= ctx.scale(110, 1200):
            continue
        g = s["c"]
        q, R = g["q"], g["R"]
        if g["how"] == "big":
            q, R = 17, 2048
        N = 1 << q
        top = min(9.7e7, 0.3 * N * R)
        D = {"zero": 0, "sub": r.uniform(0, R), "bins": r.uniform(1, 50) * R, "wide": r.uniform(0.1, 1) * top, "edge": top}[g["D"]] * g["ds"]
        k = g["k"]
        fmax = min(R * 4 / (R * N * k), 1e-4)
        F = {"zero": 0, "below": r.uniform(0, 0.5) * R / (g["sep"] * R * N * k), "bin": r.uniform(0.5, 3) / (g["sep"] * N * k),
             "mid": r.uniform(0.1, 0.5) * fmax, "top": fmax}[g["F"]] * g["fs"]
        pre = []
        F0 = 0
        if g["pre"] == "some":
            # found relative to a precompensation, far beyond the limit of one search
            F0 = r.choice([-1, 1]) * r.choice([1e-4, 2e-4, 1e-3])
            pre = ["-P", "--precomp-start", repr(F0), "--precomp-stop", "0"]
            if abs(F0) * abs(D) > 0 and abs(F) > 5e-5:
                F /= 2
        c = clocks(r, q, R, k, float(g["sep"]), g["r"], D=D, F=F0 + F + F0 * F, legacy=int(g["legacy"]))
        c["opts"] += pre + (["-X"] if g["legacy"] else [])
        c["runs"] = [RAW + c["opts"]]
        if g["how"] != "big" and r.random() < 0.12:
            # long windows: small errors of the frequency show
            q, R = r.choice([(14, 4096), (15, 2048), (15, 4096), (14, 2048)])
            c = clocks(r, q, R, 1, 12.0, 1, D=r.choice([-1, 1]) * r.uniform(0.001, 0.25) * (R << q),
                       F=F0 + r.choice([-1, 1]) * r.uniform(0.6, 1) * min(1e-4, 3.5 / (1 << q)), n=110000)
            c["opts"] += pre
            c["runs"] = [RAW + c["opts"]]
        # roles exchanged: the smaller of the offsets must be in the same reach
        if not pre and r.random() < 0.5:
            c["runs"].append(SWAP + c["opts"])
        cmds.append(c)
    runs = []
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        for i, out in enumerate(o["outs"]):
            runs.append(tag(found(c, o, out, swapped=i), c, c["runs"][i]))
        if not o["same"]:
            runs.append(tag({"kind": "none", "fail": "the search modified its input"}, c))
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["searches"] = len(runs)


def check_C19(ctx):
    design_clock(ctx, "refine")
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(90, 900)):
        kind = ["unrelated", "late", "fast", "short", "half", "empty", "one", "missing", "threshold", "separation", "fewepochs", "noepochs"][i % 12]
        q = r.choice([14, 15, 16])
        R = r.choice([16, 64, 256])
        sep = r.choice([4.0, 6.0, 8.0])
        if kind == "unrelated":
            c = clocks(r, 14, R, 1, sep, D=0, F=0, per=12000, unrelated=1)
        elif kind == "late":
            D = r.choice([-1, 1]) * r.uniform(1.02e8, 1.9e8)
            c = clocks(r, 17, 4096, 1, 4.0, D=D, F=r.choice([0, 1e-6]), per=9000)
        elif kind == "fast":
            F = r.choice([-1, 1]) * r.uniform(1.4, 3) * 2 ** -13
            c = clocks(r, 14, R, 1, 12.0, D=r.uniform(-20, 20) * R, F=F)
        elif kind == "half":
            # one side ends before the later window begins, or at once
            c = clocks(r, q, R, 1, sep, smear=1)
            c[r.choice(["end_a", "end_b"])] = int(c["Ts"] * r.choice([0.1, 0.5, 0.98 - (abs(c["D"]) / 256 + abs(c["F"]) * c["Ts"] / 2 ** 50) / c["Ts"]]))
        elif kind == "short":
            c = clocks(r, q, R, 1, sep, smear=1)
            c["end_a"] = c["end_b"] = int((R << q) * r.uniform(0.05, 0.95))
        elif kind == "separation":
            c = clocks(r, 14, R, 1, r.choice([1.0, 1.2, 1.4, 1.41, 1.414, 1.41421]), smear=1)
        else:
            c = clocks(r, 14, R, 1, sep, smear=1)
        c["runs"] = [RAW + c["opts"]]
        if kind == "empty":
            c["files"] = {r.choice(["ref", "tgt"]): ""}
        elif kind == "one":
            c["files"] = {r.choice(["ref", "tgt"]): r.randbytes(8).hex()}
        elif kind == "missing":
            c["remove"] = [r.choice(["ref", "tgt"])]
        elif kind == "threshold":
            c["runs"] = [RAW + c["opts"] + ["-S", "100000"]]
        elif kind == "noepochs":
            c["dirs"] = [[0, 0]]
            c["remove"] = [r.choice(["sd", "td"])]
            c["runs"] = [["-d", "sd", "-D", "td"] + c["opts"]]
        elif kind == "fewepochs":
            c["dirs"] = [[0, 0]]
            c["base"] = (r.randrange(1 << 28, (1 << 32) - 64) << 29) + 5
            c["span"] = min(c["span"], 1 << 28)
            c["c0"] = c["base"] * 256
            c["runs"] = [["-d", "sd", "-D", "td"] + c["opts"]]
        c["kind"] = kind
        cmds.append(c)
    # anything goes: still an end, and no result out of bounds
    for i in range(ctx.scale(60, 900)):
        q = r.choice([4, 8, 10, 12, 14])
        R = r.choice([1, 2, 16, 1024])
        c = clocks(r, q, R, r.choice([1, 2]), r.choice([0.5, 1.4, 1.5, 2.0, 6.0]), r.choice([1, 2, 64]), D=r.choice([0, r.uniform(-1, 1) * (R << q)]),
                   F=r.choice([0, r.uniform(-3, 3) * 2 ** -13]), per=r.choice([3, 30, 300]), base=r.choice([0, 10 ** 9]))
        ps = [0.0]
        if r.random() < 0.4:
            p0, st = r.choice([0.0, 1e-4, -5e-5]), r.choice([1e-5, 5e-5])
            c["opts"] += ["-P", "--precomp-start=" + repr(p0), "--precomp-step=" + repr(st), "--precomp-stop=" + repr(2.5 * st)]
            ps = [p0 + k * st for k in (0, 1, -1, 2, -2)]
        c["runs"] = [RAW + c["opts"] + ["-S", str(r.choice([1, 2, 4, 6]))]]
        c["kind"], c["ps"] = "either", ps
        cmds.append(c)
    # just beyond the bound: a first, coarse estimate may lie within it
    for i in range(ctx.scale(24, 200)):
        R = r.choice([16, 64])
        c = clocks(r, 14, R, 1, r.choice([4.0, 5.0, 6.0, 8.0]), D=r.uniform(-20, 20) * R, F=r.choice([-1, 1]) * r.uniform(1.002, 1.06) * 2 ** -13)
        c["runs"], c["kind"], c["ps"] = [RAW + c["opts"]], "either", [0.0]
        cmds.append(c)
    runs = []
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        for argv, out in zip(c["runs"], o["outs"]):
            if c["kind"] == "either":
                run = {"kind": "either", "fail": "", "ps": [big(int(Fraction(p) * (1 << 60))) for p in c["ps"]], **parsed(out)}
            else:
                run = {"kind": "none", "fail": "", **parsed(out)}
            runs.append(tag(run, c, argv))
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["searches"] = len(runs)


# --------------------------------------------------------------------------
# C20
# --------------------------------------------------------------------------
def check_C20(ctx):
    design_clock(ctx, "scan")
    r = ctx.rng
    cmds = []
    for _ in range(ctx.scale(220, 2200)):
        style = r.random()
        if style < 0.5:
            # decimal multiples, as typed by a user; in units of 1e-15
            step = r.choice([1, 2, 5, 10, 25, 100, 1000]) * 10 ** r.choice([8, 8, 9, 7])
            n = r.choice([0, 1, 2, 3, 7, 10, r.randrange(200)])
            stop = n * step + r.choice([0, 0, 0, step // 2, step // 10])
            start = r.choice([0, 0, step, -step, r.randrange(-50, 50) * 10 ** 8])
            unit = 10 ** 15
        else:
            unit = 1 << 40
            step = r.randrange(1, 1 << 12)
            stop = r.choice([0, step, step - 1, step + 1, r.randrange(1 << 18), step * r.randrange(60)])
            start = r.choice([0, r.randrange(-1 << 18, 1 << 18)])
        ordered = r.randrange(2)
        if ordered:
            stop = start + stop
        if r.random() < 0.05:
            step = 0
        if step and abs(stop // step) > 5000:
            continue
        f = (lambda x: float(Fraction(x, unit)))
        cmds.append({"op": "precomp", "start": f(start), "stop": f(stop), "step": f(step), "ordered": ordered, "_i": [start, stop, step, unit]})
    runs = []

    def lists(c, o):
        start, stop, step, unit = c["_i"]
        n = 0 if step == 0 else ((stop - start) // step if c["ordered"] else stop // step)
        scale = 1 << 12
        return {"start": big(start * scale), "stop": big(stop * scale), "step": big(step * scale), "ordered": c["ordered"], "n": n,
                "v": [big(Fraction(x) * unit * scale // 1) for x in o], "tol": scale // 2 if unit == 10 ** 15 else 1}
    runs += calls(ctx, cmds, "precomp", "the list of precompensations", lists)
    # scans
    cmds = []
    for _ in range(ctx.scale(40, 400)):
        F = r.choice([-1, 1]) * r.uniform(0, 3e-4)
        c = clocks(r, 14, r.choice([16, 64]), 1, 6.0, D=r.uniform(-1, 1) * 4e4, F=F)
        st = r.choice([1e-5, 3e-5, 1e-4, 1.3e-4])
        kind = r.random()
        if kind < 0.45:
            pre = [k * st for k in (0, 1, -1, 2, -2, 3, -3)]
        elif kind < 0.7:
            pre = [F + d for d in (-3e-4, -1.5e-4, -3e-5, 0, 2e-5, 1.4e-4)]
        elif kind < 0.85:
            pre = [r.uniform(-4e-4, 4e-4) for _ in range(5)] + [0.0]
        else:                           # none can succeed
            c = clocks(r, 14, 16, 1, 6.0, D=0, F=0, unrelated=1)
            pre = [0.0, 1e-5, -1e-5]
        n = len(pre)
        full = list(range(n))
        rnd = r.sample(full, n)
        ls = [[full, 0], [full, 1], [full[::-1], r.randrange(2)], [rnd, 0], [rnd, 1], [rnd[:r.randrange(1, n)], r.randrange(2)]]
        c.update(op="scan", q=14, R=int(c["opts"][3]), r=1, S=6, sep=6.0, pre=pre, lists=ls)
        cmds.append(c)
    for c, rep in zip(cmds, call_worker(ctx, cmds, timeout=800)):
        fail = fail_of(rep, "a scan")
        for x in (rep["ok"]["lists"] if not fail else [None]):
            run = {"kind": "scan", "fail": fail, "_label": "scan", "_replay": c}
            if x:
                run.update(outcomes=x["want"], got=x["got"])
            runs.append(run)
    ctx.notes["successes"] = sum(1 for x in runs if x.get("got"))
    # the same through the program
    cmds = []
    for _ in range(ctx.scale(16, 160)):
        F = r.choice([-1, 1]) * r.uniform(0, 3e-4)
        c = clocks(r, 14, r.choice([16, 64]), 1, 6.0, D=r.uniform(-1, 1) * 4e4, F=F)
        unit = 10 ** 7                        # 1e-7
        step = r.choice([300, 500, 1000, 1300])
        start = r.choice([0, 0, 500, -700])
        n = r.choice([1, 2, 3])
        ordered = r.randrange(2)
        stop = (start if ordered else 0) + n * step + r.choice([0, 1, step // 3])
        arg = lambda x: "%de-7" % x
        mult = list(range(n + 1)) if ordered else [0] + [s * k for k in range(1, n + 1) for s in (1, -1)]
        pc = ["-P", "--precomp-start=" + arg(start), "--precomp-step=" + arg(step), "--precomp-stop=" + arg(stop)]
        if ordered:
            pc.append("--precomp-ordered")
        c["runs"] = [RAW + c["opts"] + pc, RAW + c["opts"] + pc + ["--precomp-fullscan"]]
        for m in mult:
            c["runs"].append(RAW + c["opts"] + ["-P", "--precomp-start=" + arg(start + m * step), "--precomp-step=1e-6", "--precomp-stop=0"])
        cmds.append(c)
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        # the precompensations 300e-7 and 0.3e-4 may differ in the last bit:
        # results are compared as rounded by the program, frequencies to 2^-44
        def res(x):
            p = parsed(x)
            return ["%d" % round(float(number(x["out"].split("\t")[0])) * 2 ** 44), x["out"].split("\t")[1].strip()] if p["fmt"] and x["code"] == 0 else []
        outs = [res(x) for x in o["outs"]]
        for i in (0, 1):
            runs.append(tag({"kind": "scan", "fail": "", "outcomes": outs[2:], "got": outs[i]}, c, c["runs"][i]))
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["calls"] = len(runs)


# --------------------------------------------------------------------------
# C21
# --------------------------------------------------------------------------
def check_C21(ctx):
    design_clock(ctx, "scan")
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(14, 140)):
        style = i % 4
        if style == 0:                    # large time and frequency
            F0 = r.choice([-1, 1]) * r.choice([1e-3, 5e-4, 3e-3])
            c = clocks(r, 16, 2048, 1, 4.0, D=r.choice([-1, 1]) * r.uniform(1e7, 3.9e7), F=F0 + r.uniform(-2e-5, 2e-5))
            c["opts"] += ["-P", "--precomp-start=" + repr(F0), "--precomp-stop=0"]
        elif style == 1:
            c = clocks(r, 14, 16, 1, 6.0, D=r.uniform(-50, 50), F=r.uniform(-1, 1) * 1e-8)
        elif style == 2:
            c = clocks(r, 14, 16, 1, 6.0, D=0, F=0)
        else:
            c = random_clocks(r)
        o = dict(zip(c["opts"][::2], c["opts"][1::2]))
        c["direct"] = {"q": int(o["-q"]), "k": int(o["-k"]), "R": int(o["-R"]), "r": int(o["-r"]), "sep": float(o["-s"]), "pre": [F0 if style == 0 else 0]}
        c["runs"] = [RAW + c["opts"] + ["-V", str(v)] for v in range(16)]
        extra = r.choice([["-v"], ["-vv"], ["-vvv", "-L", "log"], ["--quiet"], ["-L", "log"]])
        c["runs"].append(RAW + c["opts"] + extra)
        c["runs"].append(RAW + c["opts"] + ["-V", "10"] + extra)
        # the same options from a configuration file
        long = {"-q": "buffer-order", "-R": "initial-res", "-r": "final-res", "-s": "separation", "-k": "num-wraps"}
        text = "reference = ref\ntarget = tgt\noutput = 3\n"
        rest = []
        it = iter(c["opts"])
        for x in it:
            if x in long:
                text += "%s = %s\n" % (long[x], next(it))
            else:
                rest.append(x)
        c["files"] = {"conf": text.encode().hex()}
        c["runs"].append(["--config", "conf"] + rest)
        cmds.append(c)
    runs = []
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        outs = o["outs"]
        V = [parsed(outs[v], v, 50) for v in range(16)]
        d = o.get("direct")
        ctx.notes["exact"] = ctx.notes.get("exact", 0) + int(d is not None)
        run = {"kind": "flags", "fail": "", "V": V, "exact": int(d is not None), "xt": big(d[0] if d else 0), "xf": big(d[1] if d else 0),
               "text": [[x["out"], y["out"]] for x, y in ((outs[0], outs[16]), (outs[10], outs[17]), (outs[3], outs[18]))]}
        runs.append(tag(run, c, c["runs"][0]))
    # outputs for any result, the search itself replaced
    cmds = []
    for i in range(ctx.scale(150, 1500)):
        t = r.choice([0, r.randrange(-1 << 40, 1 << 40), r.randrange(-1 << 16, 1 << 16), (2 * r.randrange(-50000, 50000) + 1) * 2048 + r.choice([-256, 0, 256]),
                      (2 * r.randrange(-50000, 50000) + 1) * 256 + r.choice([-32, 32])])
        f = r.choice([0, r.randrange(-1 << 42, 1 << 42), r.randrange(-1 << 35, 1 << 35), (2 * r.randrange(-1 << 18, 1 << 18) + 1) * (1 << 15) + r.choice([-512, 0, 512]),
                      r.choice([-1, 1]) << r.randrange(43)])
        cmds.append({"op": "options", "ra": [[0, 512, 1024]], "rb": [[0, 512, 1024]], "ea": [], "eb": [], "da": [], "db": [], "legacy": 0, "text": {}, "xt": t, "xf": f,
                     "ret": [t, f, r.choice(["f8", "f8", "ld", "py"])], "runs": [["-t", "r1", "-T", "t1", "-V", str(v)] for v in range(16)]})
    reps = call_worker(ctx, cmds)
    if any("ok" in p and any(x["called"] for x in p["ok"]["runs"]) for p in reps):
        for c, p in zip(cmds, reps):
            outs = p["ok"]["runs"] if "ok" in p else []
            if fail_of(p, "an output") or all(x["called"] for x in outs):
                runs.append({"kind": "flags", "fail": fail_of(p, "an output"), "V": [parsed(x, v, 50) for v, x in enumerate(outs)], "exact": 1,
                             "xt": big(c["xt"]), "xf": big(c["xf"]), "text": [], "_label": "search", "_replay": c})
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["searches"] = 19 * len(runs)


# --------------------------------------------------------------------------
# C22
# --------------------------------------------------------------------------
def check_C22(ctx):
    design_clock(ctx, "refine")
    exe, _ = build(ctx)
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(40, 400)):
        q, R = r.choice([(14, 16), (15, 16), (16, 64), (14, 64), (17, 16)])
        sep = r.choice([4.0, 6.0, 8.0])
        kw = {}
        if i % 8 in (2, 7):
            # long windows: single units of the correction show
            q, R = r.choice([(15, 1024), (14, 4096), (15, 2048), (15, 4096)])
            sep, kw = 12.0, {"n": 110000}
        F = r.choice([-1, 1]) * r.choice([1e-4, 5e-5, 1e-5, r.uniform(1e-7, 1.1e-4), 1e-6])
        F = max(-4.0 / (1 << q), min(4.0 / (1 << q), F))
        c = clocks(r, q, R, 1, sep, F=F, D=r.uniform(-0.2, 0.2) * (R << q), legacy=i % 2, **kw)
        c["op"] = "loop"
        c["inv"] = (i // 2) % 2
        c["freqcd"] = exe
        c["argv"] = c["opts"] + (["-X"] if c["legacy"] else [])
        c["argv2"] = c["argv"]
        cmds.append(c)
    runs = []
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        run = {"kind": "loop", "fail": "", "Ts": big(c["Ts"]), "res": c["res"]}
        if o["first"]["code"] != 0:
            run["fail"] = "offsets that are there were not found"
        elif o["second"] is None:
            run["fail"] = "freqcd did not take the frequency that fpfind printed"
        else:
            run.update(parsed(o["second"]))
        runs.append(tag(run, c))
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["loops"] = len(runs)


# --------------------------------------------------------------------------
# C24
# --------------------------------------------------------------------------
def check_C24(ctx):
    design_clock(ctx, "refine")
    r = ctx.rng
    cmds = []
    EP = 1 << 29
    for i in range(ctx.scale(40, 400)):
        q, R = r.choice([(14, 256), (15, 512), (16, 1024), (14, 64), (16, 256)])
        sep = r.choice([4.0, 6.0])
        c = clocks(r, q, R, 1, sep, F=r.choice([-1, 1]) * r.uniform(0, 1.0) * 1e-5, D=r.choice([-1, 1]) * r.uniform(0, 0.15) * (R << q), grain=32)
        need = -(-c["span"] // EP)
        if i % 3 == 2:
            # raw files only: skip some time
            sk = r.randrange(0, 8)        # of 1/1024 s
            c["span"] += sk * 10 ** 9 // 1024 + 1000
            c["n"] = int(c["n"] * c["span"] / (c["span"] - sk * 10 ** 9 // 1024))
            c["legacy"] = r.randrange(2)
            c["sk"] = sk
            c["runs"] = [RAW + c["opts"] + ["-Z", repr(sk / 1024)] + (["-X"] if c["legacy"] else [])]
            c["c0"] = c["base"] * 256
        else:
            # since 1974, when epochs got eight digits
            epoch = r.choice([r.randrange(1 << 28, (1 << 32) - 64), r.randrange(1 << 28, 1 << 32) >> 17 << 17] +
                             [(r.randrange((1 << 11) + 1, 1 << 15) << 17) - k for k in (1, 2, 3)])
            skips = r.choice([0, 0, 1, 2])
            lead = r.choice([0, 0, 1])
            off = r.choice([5, EP // 3, EP - 4 * 10 ** 7])
            # most events around the time that is searched
            lo = max(0, (skips + lead) * EP - off)
            c["dense"], c["thin"] = [lo, lo + c["span"]], 2000
            extra = lo + (need + 2) * EP
            c["span"] = extra
            c["base"] = (epoch << 29) + off
            # the 54-bit raw times would wrap around
            wraps = (epoch >> 17) != ((c["base"] + extra) >> 46)
            c["c0"] = c["base"] * 256
            c["legacy"] = r.randrange(2)
            e = lead
            c["dirs"] = [[e, skips]]
            args = ["-d", "sd", "-D", "td"]
            if lead or r.random() < 0.5:
                args += ["-e", "@E%d" % e]
            if skips or r.random() < 0.3:
                args += ["-z", str(skips)]
            x = ["-X"] if c["legacy"] else []
            c["runs"] = [args + c["opts"]] + ([] if wraps else [["-t", "ref0", "-T", "tgt0"] + x + c["opts"]])
        cmds.append(c)
    runs = []
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        outs = o["outs"]
        if "sk" in c:
            runs.append(tag(found(c, o, outs[0], skip=c["sk"] * SEC // 1024), c, c["runs"][0]))
            continue
        for i, out in enumerate(outs):
            runs.append(tag(found(c, o, out, first=o["per"][0]), c, c["runs"][i]))
        if len(outs) == 2:
            runs.append(tag({"kind": "same", "fail": "", "x": parsed(outs[0]), "y": parsed(outs[1])}, c, c["runs"][0]))
    validate(ctx, "TraceClockSearch", runs)
    ctx.notes["searches"] = len(runs)
