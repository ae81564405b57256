"""Histograms and statistics of peaks (C25)."""
from common import big, cfg_with, design, enumerate_states, validate
from clock import calls, nums


def check_C25(ctx):
    design(ctx, "MCStatistics", [("4 bins", cfg_with("MCStatistics"))] + ([("6 bins", cfg_with("MCStatistics", N="6"))] if ctx.thorough() else []),
           [(d, cfg_with("MCStatistics", Defect=f'"{d}"')) for d in ("negative", "floor", "overlap", "whole", "offset")])
    r = ctx.rng
    cases = enumerate_states(ctx, "MCStatistics", cfg_with("MCStatistics", Show="TRUE", **({"N": "6"} if ctx.thorough() else {})))
    cmds = []

    def stat(h, plain=0, hasc=0, c=0, w=0, res=1, unit=1):
        cmds.append({"op": "stat", "h": h, "plain": plain, "hasc": hasc, "c": c, "w": w, "res": res, "unit": unit, "how": r.choice(["f8", "i8"])})
    for x in r.sample(cases, min(len(cases), ctx.scale(500, 5000))):
        stat(x["h"], 0, int(r.random() < 0.8), x["c"], x["w"], unit=r.choice([1, 2, 1.0, 0.5, 16]))
    for _ in range(ctx.scale(250, 2500)):
        n = r.choice([1, 2, 3, 7, 8, 16, 32, 50, 64])
        top = r.choice([1, 3, 20, 100])
        h = [r.randrange(top + 1) for _ in range(n)]
        if r.random() < 0.1:
            h = [top] * n
        if r.random() < 0.6:
            h[r.choice([0, n // 2, n - 1, r.randrange(n)])] += r.choice([1, 5, 60])
        res = r.choice([1, 4, 4, 8])
        c = r.choice([0, r.randrange(n * res), -r.randrange(n * res), -r.randrange(1, res + 1), r.randrange(n) * res])
        w = r.choice([0, 0, 1, res, 2 * res, 2 * res + 1, 4 * res, r.randrange(n * res), 3 * n * res])
        stat(h, int(r.random() < 0.1), r.randrange(2), max(-n * res + 1, c), w, res, r.choice([1, 1.0, 0.25, 0.5, 16]))
    runs = calls(ctx, cmds, "stats", "statistics", lambda c, o: {**{k: c[k] for k in ("h", "plain", "hasc", "c", "w", "res")}, **o})
    # other views
    cmds = []
    for _ in range(ctx.scale(60, 600)):
        n = 2 * r.choice([1, 2, 3, 8, 16])
        cmds.append({"op": "turn", "h": [r.randrange(50) for _ in range(n)], "res": r.choice([1, 2, 16])})
    runs += calls(ctx, cmds, "turn", "converting a histogram", lambda c, o: {"h": c["h"], "res": c["res"], **o})
    cmds = []
    for _ in range(ctx.scale(100, 1000)):
        n = r.choice([2, 3, 4, 8, 16, 31])
        cmds.append({"op": "top", "h": [r.randrange(r.choice([3, 100])) for _ in range(n)], "res": r.choice([1, 2, 16]), "k": r.randrange(2, n + 1)})
    runs += calls(ctx, cmds, "top", "the highest positions", lambda c, o: {"h": c["h"], "res": c["res"], "k": c["k"], "o": o})
    # histograms of events
    cmds = []
    for _ in range(ctx.scale(150, 1500)):
        n = 2 * r.choice([2, 4, 8, 16])
        res = r.choice([256, 512, 64, 4096])
        wraps = r.choice([1, 1, 2, 3])
        dur = n * res * wraps
        base = r.choice([0, 1, r.randrange(1 << 40)])
        size = r.choice([1, 2, 6, 15])
        a = sorted(base + r.randrange(3 * dur) for _ in range(size))
        d = r.choice([0, 1, res, -res, r.randrange(-dur, dur)])
        b = sorted(max(0, x + d) for x in a) if r.random() < 0.7 else sorted(base + r.randrange(3 * dur) for _ in range(size))
        start = r.choice([None, 0, 256, r.randrange(dur), -r.randrange(dur)])
        o = max(a[0], b[0]) + (start or 0)
        # events at the ends of the window
        for t in (a, b):
            if r.random() < 0.5:
                t.extend(max(t[0], o + x) for x in (-1, 0, 1, dur - 1, dur, dur + 1))
                t.sort()
        fd = 256
        fn = fd + r.choice([0, 0, 0, 1, -1, 3])
        cmds.append({"op": "corr", "a": a, "b": b, "n": n, "res": res, "wraps": wraps, "start": start, "fn": fn, "fd": fd,
                     "filter": r.choice([0, 0, 1, 2, 3]), "stats": r.randrange(2), "hasc": r.randrange(2), "c": r.randrange(-n + 1, n) * res, "w": r.choice([0, res, 3 * res, 9 * res])})
    runs += calls(ctx, cmds, "corr", "the histogram of two lists", lambda c, o: {
        **{k: c[k] for k in ("n", "res", "wraps", "fn", "fd", "filter", "stats", "hasc", "c", "w")},
        "a": nums(c["a"]), "b": nums(c["b"]), "start": big(c["start"] or 0), **o})
    cmds = []
    for _ in range(ctx.scale(60, 600)):
        start = r.choice([0, 1000, 10 ** 9])
        span = r.choice([2000, 3 * 10 ** 7, 1 << 27, (1 << 27) + 4000])
        a, b = (sorted(start + r.randrange(-100, span) for _ in range(r.choice([1, 3, 12]))) for _ in "ab")
        if r.random() < 0.6:
            b = sorted(b + [x + d for x in r.sample(a, min(3, len(a))) for d in (0, 10 ** 7 - 1, 10 ** 7, 10 ** 7 + 1)])
        if r.random() < 0.3:
            e = start + (1 << 27)
            a = sorted(a + [start, start + 1, e, e + 1])
            b = sorted(b + [start, start + 1, e, e + 1])
        a, b = ([max(0, x) for x in t] for t in (a, b))
        cmds.append({"op": "slow", "a": a, "b": b, "start": start, "dt": r.choice([1, 2, 16, 500]), "how": r.choice(["i8", "f8"])})
    runs += calls(ctx, cmds, "slow", "the slow histogram", lambda c, o: {
        **{k: c[k] for k in ("a", "b", "start", "dt")}, "span": 1 << 27, "n": o["n"], "lim": 10 ** 7, "o": o["o"]})
    validate(ctx, "TraceStatistics", runs)
    ctx.notes["calls"] = len(runs)
