"""fpplot (C26)."""
from common import big, call_worker, cfg_with, design, validate
from clock import RAW, SEC, calls, clocks, nums, sims, tag


LONG = {"d": "sendfiles", "D": "t1files", "t": "reference", "T": "target", "e": "first-epoch", "z": "skip-epochs", "n": "num-epochs", "X": "legacy", "Z": "skip-duration"}


def in_file(r, argv):
    """Some of the options in a configuration file."""
    rest, lines, i = [], [], 0
    while i < len(argv):
        o = argv[i]
        n = 1 if "=" in o or o in ("-v", "-X") else 2
        x = argv[i:i + n]
        i += n
        if o == "-v" or r.random() < 0.5:
            rest += x
        else:
            name, _, v = o.lstrip("-").partition("=")
            lines.append(f"{LONG.get(name, name)} = {v if '=' in o else 'true' if n == 1 else x[1]}")
            # the command line goes before
            if n == 2 and o != "-e" and r.random() < 0.2:
                rest += x
                lines[-1] = f"{LONG.get(name, name)} = 7"
    r.shuffle(lines)
    at = r.choice([0, len(rest)])
    return rest[:at] + ["--config", "my.conf"] + rest[at:], "\n".join(lines) + "\n"


def check_C26(ctx):
    design(ctx, "MCPlot", [("5 events", cfg_with("MCPlot"))] + ([("7 events", cfg_with("MCPlot", L="7"))] if ctx.thorough() else []),
           [(d, cfg_with("MCPlot", Defect=f'"{d}"')) for d in ("plus", "late", "origin", "swap")])
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(160, 1600)):
        epochs = i % 2
        c = {"op": "plot", "epochs": epochs, "ea": [], "eb": [], "from": 0, "skipe": 0, "num": 1, "skip": 0, "dur": None}
        argv = ["-v"] if r.random() < 0.2 else []
        size = r.choice([1, 2, 5, 20])
        if epochs:
            e0 = r.choice([r.randrange(1 << 28, (1 << 32) - 64), (r.randrange((1 << 11) + 1, 1 << 15) << 17) - r.randrange(4)])
            have = lambda: sorted(set(r.choice([[0, 1, 2, 3, 4, 5], r.sample(range(6), r.randrange(1, 7))])))
            c["ea"], c["eb"] = ([e0 + k for k in have()] for _ in "ab")
            for s in "ab":
                c[s] = sorted(t for e in c["e" + s] for t in [(e << 37) + 32 * r.choice([2, r.randrange(2, 1 << 20), r.randrange(2, 1 << 32), (1 << 32) - 1]) for _ in range(size)])
            argv += ["-d", "sd", "-D", "td"]
            if r.random() < 0.4:
                c["from"] = e0 + r.randrange(4)
                argv += ["-e", "%08x" % c["from"]]
            c["skipe"] = r.choice([0, 0, 1, 2])
            c["num"] = r.choice([1, 1, 2, 3])
            if c["skipe"] or r.random() < 0.5:
                argv += ["-z", str(c["skipe"])]
            if c["num"] != 1 or r.random() < 0.5:
                argv += ["-n", str(c["num"])]
            e = min((k for k in c["ea"] if k in c["eb"] and k >= c["from"]), default=e0) + c["skipe"]
            x, y = ([t for t in c[s] if e <= t >> 37 < e + c["num"]] for s in "ab")
            grain = 32
        else:
            base = r.choice([0, r.randrange(1 << 53)])
            c["a"], c["b"] = (sorted(base + r.randrange(1 << r.choice([12, 30, 45])) for _ in range(size)) for _ in "ab")
            x, y = c["a"], c["b"]
            argv += ["-t", "ref", "-T", "tgt"]
            c["legacy"] = r.randrange(2)
            if c["legacy"]:
                argv.append("-X")
            if r.random() < 0.4:
                k = r.choice([1, 3, 1 << 10, 1 << 17])
                c["skip"] = k * SEC // (1 << 17)
                argv += ["-Z", repr(k / (1 << 17))]
            grain = 1
        o = max(x[0] if x else 0, y[0] if y else 0) + c["skip"]
        if r.random() < 0.5:
            k = r.choice([1, 2, 1 << 10, 1 << 16, 1 << 18])
            c["dur"] = k * SEC // (1 << 17)
            argv += ["--duration", repr(k / (1 << 17))]
        # events at the ends of what is chosen
        if r.random() < 0.7 and x and y:
            for s in "ab":
                for t in [o + d for d in (-1, 0, 1)] + ([] if c["dur"] is None else [o + c["dur"] + d for d in (-1, 0, 1)]):
                    t = t // grain * grain
                    if not epochs and 0 <= t < 1 << 54:
                        c[s].append(t)
                    elif epochs and (t >> 37) in c["e" + s] and t % (1 << 37) >= 64 and t >= c[s][0]:
                        c[s].append(t)
                c[s].sort()
        f = r.choice([0, 0, r.randrange(-1 << 21, 1 << 21), r.randrange(-1 << 24, 1 << 24)])
        c["freq"] = f
        if f or r.random() < 0.3:
            argv.append("--freq=" + repr(f * 1e6 / (1 << 34)))
        c["time"] = r.choice([0, 256 * r.randrange(-10 ** 8, 10 ** 8), r.randrange(-1 << 20, 1 << 20)])
        if c["time"] or r.random() < 0.3:
            argv.append("--time=" + repr(c["time"] / 256))
        w = r.choice([None, 1000, 50, 2500])
        c["width"] = 256 * (1000 if w is None else w)
        if w is not None:
            argv += ["--width", str(w)]
        c["save"] = r.choice([None, None, None, None, None, "plot.png"])
        if c["save"]:
            argv += ["--save-plot", c["save"]]
        # options for the other kind of source
        if r.random() < 0.3:
            for x in r.sample([["-Z", r.choice(["0.25", "3.5"])], ["-X"]] if epochs else [["-z", r.choice("123")], ["-n", r.choice("023")], ["-e", r.choice(["00000001", "2b000000"])]], r.randrange(1, 3)):
                argv += x
        c["text"] = ""
        if r.random() < 0.3:
            argv, c["text"] = in_file(r, argv)
        c["argv"] = argv
        cmds.append(c)

    def made(c, o):
        return {**{k: c[k] for k in ("ea", "eb", "from", "skipe", "num")}, "a": nums(c["a"]), "b": nums(c["b"]), "skip": big(c["skip"]),
                "hasdur": int(c["dur"] is not None), "dur": big(c["dur"] or 0), "time": big(c["time"]), "freq": big(c["freq"]), "width": c["width"],
                "gotwidth": -1 if o["width"] is None else o["width"], "x": nums(o["x"]), "y": nums(o["y"]),
                **{k: o[k] for k in ("code", "calls", "plotted", "saved")}}
    runs = calls(ctx, [c for c in cmds if not c["epochs"]], "raw", "a plot", made)
    # epochs as small numbers
    def small(c, o):
        d = made(c, o)
        z = min(c["ea"] + c["eb"]) - 8
        for k in ("ea", "eb"):
            d[k] = [e - z for e in c[k]]
        d["from"] = max(0, c["from"] - z) if c["from"] else 0
        for k in ("a", "b"):
            d[k] = nums([t - (z << 37) for t in c[k]])
        return d
    runs += calls(ctx, [c for c in cmds if c["epochs"]], "epochs", "a plot", small)
    # with the results of fpfind
    cmds = []
    for i in range(ctx.scale(14, 140)):
        q, R = r.choice([(14, 256), (15, 256), (14, 1024), (16, 256)])
        c = clocks(r, q, R, 1, 6.0, D=r.choice([-1, 1]) * r.uniform(0, 0.2) * (R << q), legacy=i % 2)
        c.update(op="plotloop", argv=c["opts"] + (["-X"] if i % 2 else []))
        cmds.append(c)
    for c, o, bad in sims(ctx, cmds):
        if bad:
            runs.append(bad)
            continue
        run = {"kind": "loop", "fail": "" if o["first"]["code"] == 0 else "offsets that are there were not found",
               "code": o["code"], "calls": o["calls"], "d": [[big(x), big(y)] for x, y in o["d"]], "Ts": big(c["Ts"]), "res": c["res"], "jitter": int(6 * c["jit"] + 1)}
        runs.append(tag(run, c))
    validate(ctx, "TracePlot", runs)
    ctx.notes["plots"] = len(runs)
