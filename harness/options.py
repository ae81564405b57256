"""The search that fpfind's options ask for (C28)."""
from common import big, call_worker, cfg_with, design, validate
from clock import SEC, nums
from eventfile import fail_of

LONG = {"k": "num-wraps", "q": "buffer-order", "R": "initial-res", "r": "final-res", "s": "separation", "S": "threshold", "Z": "skip-duration",
        "z": "skip-epochs", "P": "precomp-enable", "ordered": "precomp-ordered", "full": "precomp-fullscan", "X": "legacy", "e": "first-epoch",
        "t": "reference", "T": "target", "d": "sendfiles", "D": "t1files", "start": "precomp-start", "step": "precomp-step", "stop": "precomp-stop"}
FLAGS = ("P", "ordered", "full", "X")


def made(r, o, epochs, z):
    """A value of the option: for the specification, and as text."""
    if o in FLAGS:
        return 1, None
    if o == "k":
        v = r.choice([1, 2, 3, 5])
    elif o == "q":
        v = r.choice([22, 23, 24, 25]) if epochs else r.randrange(10, 31)
    elif o == "R":
        v = r.choice([8, 16, 24]) if epochs else r.randrange(1, 5000)
    elif o == "r":
        v = r.randrange(1, 100)
    elif o in ("s", "S"):
        v = r.choice([16 * r.randrange(12), r.randrange(160)])
        return v, r.choice([repr, "{:g}".format])(v / 16) if v % 16 == 0 else repr(v / 16)
    elif o == "Z":
        v = r.choice([0, 1, 512, r.randrange(1, 4096)])
        return v, repr(v / 1024)
    elif o == "z":
        v = r.choice([0, 1, 2, 3])
    elif o == "e":
        v = r.choice([1, 2, 3, r.randrange(1, 16)])
        return v, "%08x" % (z + v)
    elif o in "tTdD":
        v = r.choice([1, 1, 2])
        return v, {"t": "r", "T": "t", "d": "s", "D": "d"}[o] + str(v)
    elif o == "start":
        f = r.choice([0.0, 1e-6, -2.5e-6, r.uniform(-1e-5, 9e-7)])
        return exact(f), repr(f)
    elif o == "step":
        f = r.choice([1e-6, 2e-6, 5e-7, 1e-6, 0.0])
        return exact(f), repr(f)
    elif o == "stop":
        f = r.choice([1e-6, 2e-6, 5e-6, 1.1e-5, 2.75e-6, 0.0])
        return exact(f), repr(f)
    return v, str(v)


def exact(f):
    """In 2^-60, rounded."""
    return big(int(f * 2.0 ** 60 + (0.5 if f >= 0 else -0.5)))


def side(r, n, epochs, z, base):
    if epochs:
        es = r.choice([list(range(16)), list(range(r.randrange(3), 16)), list(range(16)), sorted(r.sample(range(16), 14))])
        t = sorted((z + e << 37) + 32 * r.choice([2, r.randrange(2, 1 << 32), (1 << 32) - 1]) for e in es for _ in range(r.choice([1, 2])))
        return [z + e for e in es], t
    return [], sorted(base + r.randrange(1 << r.choice([30, 38, 38, 39])) for _ in range(n))


def check_C28(ctx):
    design(ctx, "MCOptions", [("windows to 5", cfg_with("MCOptions"))] + ([("windows to 12", cfg_with("MCOptions", EP="6", W="12", SMax="6"))] if ctx.thorough() else []),
           [(d, cfg_with("MCOptions", Defect=f'"{d}"')) for d in ("last", "reverse", "flag", "nobuffer", "floor", "nowindow")])
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(220, 2400)):
        epochs = i % 2
        z = r.choice([r.randrange(1 << 28, (1 << 32) - 64), (r.randrange((1 << 11) + 1, 1 << 15) << 17) - r.randrange(12)])
        c = {"op": "options", "epochs": epochs, "z": z, "legacy": r.randrange(2), "ra": [], "rb": [], "ea": [], "eb": [], "da": [], "db": []}
        base = r.choice([0, r.randrange(1 << 52)])
        for _ in range(2):
            for s in "ab":
                e, t = side(r, r.choice([3, 20, 40]), epochs, z, base)
                if epochs:
                    c["e" + s].append(e)
                    c["d" + s].append(t)
                else:
                    c["r" + s].append(t)
        opts = ["k", "q", "R", "r", "s", "S", "P", "ordered", "full", "start", "step", "stop", "z", "e", "Z"] + (["X"] if epochs else [])
        given = []
        need = list("dD" if epochs else "tT") + (["X"] if not epochs and c["legacy"] else [])
        if r.random() < 0.06:
            need.remove(r.choice(need[:2]))
        more = r.sample(opts, r.choice([0, 2, 5, len(opts)]))
        if r.random() < 0.4:
            more = sorted(set([o for o in more if o != "ordered"] + ["P"] + r.sample(["start", "step", "stop", "full"], r.randrange(5))))
        for o in need + more:
            if epochs and o in "q":
                continue
            for s in r.choice([[3], [3], [2], [1], [2, 3], [1, 3], [1, 2], [1, 2, 3]]):
                given.append((o, s) + made(r, o, epochs, z))
        if epochs:
            # windows of a quarter of an epoch or more
            o = ("q", r.choice([1, 2, 3]))
            given.append(o + made(r, "q", 1, z))
        idle = "" if r.random() > 0.08 else r.choice(["help", "nothing"])
        save = 0 if idle or r.random() > 0.15 else 1
        if idle == "nothing":
            given = [g for g in given if g[1] == 2]
        r.shuffle(given)
        if any(g[0] == "ordered" for g in given):
            # not below the start
            given = [g for g in given if g[0] != "stop" or float(g[3]) > 0]
        c["text"] = {}
        c["prog"] = r.choice(["fpfind", "fpfind", "/usr/local/bin/fpfind", "fpfind.py", "./fpfind.v1"])
        default = c["prog"].split("/")[-1] + ".default.conf"
        argv = []
        for s, name in ((1, default), (2, r.choice(["my.conf", "sub.d.ini"]))):
            lines = [f"{LONG[o]} = {'true' if v is None else v}" for o, k, _, v in given if k == s]
            if lines or r.random() < 0.1:
                c["text"][name] = "\n".join((["# options"] if r.random() < 0.2 else []) + lines) + "\n"
                if s == 2 and idle != "nothing":
                    argv.append((["--config", name],))
        for o, k, _, v in given:
            if k == 3:
                short = len(o) == 1 and r.random() < 0.5
                if v is None:
                    argv.append(([("-" + o) if short else "--" + LONG[o]],))
                else:
                    argv.append((["-" + o, v] if short and not v.startswith("-") else ["--" + LONG[o] + "=" + v],))
        if r.random() < 0.3:
            argv.append((r.choice([["-v"], ["-vv"], ["--quiet"], ["-V", str(r.randrange(16))], ["-V0"]]),))
        r.shuffle(argv)
        argv = [x for (xs,) in argv for x in xs]
        if idle == "help":
            argv.insert(r.choice([0, len(argv)]), r.choice(["-h", "--help"]))
        c["given"] = [[o, s, v] for o, s, v, _ in given]
        c["runs"] = [argv]
        c["idle"] = idle
        c["save"] = save
        if save:
            c["runs"] = [argv + ["--save", "saved.conf"], ["--config", "saved.conf"], argv]
        cmds.append(c)
    reps = call_worker(ctx, cmds)
    if all("ok" in p and not any(x["called"] for x in p["ok"]["runs"]) for p in reps):
        ctx.notes["search"] = "not observable"
        return
    runs = []
    for c, rep in zip(cmds, reps):
        base = {"_label": "fpfind", "_replay": c}
        fail = fail_of(rep, "fpfind")
        if fail:
            runs.append({"kind": "idle", "fail": fail, **base})
            continue
        for i, o in enumerate(rep["ok"]["runs"]):
            run = dict(base, fail="", code=o["code"], called=o["called"], legacy=c["legacy"])
            if c["idle"] == "help" or (c["idle"] == "nothing" and not any(n.endswith("default.conf") for n in c["text"])):
                run.update(kind="idle", good=0)
            elif c["save"] and i == 0:
                run.update(kind="idle", good=1)
            else:
                run["kind"] = "epochs" if c["epochs"] else "raw"
                run["given"] = [{"o": g[0], "s": g[1], "v": g[2]} for g in c["given"] if c["idle"] != "nothing" or g[1] == 1]
                run["step0"], run["stop0"] = exact(1e-7), exact(1e-5)
                for k in ("ra", "rb"):
                    run[k] = [nums(t) for t in c[k]]
                for k in ("ea", "eb"):
                    run[k] = [[e - c["z"] for e in es] for es in c[k]]
                for k in ("da", "db"):
                    run[k] = [nums([t - (c["z"] << 37) for t in ts]) for ts in c[k]]
                if o["called"]:
                    n = lambda v: -1 if v is None or abs(v) >= 1 << 31 else v
                    run.update(a=nums(o["a"]), b=nums(o["b"]), pre=nums(o["pre"]), bins=big(-1 if o["bins"] is None else o["bins"]),
                               sep=big(-1 if o["sep"] is None else o["sep"]), **{k: n(o[k]) for k in ("wraps", "res", "tgt", "thr", "full")})
            runs.append(run)
    validate(ctx, "TraceOptions", runs)
    ctx.notes["searches"] = sum(x.get("called", 0) for x in runs)
