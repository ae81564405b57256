"""Streams hold a batch at a time, however long the files (C35)."""
from common import call_worker, cfg_with, design, generate, validate

SIZE = {"0": 18, "1": 8, "2": 17}


def stream_cmd(r, hist):
    files = []
    for _ in range(r.choice([1, 2, 3])):
        f = r.choice("012")
        files.append({"fmt": f, "size": SIZE[f], "total": r.randrange(420_000, 600_000) // SIZE[f]})
    streams = []
    for _ in range(3):
        f = r.randrange(len(files))
        n = files[f]["total"]
        streams.append({"f": f, "batch": r.choice([n // 3 + 1, n // 2, n // 40 + r.randrange(5), 1000, n // 8, n])})
    steps = []
    for h in hist:
        for _ in range(h["n"]):
            steps.append({"k": h["k"], "s": h["s"] - 1})
    # to the end of one of them
    k = r.randrange(3)
    steps += [{"k": "ask", "s": k}] * (files[streams[k]["f"]]["total"] // streams[k]["batch"] + 2)
    for i in {len(hist) // 2, len(steps) - 1, *r.sample(range(len(steps)), min(4, len(steps)))}:
        steps[i] = {**steps[i], "look": 1}
    return {"op": "streams", "files": files, "streams": streams, "steps": steps}


def fails(ctx, o, c, what):
    if "ok" in o:
        return False
    ctx.violation(what + (" did not end" if "hang" in o else " crashed" if "crash" in o else " raised " + o["err"].split(":")[0]), {**c, "outcome": o})
    return True


def check_C35(ctx):
    design(ctx, "MCStream", [("2 streams", cfg_with("MCStream"))] + ([("3 streams", cfg_with("MCStream", Streams="{1, 2, 3}"))] if ctx.thorough() else []),
           [(d, cfg_with("MCStream", Defect=f'"{d}"')) for d in ("whole", "faster", "kept", "late")])
    r = ctx.rng
    runs = []
    hist = []
    for k in (4, 8, 16):
        hist += generate(ctx, "GenStream", cfg_with("GenStream", Steps=str(k)), ctx.scale(30, 300), k + 2, tag="CASE", seed=ctx.seed * 16 + k)
    cmds = [stream_cmd(r, h) for h in hist]
    for c, o in zip(cmds, call_worker(ctx, cmds)):
        if fails(ctx, o, c, "reading in batches"):
            continue
        o = o["ok"]
        runs.append({"kind": "streams", "files": [{"total": f["total"], "size": f["size"]} for f in c["files"]],
                     "streams": [{"f": q["f"] + 1, "batch": q["batch"], "told": n} for q, n in zip(c["streams"], o["told"])],
                     "steps": o["steps"], "whole": 1, "_label": "streams", "_replay": c})
    cmds = []
    for j in range(ctx.scale(2, 12)):
        for to in ("0", "1", "2", "report"):
            size = SIZE.get(to, 8)
            n = r.randrange(600_000, 800_000) // size
            b = n // r.choice([12, 30, 60])
            cmds.append({"op": "sink", "to": to, "size": size, "total": n, "batch": b, "every": max(1, n // b // 8), "how": r.choice(["ld", "f8"]),
                         "told": j % 2, "display": r.random() < 0.5})
    for c, o in zip(cmds, call_worker(ctx, cmds, shards=4)):
        if fails(ctx, o, c, "writing in batches"):
            continue
        runs.append({"kind": "sink", "batch": c["batch"], "size": c["size"], "grows": int(c["to"] != "report"), **o["ok"], "_label": c["to"], "_replay": c})
    cmds = []
    pairs = [(a, b) for a in "012" for b in "012"]
    for a, b in pairs if ctx.thorough() else r.sample(pairs, 4):
        argv = ["-A" + a, "-a" + b] + r.choice([["-q"], []]) + r.choice([[], ["--tfilter-start", "0"], ["--pfilter-pattern", "15", "--pfilter-mask"]])
        cmds.append({"op": "through", "from": a, "to": b, "isize": SIZE[a], "osize": SIZE[b], "argv": argv, "total": 1_100_000, "limit": 120})
    samples = 0
    for c, o in zip(cmds, call_worker(ctx, cmds, shards=4)):
        if fails(ctx, o, c, "a conversion"):
            continue
        samples += len(o["ok"]["steps"])
        runs.append({"kind": "program", "batch": 100_000, "size": c["osize"], **o["ok"], "_label": "program", "_replay": c})
    validate(ctx, "TraceStream", runs)
    ctx.notes["streams"] = sum(1 for x in runs if x["kind"] == "streams")
    ctx.notes["moments at which programs were seen"] = samples
