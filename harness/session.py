"""Sessions: what is called earlier changes nothing (C34)."""
from common import MachineryError, call_worker, cfg_with, design, generate, validate


def check_C34(ctx):
    design(ctx, "MCSession", [("4 steps", cfg_with("MCSession"))] + ([("5 steps", cfg_with("MCSession", MaxSteps="5"))] if ctx.thorough() else []),
           [(d, cfg_with("MCSession", Defect=f'"{d}"')) for d in ("cached", "shared", "inplace", "sticky", "leftover", "counting")])
    hist = []
    for k in (8, 14):
        hist += generate(ctx, "GenSession", cfg_with("GenSession", Steps=str(k)), ctx.scale(100, 1500), k + 2, tag="CASE", seed=ctx.seed * 16 + k)
    cmds = [{"op": "session", "seed": ctx.rng.getrandbits(40), "steps": h} for h in hist]
    # sessions about one function: with its own options and others, and with what it uses changed
    names = call_worker(ctx, [{"op": "functions"}], script="session_worker.py")[0]["ok"]
    for kind, fs in sorted(names.items()):
        num = ctx.scale(11, 60) * len(fs)
        about = generate(ctx, "GenSession", cfg_with("GenSession", Steps="9", Calls="{1, 2}", Kinds='{"%s"}' % kind), num, 11, tag="CASE", seed=ctx.seed * 16)
        cmds += [{"op": "session", "seed": ctx.rng.getrandbits(40), "steps": h, "about": fs[j % len(fs)]} for j, h in enumerate(about)]
    runs, fns = [], {}
    for c, o in zip(cmds, call_worker(ctx, cmds, script="session_worker.py")):
        if "ok" not in o:
            what = "a session did not end" if "hang" in o else "a session crashed" if "crash" in o else ""
            if not what:
                raise MachineryError(f"session failed: {o}")
            ctx.violation(what, c)
            continue
        run = o["ok"]
        for s in run["steps"]:
            if s["kind"] == "call":
                fns[s["fn"]] = fns.get(s["fn"], 0) + 1
        runs.append({**run, "_label": "session", "_replay": c})
    validate(ctx, "TraceSession", runs)
    ctx.notes["calls per function"] = fns
