"""Detuned test data (C27)."""
import struct

from common import big, call_worker, cfg_with, design, validate
from eventfile import fail_of


def check_C27(ctx):
    design(ctx, "MCDetune", [("4 events", cfg_with("MCDetune"))] + ([("5 events", cfg_with("MCDetune", L="5"))] if ctx.thorough() else []),
           [(d, cfg_with("MCDetune", Defect=f'"{d}"')) for d in ("own", "origin", "sign", "anything")])
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(60, 600)):
        n = r.choice([1, 2, 5, 20, 40])
        span = r.choice([1 << 12, 1 << 30, 1 << 40, 1 << 48])
        base = r.choice([0, 1, r.randrange(1 << 40), r.randrange(1 << 53)])
        t = sorted(base + r.randrange(span) for _ in range(n))
        t[0] = base
        p = [r.choice([1, 8, r.choice([0, 1, 2, 4, 8, 9, 12, 15])]) for _ in t]
        for c in (1, 8):                  # both detectors have events
            if c not in p:
                k = r.randrange(len(t) + 1)
                t.insert(k, t[k - 1] if k else t[0])
                p.insert(k, c)
        data = b"".join(struct.pack("<II", w >> 32, w & 0xffffffff) for w in (x << 10 | y for x, y in zip(t, p)))
        calls = []
        for _ in range(3):
            e = r.randrange(2, 11)
            num = r.choice([0, 1, -1, r.randrange(-9999, 10000) if e > 5 else 3])
            off = r.choice([None, 0, r.randrange(1 << 30)])
            calls.append({"ch": r.choice(p), "ratio": num / 10 ** e, "num": num, "d1": 10 ** min(e, 5), "d2": 10 ** max(0, e - 5), "off": off})
        cmds.append({"op": "detune", "input": data.hex(), "t": t, "p": p, "calls": calls})
    runs = []
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        fail = fail_of(rep, "generating detuned files")
        run = {"kind": "script", "fail": fail, "_label": "script", "_replay": c}
        runs.append(run)
        if fail:
            continue
        o = rep["ok"]
        f = [{"there": h is not None, "bytes": list(bytes.fromhex(h or "")), "n": n} for n, h in zip([0] + list(range(3, 11)), o["files"])]
        run.update(code=o["code"], input=list(bytes.fromhex(c["input"])), ref=f[0], out=f[1:])
        for k, x in zip(c["calls"], o["calls"]):
            runs.append({"kind": "call", "fail": "", "t": [big(v) for v in c["t"]], "p": c["p"], "ch": k["ch"], "num": k["num"], "d1": k["d1"],
                         "d2": k["d2"], "off": big(k["off"] or 0), "ot": [big(v) for v in x["ot"]], "op": x["op"], "_label": "call", "_replay": c})
    validate(ctx, "TraceDetune", runs)
    ctx.notes["files"] = 9 * len(cmds)
