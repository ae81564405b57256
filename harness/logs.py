"""Log messages reach every output of their logger once, whole and aligned (C36)."""
from common import call_worker, cfg_with, design, generate, validate

WORDS = ["Peak found,", "dt = 1.5 ns", "x", "a | b", "100 %", "[0.00, 1.07]s", "-", "| ", "Bins: 2^17", "{1: 2}", "it's", "a: b", "S\\t", "%d", "ppm:"]


def words(r, most, pads=(0, 0, 2, 4, 8)):
    t = " ".join(r.choice(WORDS) for _ in range(r.randrange(most + 1)))
    return " " * r.choice(pads) + t


def message(r, s):
    m = {"text": words(r, 3), "args": [], "kind": "", "details": [], "func": "", "line": 0, "file": ""}
    if r.random() < 0.15:
        m["text"] = " " * r.choice((0, 0, 2, 5))
    if r.random() < 0.3:
        m["text"] = m["text"].replace("%", "%%") + r.choice([" %d", "%s", " %.3f (%s)"])
        m["args"] = [r.randrange(1000) / 4 for _ in range(m["text"].replace("%%", "").count("%"))]
    if s["k"] == "more" or r.random() < 0.2:
        m["kind"] = r.choice(["list", "list", "dict", "tuple"])
        m["details"] = [words(r, 2, (0, 0, 0, 1, 3)) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        if m["kind"] == "dict":
            m["details"] = [["k%d" % i, d] for i, d in enumerate(m["details"])]
    if r.random() < 0.2:
        m["func"] = r.choice(["outer", "[wrapped]", "f_1"])
    if r.random() < 0.2:
        m["line"] = r.randrange(1, 5000)
    return m


def logs_cmd(r, hist):
    human = {k: r.randrange(2) for k in ("a", "a.b", "c", "f", "g")}
    steps = []
    for s in hist:
        s = dict(s)
        if s["k"] in ("log", "more"):
            s["m"] = message(r, s)
            s["k"] = "log"
        steps.append(s)
    return {"op": "logs", "human": human, "steps": steps, "root": r.randrange(2), "old": r.randrange(2)}


def check_C36(ctx):
    design(ctx, "MCLogs", [("2 loggers, 2 files", cfg_with("MCLogs", Steps=ctx.scale("6", "8")))],
           [(d, cfg_with("MCLogs", Defect=f'"{d}"')) for d in ("again", "stuck", "instead", "below", "parent")])
    r = ctx.rng
    hist = []
    for k in (6, 12, 24):
        hist += generate(ctx, "GenLogs", cfg_with("GenLogs", Steps=str(k)), ctx.scale(120, 1500), k + 2, tag="CASE", seed=ctx.seed * 16 + k)
    cmds = [logs_cmd(r, h) for h in hist]
    runs = []
    for c, o in zip(cmds, call_worker(ctx, cmds)):
        if "ok" not in o:
            ctx.violation("logging" + (" did not end" if "hang" in o else " crashed" if "crash" in o else " raised " + o["err"].split(":")[0]), {**c, "outcome": o})
            continue
        runs.append({"human": c["human"], **o["ok"], "_label": "logs", "_replay": {**c, "outcome": o}})
    validate(ctx, "TraceLogs", runs)
    ctx.notes["messages"] = sum(1 for x in runs for s in x["steps"] if s["k"] == "log")
    ctx.notes["lines"] = sum(len(x["got"][o]) for x in runs for o in x["got"])
