"""The test case generator (C23)."""
import re

from common import big, call_worker, cfg_with, design, generate, validate
from eventfile import fail_of

TOP = (1 << 54) - 1


def word(t, p, legacy):
    w = (t & TOP) << 10 | p
    if legacy:
        w = (w & 0xffffffff) << 32 | w >> 32
    return w.to_bytes(8, "little")


def number(tok, r, last):
    return {"zero": 0, "one": 1, "small": r.randrange(1 << 22), "mid": r.randrange(1 << 53), "edge": r.choice([1 << 22, (1 << 22) - 1, 1 << 53, 1 << 52, (1 << 32) - 1]),
            "top": TOP - r.randrange(2), "over": (1 << 54) + r.choice([0, 1, r.randrange(1 << 54)]), "huge": r.randrange(1 << 54, 1 << 80), "same": last}[tok]


def check_C23(ctx):
    bad = [(d, cfg_with("MCTestcase", Defect=f'"{d}"')) for d in ("append", "clobber", "clash", "leave", "last")]
    good = [("3 numbers", cfg_with("MCTestcase"))]
    if ctx.thorough():
        good.append(("5 numbers", cfg_with("MCTestcase", MaxN="5")))
    design(ctx, "MCTestcase", good, bad)
    r = ctx.rng
    cmds = []
    for s in generate(ctx, "GenTestcase", cfg_with("GenTestcase"), ctx.scale(500, 5000), 14):
        g = s["c"]
        l, last = [], r.randrange(1 << 54)
        for tok in s["l"]:
            last = number(tok, r, last)
            l.append(last)
        neg = None
        c = {"op": "testcase", "x": g["x"], "stdin": [], "end": "eof", "files": {"other": "00ff", "old": r.randbytes(r.choice([8, 16, 80])).hex(), "x_tempinput": "aa"}, "o": None}
        argv = ["-x"] if g["x"] else []
        o = {"none": None, "new": "new", "old": "old", "deep": "sub/new"}[g["o"]]
        if o == "sub/new":
            c["files"]["sub/keep"] = "01"
        if g["mode"] in ("args", "prompt"):
            if g["mode"] == "prompt" and o is None:
                o = "new"
            if o:
                c["o"] = o
                argv += ["-o", o]
        if g["mode"] == "args":
            if not l:
                l = [r.randrange(1 << 54)]
            texts = [str(v) for v in l]
            if g["junk"] == "negative":
                neg = r.randrange(len(l) + 1)
                texts.insert(neg, str(-r.choice([1, 5, 1 << 60])))
            t = ["-t"] + texts
            argv = argv + t if r.random() < 0.5 else t + argv
            c["kind"] = "write"
        elif g["mode"] == "prompt":
            lines = [str(v) for v in l]
            if g["junk"] in ("word", "none2"):
                for w in r.sample(["", "abc", "1.5", "0x10", "--"], 2):
                    lines.insert(r.randrange(len(lines) + 1), w)
            c["stdin"] = [(x + "\n").encode().hex() for x in lines]
            c["end"] = r.choice(["eof", "interrupt"])
            c["kind"] = "prompt"
        else:
            data = b"".join(word(v, r.randrange(16), g["x"]) for v in l)
            # any flag bits
            data = bytes(data) if r.random() < 0.5 else b"".join(
                word(v, r.randrange(1024), g["x"]) for v in l)
            data += r.randbytes(g["part"])
            c["kind"], c["data"] = "list", data.hex()
            if g["mode"] == "file":
                name = r.choice(["events", "sub/events", "a.b", "x_tempinput"])
                c["files"][name] = data.hex()
                argv.append(name)
            else:
                cut = r.randrange(len(data) + 1)
                c["stdin"] = [data[:cut].hex(), data[cut:].hex()]
                argv.append("-")
                if r.random() < 0.15:
                    c["end"], c["kind"] = "interrupt", "side"
        c["argv"], c["_l"] = argv, [{"neg": 0, "v": big(v)} for v in l]
        if neg is not None:
            c["_l"].insert(neg, {"neg": 1, "v": big(1)})
        cmds.append(c)
    runs = []
    for c, rep in zip(cmds, call_worker(ctx, [{k: v for k, v in c.items() if k[0] != "_"} for c in cmds])):
        run = {"kind": c["kind"], "fail": fail_of(rep, "a session"), "legacy": c["x"], "l": c["_l"],
               "_label": "session", "_replay": {k: v for k, v in c.items() if k[0] != "_"}}
        if not run["fail"]:
            o = rep["ok"]
            run.update(code=o["code"], intact=o["intact"], left=o["left"])
            if c["kind"] == "list":
                text = bytes.fromhex(o["out"]).decode("latin-1")
                lines = text.split("\n")
                run["fmt"] = int(lines[-1] == "" and all(re.fullmatch(r"\d{1,20}", x) for x in lines[:-1]))
                run["out"] = [big(int(x)) for x in lines[:-1]] if run["fmt"] else []
                run["bytes"] = list(bytes.fromhex(c["data"]))
            elif c["kind"] != "side":
                data = bytes.fromhex(o["out"]) if c["o"] is None else (None if o["o"] is None else bytes.fromhex(o["o"]))
                if data is None:
                    run["fail"] = "there is no output file"
                else:
                    run["bytes"] = list(data)
        runs.append(run)
    validate(ctx, "TraceTestcase", runs)
    ctx.notes["sessions"] = len(runs)
