"""Timestamp files and the parse_timestamps program (C05-C09)."""
import os
import re

from common import (NCPU, big, call_worker, cfg_with, chars, design, generate, validate)

TSM = (1 << 54) - 1
EIGHTH = 32 * 10 ** 9
WIDTH = {"0": 18, "1": 8, "2": 17}


def word_bytes(fmt, legacy, w):
    if fmt == "1":
        if legacy:
            w = ((w & 0xffffffff) << 32) | (w >> 32)
        return w.to_bytes(8, "little")
    if fmt == "2":
        return b"%016x\n" % w
    return b"%08x\n%08x\n" % (w & 0xffffffff, w >> 32)


def file_bytes(fmt, legacy, ev, rng=None):
    """ev: list of (t, p); flag bits random if rng is given."""
    out = bytearray()
    for t, p in ev:
        fl = rng.choice([0, 0, rng.randrange(64), 63]) if rng else 0
        out += word_bytes(fmt, legacy, (t << 10) | (fl << 4) | p)
    return bytes(out)


EDGE = [0, 1, 255, 256, 257, TSM, TSM - 1, TSM - 255, 1 << 53, (1 << 53) + 1, (1 << 53) - 1,
        (1 << 32) - 1, 1 << 32, (1 << 22) - 1, 1 << 22, 1 << 52]


def rand_t(r):
    x = r.random()
    if x < 0.3:
        return r.choice(EDGE)
    if x < 0.5:
        return r.getrandbits(r.randrange(1, 55))
    if x < 0.7:
        return (1 << 53) | r.getrandbits(53)
    return r.getrandbits(54)


def rand_events(r, n, sort=True):
    t = [rand_t(r) for _ in range(n)]
    if sort:
        t.sort()
    return [(x, r.randrange(16)) for x in t]


def fail_of(rep, what):
    if "hang" in rep:
        return what + " did not end"
    if "crash" in rep:
        return what + " crashed"
    if "err" in rep:
        return what + " raised " + re.sub(r"[^A-Za-z]", "", rep["err"].split(":")[0])
    return ""


def nums(xs):
    """Exact numbers from a reply; a missing one (not an integer) becomes -1."""
    return [big(-1 if x is None else x) for x in xs]


def evj(ev):
    return [{"t": big(t), "p": p} for t, p in ev]


def run_cases(ctx, cmds, label, build, **kw):
    """Runs worker commands and turns every reply into a trace record."""
    reps = call_worker(ctx, cmds, **kw)
    runs = []
    for c, rep in zip(cmds, reps):
        f = fail_of(rep, label)
        r = {"fail": f}
        if not f:
            try:
                r.update(build(c, rep["ok"]))
            except (TypeError, KeyError, ValueError, IndexError) as e:
                r = {"fail": label + " returned something unusable"}
        if "kind" not in r:
            r["kind"] = "none"
        r["_label"] = label
        r["_replay"] = {k: v for k, v in c.items() if len(repr(v)) < 20000}
        runs.append(r)
    return runs


def design_eventfile(ctx, defects=True):
    good = [("times 0..1, 2 events", cfg_with("MCEventFile", MaxT="1"))]
    if ctx.thorough():
        good.append(("times 0..2, 2 events, batches to 3", cfg_with("MCEventFile", Batches="{1, 2, 3}")))
        good.append(("times 0..1, 3 events", cfg_with("MCEventFile", MaxT="1", MaxN="3")))
    # every defect with the smallest constants that show it
    show = {"flags": dict(MaxT="0", MaxN="1", Batches="{1}"), "announce": dict(MaxT="0", MaxN="2", Batches="{1}"),
            "exclusive": dict(MaxT="0", MaxN="1", Batches="{1}"), "dropshort": dict(MaxT="0", MaxN="3", Batches="{2}"),
            "premask": dict(MaxT="1", MaxN="2", Batches="{2}"), "legacy": dict(MaxT="0", MaxN="1", Batches="{1}")}
    bad = [(d, cfg_with("MCEventFile", Defect=f'"{d}"', **k)) for d, k in show.items()] if defects else []
    design(ctx, "MCEventFile", good, bad)


# --------------------------------------------------------------------------
# C05, C06
# --------------------------------------------------------------------------
def read_cmd(r, fmt, legacy, ev, res=None, frac=None):
    return {"op": "read", "fmt": fmt, "legacy": legacy, "res": res or r.choice([1, 8, 256]),
            "frac": r.randrange(2) if frac is None else frac,
            "bytes": file_bytes(fmt, legacy and fmt == "1", ev, r).hex()}


def build_read(c, o):
    return {"kind": "read", "fmt": c["fmt"], "legacy": c["legacy"], "res": c["res"], "frac": c["frac"],
            "bytes": list(bytes.fromhex(c["bytes"])), "t": nums(o["t"]), "p": o["p"]}


def check_C05(ctx):
    design_eventfile(ctx)
    r = ctx.rng
    ws = []
    for fmt in "012":
        for legacy in (0, 1):
            for res in (1, 8, 256):
                for how in ("float", "uint", "list"):
                    if how != "float" and res == 1:
                        step = 256
                    else:
                        step = {"float": 1, "uint": 256 // res, "list": 256 // res}[how]
                    for n in (0, 1, 2, r.randrange(3, 30)):
                        for rep in range(ctx.scale(1, 6)):
                            ev = [(t // step * step, p) for t, p in rand_events(r, n, r.random() < 0.7)]
                            c = {"op": "write", "fmt": fmt, "legacy": legacy, "res": res, "how": how,
                                 "phow": r.choice(["u4", "i8", "list"]), "t": [t for t, _ in ev], "p": [p for _, p in ev]}
                            if n and r.random() < 0.4:
                                c["batches"] = sorted(r.randrange(n + 1) for _ in range(r.randrange(3)))
                                if not c["batches"]:
                                    c["batches"] = [n]
                            ws.append(c)
    runs = run_cases(ctx, ws, "writing events", lambda c, o: {
        "kind": "write", "fmt": c["fmt"], "legacy": c["legacy"] if c["fmt"] == "1" else 0,
        "e": evj(zip(c["t"], c["p"])), "bytes": list(bytes.fromhex(o))})
    # read back what the code itself wrote
    back = []
    for c, w in zip(ws, runs):
        if w["kind"] == "write":
            back.append({"op": "read", "fmt": c["fmt"], "legacy": c["legacy"], "res": r.choice([1, 8, 256]),
                         "frac": r.randrange(2), "bytes": bytes(w["bytes"]).hex()})
    # arbitrary words, including flag bits
    for fmt in "012":
        for legacy in (0, 1):
            for res in (1, 8, 256):
                for frac in (0, 1):
                    for n in (0, 1, 2, 40):
                        for rep in range(ctx.scale(1, 8)):
                            back.append(read_cmd(r, fmt, legacy, rand_events(r, n, r.random() < 0.5), res, frac))
    runs += run_cases(ctx, back, "reading events", build_read)
    validate(ctx, "TraceEventFile", runs)
    ctx.notes["calls"] = len(runs)


def build_sread(c, o):
    return {"kind": "sread", "fmt": c["fmt"], "legacy": c["legacy"], "res": c["res"], "frac": c["frac"],
            "bytes": list(bytes.fromhex(c["bytes"])), "size": c["size"], "n": o["n"],
            "b": [{"t": nums(b["t"]), "p": b["p"]} for b in o["b"]]}


def check_C06(ctx):
    design_eventfile(ctx)
    r = ctx.rng
    cs = []
    for fmt in "012":
        for legacy in (0, 1):
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31):
                sizes = {1, 2, 3, n // 2, n - 1, n, n + 1, 2 * n, 100000}
                if not ctx.thorough():
                    sizes = set(r.sample(sorted(sizes), 5)) | {n}
                for s in sorted(sizes):
                    if s < 1:
                        continue
                    ev = rand_events(r, n, r.random() < 0.5)
                    cs.append({"op": "sread", "fmt": fmt, "legacy": legacy, "res": r.choice([1, 8, 256]),
                               "frac": r.randrange(2), "size": s,
                               "bytes": file_bytes(fmt, legacy and fmt == "1", ev, r).hex()})
    if ctx.thorough():
        for n in range(0, 60):
            for s in range(1, 62, 3):
                fmt = r.choice("012")
                legacy = r.randrange(2)
                ev = rand_events(r, n, False)
                cs.append({"op": "sread", "fmt": fmt, "legacy": legacy, "res": r.choice([1, 8, 256]),
                           "frac": r.randrange(2), "size": s,
                           "bytes": file_bytes(fmt, legacy and fmt == "1", ev, r).hex()})
    runs = run_cases(ctx, cs, "streaming events", build_sread)
    # the same files in memory
    more = []
    for c in r.sample(cs, ctx.scale(60, 400)):
        more.append(dict(c, op="read"))
    runs += run_cases(ctx, more, "reading events", build_read)
    validate(ctx, "TraceEventFile", runs)
    ctx.notes["calls"] = len(runs)


# --------------------------------------------------------------------------
# C07
# --------------------------------------------------------------------------
def check_C07(ctx):
    design_eventfile(ctx)
    r = ctx.rng
    cs = []
    # complete: every pattern against every filter
    for pat in range(16):
        for mask in (0, 1):
            for inv in (0, 1):
                p = list(range(16))
                r.shuffle(p)
                cs.append({"op": "pmask", "p": p, "phow": r.choice(["u4", "i8"]), "pattern": pat, "mask": mask, "invert": inv})
    for _ in range(ctx.scale(60, 600)):
        cs.append({"op": "pmask", "p": [r.randrange(16) for _ in range(r.choice([0, 1, 2, 50]))],
                   "phow": r.choice(["u4", "i8"]), "pattern": r.randrange(16), "mask": r.randrange(2), "invert": r.randrange(2)})
    runs = run_cases(ctx, cs, "the pattern filter", lambda c, o: {
        "kind": "pmask", "p": c["p"], "pattern": c["pattern"], "mask": c["mask"], "invert": c["invert"],
        "m": o["m"], "q": o["q"], "same": o["same"]})
    ts = []
    for _ in range(ctx.scale(500, 6000)):
        n = r.choice([0, 1, 2, 3, 5, 9, 20])
        res = r.choice([1, 8, 256])
        how = r.choice(["float", "float", "uint"])
        step = 1 if how == "float" else 256 // res
        base = r.choice([0, 0, r.randrange(0, 400), 281476, r.randrange(281000, 562000)])

        def bound():
            if r.random() < 0.25:
                return None
            return max(0, base + r.randrange(-1, 8))
        lo, hi = bound(), bound()
        if r.random() < 0.1:
            hi = lo
        t = []
        for _ in range(n):
            k = base + r.randrange(0, 6)
            if r.random() < 0.5 and (lo is not None or hi is not None):
                k = r.choice([b for b in (lo, hi) if b is not None])
            x = k * EIGHTH
            y = r.random()
            if y < 0.3:
                pass
            elif y < 0.75:
                x += r.choice([-1, 1, -1, 1, -2, 2, -256, 256, -32, 32])
            else:
                x += r.randrange(EIGHTH)
            x = max(0, min(TSM, x))
            t.append(x // step * step)
        if n > 2 and r.random() < 0.3:
            t[1] = t[0]
        t.sort()
        fl = 1
        if (lo is None or lo % 8 == 0) and (hi is None or hi % 8 == 0):
            fl = r.randrange(2)
        ts.append({"op": "tmask", "t": t, "res": res, "how": how, "start": lo, "end": hi, "asfloat": fl,
                   "explicit": r.randrange(2)})
    # whole seconds and lists of events exactly at the bounds
    for _ in range(ctx.scale(60, 400)):
        ks = sorted(r.randrange(0, 12) for _ in range(r.randrange(1, 12)))
        a, b = r.randrange(0, 12), r.randrange(0, 12)
        ts.append({"op": "tmask", "t": [k * EIGHTH * 8 for k in ks], "res": r.choice([1, 8, 256]), "how": r.choice(["float", "uint"]),
                   "start": a * 8, "end": b * 8, "asfloat": r.randrange(2)})
    runs += run_cases(ctx, ts, "the time filter", lambda c, o: {
        "kind": "tmask", "t": [big(x) for x in c["t"]], "m": o["m"], "same": o["same"],
        "lo": -1 if c["start"] is None else c["start"], "hi": -1 if c["end"] is None else c["end"]})
    validate(ctx, "TraceEventFile", runs)
    ctx.notes["calls"] = len(runs)


# --------------------------------------------------------------------------
# C08, C09: use cases of the program
# --------------------------------------------------------------------------
def use_case(r, s):
    """Events and filter of a generated use case."""
    n = {"none": 0, "one": 1, "two": 2, "few": r.randrange(3, 8), "some": r.randrange(8, 30), "many": r.randrange(30, 90)}[s["size"]]
    t = r.choice([0, rand_t(r) >> 1, r.getrandbits(40), (1 << 53) + r.getrandbits(40)])
    ts = []
    for _ in range(n):
        g = {"zero": lambda: 0, "unit": lambda: r.randrange(0, 3), "small": lambda: r.randrange(1, 1 << 20),
             "eighth": lambda: r.randrange(EIGHTH // 3, EIGHTH), "hours": lambda: r.randrange(1 << 45, 1 << 48),
             "mixed": lambda: r.getrandbits(r.randrange(1, 48)),
             "onbound": lambda: 0}[s["gap"]]()
        t = min(TSM, t + g)
        if s["gap"] == "onbound":
            t = min(TSM, ((t // EIGHTH) + r.randrange(2)) * EIGHTH + r.choice([0, 0, 0, 1, -1 if t >= EIGHTH else 0]))
        ts.append(t)
    ts.sort()
    ps = []
    for _ in range(n):
        ps.append({"any": lambda: r.randrange(16), "single": lambda: 1 << r.randrange(4),
                   "nonone": lambda: r.randrange(1, 16), "allnone": lambda: 0, "fixed": lambda: 5}[s["pats"]]())
    f = {"pat": -1, "mask": 0, "inv": 0, "lo": -1, "hi": -1}
    if s["flt"] != "off":
        f["pat"] = r.choice([r.randrange(16), 5, 1, 0])
        f["mask"] = int(s["flt"] in ("mask", "remove"))
        f["inv"] = int(s["flt"] in ("not", "remove"))
    kmid = [x // EIGHTH + r.randrange(2) for x in ts] or [3]
    tm = s["time"]
    if tm in ("lo", "both"):
        f["lo"] = r.choice(kmid)
    if tm in ("hi", "both"):
        f["hi"] = r.choice(kmid)
    if tm == "both" and f["lo"] > f["hi"]:
        f["lo"], f["hi"] = f["hi"], f["lo"]
    if tm == "equal":
        f["lo"] = f["hi"] = r.choice(kmid)
    if tm == "empty":
        f["lo"], f["hi"] = max(kmid) + 2, max(kmid) + 3 + r.randrange(3)
    if tm == "all":
        f["lo"], f["hi"] = 0, 600000
    if tm == "onevent":
        f["lo"] = min(kmid)
        f["hi"] = max(kmid)
    return list(zip(ts, ps)), f


def filter_args(r, f):
    a = []
    if f["pat"] >= 0:
        a += ["--pfilter-pattern", str(f["pat"])]
        if f["mask"]:
            a.append("--pfilter-mask")
        if f["inv"]:
            a.append("--pfilter-invert")
    if f["lo"] >= 0:
        a += ["--tfilter-start", repr(f["lo"] / 8)]
    if f["hi"] >= 0:
        a += ["--tfilter-end", repr(f["hi"] / 8)]
    return a


def convert_cmd(r, s):
    ev, f = use_case(r, s)
    data = file_bytes(s["A"], s["X"] and s["A"] == "1", ev, r)
    argv = ["-A" + s["A"]]
    if s["a"] != "1" or r.random() < 0.5:
        argv += ["-a" + s["a"]]
    argv += (["-X"] if s["X"] else []) + (["-x"] if s["x"] else [])
    if s["mem"]:
        argv.append("--inmemory")
    argv += filter_args(r, f)
    if r.random() < 0.8:
        argv.append("-q")
    r.shuffle  # keep the order of options: argparse does not mind
    files = {"in.dat": data.hex()}
    if r.random() < 0.4:
        files["out.dat"] = (b"old contents " * 40).hex()
    argv += ["in.dat", "out.dat"]
    return {"op": "cli_pt", "argv": argv, "files": files, "get": ["in.dat", "out.dat"], "s": s, "f": f, "n": len(ev)}


def build_convert(c, o):
    s = c["s"]
    data = c["files"]["in.dat"]
    ob = o["files"]["out.dat"]
    if ob is None and o["code"] == 0:
        return {"fail": "the conversion wrote no file"}
    ob = bytes.fromhex(ob or "")
    return {"kind": "convert", "window": 0, "fmt": s["A"], "legacy": s["X"], "ofmt": s["a"], "olegacy": s["x"] if s["a"] == "1" else 0,
            "bytes": list(bytes.fromhex(data)), "f": c["f"], "obytes": list(ob), "code": o["code"],
            "kept": int(o["files"]["in.dat"] == data), "extra": len(set(o["ls"]) - {"in.dat", "out.dat"}),
            "total": 0, "outtotal": 0}


def big_file_cases(ctx, n=250_000):
    """Files of several batches, seen through windows at the batch borders."""
    r = ctx.rng
    runs = []
    cmds = []
    meta = []
    step = r.randrange(3, 9) * 256 + r.randrange(256)
    t0 = r.getrandbits(52)
    ev = [(t0 + i * step, (i * 7 + i // 100_000) % 16) for i in range(n)]
    for fmt, legacy, ofmt, olegacy, mem in (("1", 0, "1", 1, 0), ("2", 0, "0", 0, 0), ("0", 0, "1", 0, 0), ("1", 1, "2", 0, 1)):
        if mem and not ctx.thorough():
            continue
        path = ctx.path("big")
        with open(path, "wb") as f:
            f.write(file_bytes(fmt, legacy, ev))
        out = path + ".out"
        argv = ["-A" + fmt, "-a" + ofmt, "-q"] + (["-X"] if legacy else []) + (["-x"] if olegacy else []) + (["--inmemory"] if mem else [])
        cmds.append({"op": "cli_pt", "argv": argv + [path, out], "files": {}, "get": [], "limit": 240})
        meta.append((path, out, fmt, legacy, ofmt, olegacy, n))
    reps = call_worker(ctx, cmds, shards=len(cmds))
    for (path, out, fmt, legacy, ofmt, olegacy, n), rep, c in zip(meta, reps, cmds):
        f = fail_of(rep, "converting a large file")
        run = {"fail": f, "kind": "none"}
        if not f:
            w = WIDTH[ofmt]
            data = open(out, "rb").read() if os.path.exists(out) else b""
            # windows: around every batch border, the ends, and random places
            idx = []
            for b in (0, 100_000, 200_000, n, r.randrange(n), r.randrange(n)):
                idx += [i for i in range(b - 12, b + 12) if 0 <= i < n]
            ob = b"".join(data[w * i:w * i + w] for i in idx)
            run = {"fail": "", "kind": "convert", "window": 1, "fmt": fmt, "legacy": legacy, "ofmt": ofmt, "olegacy": olegacy,
                   "e": evj([ev[i] for i in idx]), "f": {"pat": -1, "mask": 0, "inv": 0, "lo": -1, "hi": -1},
                   "obytes": list(ob), "code": rep["ok"]["code"],
                   "kept": int(os.path.getsize(path) == WIDTH[fmt] * n), "extra": 0,
                   "total": n, "outtotal": len(data) // w if len(data) % w == 0 else -1}
        for p in (path, out):
            if os.path.exists(p):
                os.unlink(p)
        run["_label"] = "large file"
        run["_replay"] = c
        runs.append(run)
    return runs


def border_cases(ctx, printing, n=202_000):
    """Filters that keep a few events on both sides of a batch border."""
    r = ctx.rng
    cmds, meta = [], []
    # event i at time i * g; g divides an eighth of a second
    per = r.choice([100, 125, 160, 200])
    g = EIGHTH // per
    off = r.randrange(1, g)
    ev = [(i * g + off, (i * 5 + i // 1000) % 16) for i in range(n)]
    path = {}
    for fmt in ("1", "2") if not ctx.thorough() else ("0", "1", "2"):
        path[fmt] = ctx.path("border")
        with open(path[fmt], "wb") as f:
            f.write(file_bytes(fmt, 0, ev))
    for border in (100_000, 200_000):
        for mem in (0, 1):
            for flt in ("off", "mask", "not"):
                fmt = r.choice(sorted(path))
                if mem and fmt != "1":
                    fmt = "1"
                k = border // per
                f = {"pat": -1, "mask": 0, "inv": 0, "lo": k, "hi": k + 1}
                if r.random() < 0.5:
                    f["lo"] -= 1
                if flt != "off":
                    f.update(pat=r.randrange(1, 16), mask=int(flt == "mask"), inv=int(flt == "not"))
                argv = ["-A" + fmt, "-q"] + (["--inmemory"] if mem else []) + filter_args(r, f)
                if printing:
                    cmds.append({"op": "cli_pt", "argv": argv + ["-p", path[fmt]], "files": {}, "get": [], "limit": 240})
                else:
                    cmds.append({"op": "cli_pt", "argv": argv + [path[fmt], "out"], "files": {}, "get": ["out"], "limit": 240})
                lo, hi = f["lo"] * per - 3, (f["hi"] + 1) * per + 3
                meta.append((fmt, f, [ev[i] for i in range(max(0, lo), min(n, hi))], path[fmt]))
    reps = call_worker(ctx, cmds, shards=NCPU)
    runs = large_runs([m[1:] for m in meta], reps, cmds, printing, "batch border")
    for p in path.values():
        os.unlink(p)
    return runs


def sparse_cases(ctx, printing):
    """Files of several batches of which any subset holds events that pass."""
    r = ctx.rng
    cmds, meta, paths = [], [], []
    for sub in range(8):
        for fmt, legacy, mem in [("1", r.randrange(2), 0)] + ([("1", 0, 1), (r.choice("02"), 0, 0)] if ctx.thorough() or sub in (1, 5) else []):
            n = r.choice([200_001, 250_000, 300_000, 200_000 + r.randrange(1, 99_999)])
            filler = r.choice([0, 1, 2])
            f = {"pat": -1, "mask": 0, "inv": 0, "lo": -1, "hi": -1}
            if filler == 0:
                f.update(pat=r.choice([4, 6]), mask=1)
            else:
                f.update(pat=filler, mask=r.randrange(2), inv=1)
            keep = set()
            for b in range(3):
                if sub >> b & 1:
                    lo, hi = b * 100_000, min(n, (b + 1) * 100_000)
                    keep |= set(r.sample([lo, hi - 1, lo + 1, r.randrange(lo, hi), r.randrange(lo, hi)], r.randrange(1, 4)))
            g = r.choice([EIGHTH // 100, 12345, EIGHTH // 7])
            t0 = r.choice([0, r.getrandbits(40)])
            arr = bytearray()
            win = []
            for i in range(n):
                p = r.choice([4, 6, 12]) if i in keep else filler
                if i in keep or i % 40_000 == 5:
                    win.append((t0 + i * g, p))
                arr += word_bytes(fmt, legacy, ((t0 + i * g) << 10) | p)
            path = ctx.path("sparse")
            with open(path, "wb") as h:
                h.write(arr)
            paths.append(path)
            argv = ["-A" + fmt, "-q"] + (["-X"] if legacy else []) + (["--inmemory"] if mem else []) + filter_args(r, f)
            if printing:
                cmds.append({"op": "cli_pt", "argv": argv + ["-p", path], "files": {}, "get": [], "limit": 240})
            else:
                cmds.append({"op": "cli_pt", "argv": argv + [path, "out"], "files": {}, "get": ["out"], "limit": 240})
            meta.append((f, win, path))
    reps = call_worker(ctx, cmds, shards=NCPU)
    runs = large_runs(meta, reps, cmds, printing, "sparse file")
    for p in paths:
        os.unlink(p)
    return runs


def large_runs(meta, reps, cmds, printing, label):
    runs = []
    for (f, win, p), rep, c in zip(meta, reps, cmds):
        fl = fail_of(rep, "filtering a large file")
        run = {"fail": fl, "kind": "none"}
        if not fl:
            o = rep["ok"]
            if printing:
                run = parse_report(o["out"], os.path.getsize(p))
                run.update({"kind": "stat", "window": 1, "e": evj(win), "f": f, "code": o["code"], "fail": ""})
            else:
                ob = bytes.fromhex(o["files"]["out"] or "")
                run = {"fail": "", "kind": "convert", "window": 1, "fmt": "1", "legacy": 0, "ofmt": "1", "olegacy": 0,
                       "e": evj(win), "f": f, "obytes": list(ob), "code": o["code"], "kept": 1,
                       "extra": len(set(o["ls"]) - {"out"}), "total": 0, "outtotal": 0}
        run["_label"] = label
        run["_replay"] = c
        runs.append(run)
    return runs


def check_C08(ctx):
    design_eventfile(ctx)
    r = ctx.rng
    cs = [convert_cmd(r, s) for s in generate(ctx, "GenEventFile", cfg_with("GenEventFile"), ctx.scale(400, 4000), 2)]
    # every pair of formats, word orders and both modes
    for A in "012":
        for a in "012":
            for X in (0, 1):
                for x in (0, 1):
                    for mem in (0, 1):
                        cs.append(convert_cmd(r, {"A": A, "a": a, "X": X, "x": x, "mem": mem, "size": "some", "gap": "mixed",
                                                  "pats": "any", "time": "off", "flt": r.choice(["off", "mask"])}))
    runs = run_cases(ctx, cs, "the conversion", build_convert)
    runs += big_file_cases(ctx)
    runs += border_cases(ctx, False)
    runs += sparse_cases(ctx, False)
    validate(ctx, "TraceEventFile", runs)
    ctx.notes["program_runs"] = len(runs)


LINES = {"total": r"^Total events\s*:\s*(\d+)\s*$", "ch1": r"^\s*Channel 1\s*:\s*(\d+)\s*$", "ch2": r"^\s*Channel 2\s*:\s*(\d+)\s*$",
         "ch3": r"^\s*Channel 3\s*:\s*(\d+)\s*$", "ch4": r"^\s*Channel 4\s*:\s*(\d+)\s*$",
         "mult": r"^\s*Multi-channel\s*:\s*(\d+)\s*$", "none": r"^\s*No channel\s*:\s*(\d+)\s*$"}


def parse_report(text, size=None):
    """The figures of a printed report."""
    r = {"parsed": 1, "total": -1, "ch": [0, 0, 0, 0], "mult": 0, "none": 0, "pats": [],
         "start": big(-1), "end": big(-1), "dur": big(-1), "hasrate": 0, "rate": big(0)}
    v = {}
    for k, rx in LINES.items():
        m = re.search(rx, text, re.M)
        if m:
            v[k] = int(m.group(1))
    if "total" not in v:
        r["parsed"] = 0
        return r
    r["total"] = v["total"]
    if v["total"] == 0:
        return r

    def ns(rx):
        m = re.search(rx, text, re.M)
        if not m:
            return None
        a, b = m.group(1).split(".")
        x = int(a.lstrip("-") + (b + "000000000")[:9])
        return -x if a.startswith("-") else x
    st, en, du = ns(r"~ start\s*:\s*(-?\d+\.\d+)"), ns(r"~ end\s*:\s*(-?\d+\.\d+)"), ns(r"^Duration \(s\)\s*:\s*(-?\d+\.\d+)")
    m = re.search(r"^Detection patterns:\s*\[(.*)\]", text, re.M)
    if None in (st, en, du) or m is None or any(k not in v for k in LINES):
        r["parsed"] = 0
        return r
    r.update(ch=[v["ch1"], v["ch2"], v["ch3"], v["ch4"]], mult=v["mult"], none=v["none"],
             start=big(st), end=big(en), dur=big(du), pats=[int(x) for x in re.findall(r"\b(\d+)\b", m.group(1))])
    m = re.search(r"^Event rate \(/s\)\s*:\s*(\d+)", text, re.M)
    if m:
        r.update(hasrate=1, rate=big(int(m.group(1))))
    return r


def stat_events(r, s):
    ev, f = use_case(r, s)
    # spans of zero, or well above the rounding of times
    for _ in range(50):
        kept = [t for t, p in ev if keeps(f, t, p)]
        if not kept or kept[-1] == kept[0] or kept[-1] - kept[0] > 4096:
            return ev, f
        ev, f = use_case(r, dict(s, gap="small"))
    return [], f


def keeps(f, t, p):
    """Only to steer the choice of inputs: the verdict is the specification's."""
    if f["pat"] >= 0:
        x = p & f["pat"]
        k = [[p == f["pat"], p != f["pat"]], [x != 0, p == 0 or p != x]][f["mask"]][f["inv"]]
        if not k:
            return False
    return (f["lo"] < 0 or t >= f["lo"] * EIGHTH) and (f["hi"] < 0 or t <= f["hi"] * EIGHTH)


def check_C09(ctx):
    design_eventfile(ctx)
    r = ctx.rng
    cs = []
    for s in generate(ctx, "GenEventFile", cfg_with("GenEventFile"), ctx.scale(350, 3500), 2):
        ev, f = stat_events(r, s)
        data = file_bytes(s["A"], s["X"] and s["A"] == "1", ev, r)
        argv = ["-A" + s["A"], "-p"] + (["-X"] if s["X"] else []) + (["--inmemory"] if s["mem"] else []) + filter_args(r, f)
        if r.random() < 0.8:
            argv.append("-q")
        cs.append({"op": "cli_pt", "argv": argv + ["in.dat"], "files": {"in.dat": data.hex()}, "get": ["in.dat"], "s": s, "f": f})

    def build(c, o):
        x = parse_report(o["out"])
        x.update(kind="stat", window=0, fmt=c["s"]["A"], legacy=c["s"]["X"], f=c["f"], code=o["code"],
                 bytes=list(bytes.fromhex(c["files"]["in.dat"])))
        return x
    runs = run_cases(ctx, cs, "printing statistics", build)
    # the functions, in every batch size
    off = {"pat": -1, "mask": 0, "inv": 0, "lo": -1, "hi": -1}
    fs = []
    for s in generate(ctx, "GenEventFile", cfg_with("GenEventFile"), ctx.scale(250, 2500), 2, seed=ctx.seed + 1000):
        s = dict(s, time="off", flt="off")
        ev, _ = stat_events(r, s)
        n = max(1, len(ev))
        stream = int(r.random() < 0.7)
        fs.append({"op": "stats", "fmt": s["A"], "legacy": s["X"], "stream": stream, "res": r.choice([1, 8, 256]), "frac": 1 if r.random() < 0.7 else 0,
                   "size": r.choice([1, 2, 3, n, n + 1, max(1, n - 1), r.randrange(1, n + 2)]),
                   "bytes": file_bytes(s["A"], s["X"] and s["A"] == "1", ev, r).hex()})
        if fs[-1]["res"] == 1:
            fs[-1]["frac"] = 1      # whole nanoseconds would lose the rate's precision
        if fs[-1]["res"] == 8 and fs[-1]["frac"] == 0:
            fs[-1]["res"] = 256

    def build2(c, o):
        x = parse_report(o)
        x.update(kind="stat", window=0, fmt=c["fmt"], legacy=c["legacy"], f=off, code=0, bytes=list(bytes.fromhex(c["bytes"])))
        return x
    runs += run_cases(ctx, fs, "printing statistics", build2)
    runs += border_cases(ctx, True)
    runs += sparse_cases(ctx, True)
    validate(ctx, "TraceEventFile", runs)
    ctx.notes["program_runs"] = len(runs)
