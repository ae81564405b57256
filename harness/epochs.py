"""Epoch files, directories and dates (C10-C15)."""
import os
import struct

from common import big, call_worker, cfg_with, chars, design, enumerate_states, generate, validate
from eventfile import fail_of

M32 = (1 << 32) - 1


def nums(xs):
    return [big(-1 if x is None else x) for x in xs]


def design_epochs(ctx, which):
    if which == "file":
        good = [("2 events", cfg_with("MCEpochFile"))]
        if ctx.thorough():
            good.append(("3 events", cfg_with("MCEpochFile", MaxN="3", Diffs="{0, 1, 3, 6}")))
            good.append(("all differences", cfg_with("MCEpochFile", Diffs="{0, 1, 2, 3, 4, 5, 6, 7}")))
        bad = [(d, cfg_with("MCEpochFile", MaxN="1", Defect=f'"{d}"')) for d in ("eofzero", "nocount", "nobase", "extone")]
        design(ctx, "MCEpochFile", good, bad)
    else:
        good = [("epochs 0..3", cfg_with("MCEpochDir", M="3"))]
        if ctx.thorough():
            good.append(("epochs 0..5", cfg_with("MCEpochDir", M="5")))
            good.append(("other periods", cfg_with("MCEpochDir", M="3", W="2", P="11", Q="20", U="13")))
        bad = [(d, cfg_with("MCEpochDir", M="4" if d == "nowrap" else "3", Defect=f'"{d}"'))
               for d in ("after", "size", "nowrap", "nearest", "truncdate")]
        design(ctx, "MCEpochDir", good, bad)


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
def t1_bytes(epoch, ev, length=None, end=True, rng=None, tag=0x101):
    """ev: (time within the epoch in 4 ps, pattern)."""
    out = struct.pack("<iIIii", tag, epoch, len(ev) if length is None else length, 49, 4)
    for t, p in ev:
        fl = rng.choice([0, 0, rng.randrange(64)]) if rng else 0
        w = ((((epoch & 0x1ffff) << 37) | t) << 10) | (fl << 4) | p
        out += struct.pack("<II", w >> 32, w & M32)
    return out + (b"\0" * 8 if end else b"")


def packed(width, bw, items, tb=0, pad=0):
    """items: (difference, escaped, base); the words of a T2/T4 body."""
    s = ""
    for d, x, p in items:
        s += format(0, f"0{width}b") + format(d, "032b") if x else format(d, f"0{width}b")
        if bw:
            s += format(p, f"0{bw}b")
    s += format(1, f"0{width}b")
    if bw:
        s += format(tb, f"0{bw}b")
    s += "0" * (-len(s) % 32)
    out = b""
    for i in range(0, len(s), 32):
        out += struct.pack("<I", int(s[i:i + 32], 2))
    return out + b"\0" * (4 * pad)


def t2_bytes(epoch, width, bw, items, length=None, tb=0, pad=0, tag=0x102):
    if (epoch << 32) + sum(x[0] for x in items) >= 1 << 64:
        epoch >>= 1             # times past the last epoch do not exist
    return struct.pack("<iIIiii", tag, epoch, len(items) if length is None else length, width, bw, 0) + packed(width, bw, items, tb, pad)


def t4_bytes(epoch, width, bw, items, length=None, tb=0, pad=0, tag=0x104):
    return struct.pack("<IIIII", tag, epoch, len(items) if length is None else length, width, bw) + packed(width, bw, items, tb, pad)


def pick_epoch(r, tok):
    return {"zero": lambda: 0, "low": lambda: r.randrange(1, 1 << 17), "wrap": lambda: r.randrange(1 << 15) << 17,
            "beforewrap": lambda: (r.randrange(1 << 15) << 17) | 0x1ffff, "max": lambda: M32,
            "any": lambda: r.getrandbits(32), "named": lambda: 0xba000000 + r.getrandbits(22)}[tok]()


def pick_diff(r, tok, width, kind):
    """(difference, escaped) for a token, as far as the width allows."""
    m = (1 << width) - 1
    esc = {"extzero": 0, "extone": 1, "exttwo": 2, "extmax": M32, "extbig": r.randrange(1 << 31, 1 << 32),
           "extsmall": r.randrange(0, 1 << min(31, width))}
    if tok in esc:
        return esc[tok], True
    if m < 2:
        return r.getrandbits(32), True
    v = {"two": 2, "max": m, "mid": r.randrange(2, m + 1), "min3": min(3, m)}[tok]
    return v, r.random() < 0.1


def pick_p(r, tok, bw):
    m = (1 << bw) - 1
    return {"zero": 0, "ones": m, "one": min(1, m), "any": r.randrange(m + 1)}[tok]


def sched_file(r, s, ok=False):
    """Bytes of a generated file; with ok, one without anything wrong."""
    c, l = s["c"], s["l"]
    ep = pick_epoch(r, c["epoch"])
    n = len(l)
    ann = {"right": n, "none": 0, "fewer": max(1, n - 1), "more": n + 1 + r.randrange(3), "zeroed": r.getrandbits(32)}[c["ann"]]
    if ok:
        ann = n if c["ann"] != "none" else 0
    tag = int(c["k"][1]) + (0x100 if r.random() < 0.8 else 0)
    if c["k"] == "T1":
        ev = []
        for x in l:
            t = {"extzero": 0, "extone": 1, "exttwo": 31, "extmax": (1 << 37) - 1, "two": 32, "max": (1 << 37) - 1}.get(x["d"])
            t = r.getrandbits(37) if t is None else t
            p = pick_p(r, x["p"], 4)
            if ep & 0x1ffff == 0 and t == 0 and p == 0:
                p = 8        # an all-zero event is the terminator
            ev.append((t, p))
        return t1_bytes(ep, ev, ann, rng=r, tag=tag) + (b"\0" * 8 * c["pad"])
    w, bw = c["width"], c["bw"]
    if w + bw > 32:
        bw = 32 - w
    items = []
    for x in l:
        d, esc = pick_diff(r, x["d"], w, c["k"])
        items.append((d, esc, pick_p(r, x["p"], bw)))
    tb = 0
    if not ok and bw:
        tb = {"zero": 0, "zero2": 0, "one": 1, "high": 1 << (bw - 1)}[c["tb"]]
    return (t2_bytes if c["k"] == "T2" else t4_bytes)(ep, w, bw, items, ann, tb, c["pad"], tag)


def read_runs(ctx, cmds):
    """Reads of given bytes as trace records; an exception is an outcome."""
    runs = []
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": "read", "fail": "", "k": c["kind"], "full": c["full"], "res": c["res"], "frac": c["frac"],
               "bytes": list(bytes.fromhex(c["bytes"])), "err": 0, "t": [], "p": []}
        if "err" in rep:
            run["err"] = 1
        elif "ok" not in rep:
            run["fail"] = fail_of(rep, "reading an epoch file")
        else:
            try:
                run["t"], run["p"] = nums(rep["ok"]["t"]), rep["ok"]["p"]
            except (KeyError, TypeError):
                run["fail"] = "reading an epoch file returned something unusable"
        run["_label"] = "reading " + c["kind"]
        run["_replay"] = c
        runs.append(run)
    return runs


def name_of(data):
    return "%x" % struct.unpack("<I", data[4:8])[0]


def rd(kind, data, full=0, res=1, frac=1, name=None):
    return {"op": "epoch", "kind": kind, "name": name or (name_of(data) if len(data) >= 8 else "ba000000"),
            "bytes": data.hex(), "full": full, "res": res, "frac": frac, "limit": 30}


def modes(r, full=True):
    return [(f, res, fr) for f in ((0, 1) if full else (0,)) for res in (1, 8, 256) for fr in (0, 1)]


def check_C10(ctx):
    design_epochs(ctx, "file")
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(120, 1200)):
        ep = pick_epoch(r, r.choice(["zero", "low", "wrap", "beforewrap", "max", "any", "named"]))
        n = r.choice([0, 1, 1, 2, 3, 8, 25])
        t = sorted(r.choice([0, 1, 31, 32, 255, 256, (1 << 37) - 1, r.getrandbits(37), r.getrandbits(20)]) for _ in range(n))
        if r.random() < 0.3:
            r.shuffle(t)
        p = [r.randrange(16) for _ in t]
        if r.random() < 0.3:
            p = r.randrange(16)
        if ep & 0x1ffff == 0 and any(x == 0 and (p if isinstance(p, int) else p[j]) == 0 for j, x in enumerate(t)):
            p = 5
        cmds.append({"op": "wt1", "dir": "d", "epoch": ep, "t": t, "p": p, "how": r.choice(["uint", "int", "float", "list"]),
                     "phow": r.choice(["u4", "i8", "list"])})
    runs, reads = [], []
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": "write", "fail": fail_of(rep, "writing a T1 file"), "_label": "writing T1", "_replay": c}
        if not run["fail"]:
            o = rep["ok"]
            name = o["ls"][0] if o["ls"] else ""
            b = bytes.fromhex(o["files"].get("d/" + name) or "")
            p = c["p"] if isinstance(c["p"], list) else [c["p"]] * len(c["t"])
            run.update(files=len(o["ls"]), name=chars(name), epoch=big(c["epoch"]), bytes=list(b),
                       e=[{"t": big(x), "p": y} for x, y in zip(c["t"], p)])
            for m in r.sample(modes(r), ctx.scale(5, 12)):
                reads.append(rd("T1", b, *m, name=name))
        runs.append(run)
    # files with flag bits, of any header, in every mode
    for s in generate(ctx, "GenEpochFile", cfg_with("GenEpochFile"), ctx.scale(250, 2500), 13):
        if s["c"]["k"] == "T1":
            b = sched_file(r, s, ok=True)
            for m in r.sample(modes(r), ctx.scale(4, 12)):
                reads.append(rd("T1", b, *m))
    runs += read_runs(ctx, reads)
    validate(ctx, "TraceEpochFile", runs)
    ctx.notes["calls"] = len(runs)


def check_C11(ctx):
    design_epochs(ctx, "file")
    r = ctx.rng
    reads = []
    for s in generate(ctx, "GenEpochFile", cfg_with("GenEpochFile", MaxN="14"), ctx.scale(700, 6000), 18):
        k = s["c"]["k"]
        if k == "T1":
            continue
        b = sched_file(r, s, ok=True)
        if k == "T2":
            for m in r.sample(modes(r), ctx.scale(2, 12)):
                reads.append(rd(k, b, *m))
        else:
            reads.append(rd(k, b))
    # every pair of widths
    for width in range(1, 32):
        for bw in range(0, 9):
            if width + bw > 32 or (not ctx.thorough() and r.random() < 0.4):
                continue
            for k in ("T2", "T4"):
                items = []
                for _ in range(r.randrange(1, 12)):
                    d, x = pick_diff(r, r.choice(["extzero", "extone", "exttwo", "extmax", "extbig", "extsmall", "two", "max", "mid", "min3"]), width, k)
                    items.append((d, x, r.randrange(1 << bw)))
                ep = pick_epoch(r, r.choice(["zero", "wrap", "beforewrap", "max", "any", "named"]))
                b = (t2_bytes if k == "T2" else t4_bytes)(ep, width, bw, items)
                reads.append(rd(k, b, *(r.choice(modes(r)) if k == "T2" else (0, 1, 1))))
    runs = read_runs(ctx, reads)
    validate(ctx, "TraceEpochFile", runs)
    ctx.notes["calls"] = len(runs)


def t3_bytes(epoch, entries, length=None, tag=0x103, extra=0):
    b = bytes(entries) + b"\0" * (-len(entries) % 4 + 4 * extra)
    return struct.pack("<iIIi", tag, epoch, len(entries) if length is None else length, 8) + \
        b"".join(b[i:i + 4][::-1] for i in range(0, len(b), 4))


def check_C12(ctx):
    design_epochs(ctx, "file")
    r = ctx.rng
    files = []
    perm = list(range(256))
    for _ in range(4):
        r.shuffle(perm)
        files.append(t3_bytes(0xba000000, perm))
    for v in range(256):                    # every entry by itself
        files.append(t3_bytes(r.getrandbits(32), [v]))
    single = [1, 2, 4, 8]
    for _ in range(ctx.scale(250, 2500)):
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, r.randrange(9, 120)])
        kind = r.random()
        e = [r.choice(single) * 16 + r.choice(single) if kind < 0.6 else r.randrange(256) for _ in range(n)]
        if kind > 0.85:
            e = [r.choice([0x11, 0x12, 0x14, 0x18, 0x24, 0, 0x10]) for _ in range(n)]
        if n and r.random() < 0.3:
            e[-1] = 0
        b = t3_bytes(r.getrandbits(32), e, extra=r.choice([0, 0, 0, 1]))
        files.append(b)
        if r.random() < 0.15:
            files.append(b[:r.randrange(16, len(b) + 1)])
    cmds = [dict(rd("T3", b)) for b in files]
    runs = []
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": "T3", "fail": "", "err": 0, "bytes": list(bytes.fromhex(c["bytes"])), "_label": "reading T3", "_replay": c}
        if "err" in rep:
            run["err"] = 1
        elif "ok" not in rep:
            run["fail"] = fail_of(rep, "reading a T3 file")
        else:
            run.update({k: rep["ok"][k] for k in ("m", "g", "ok", "q1000", "qexact")})
        runs.append(run)
    validate(ctx, "TraceEpochFile", runs)
    ctx.notes["calls"] = len(runs)


def check_C13(ctx):
    design_epochs(ctx, "file")
    r = ctx.rng
    reads = []
    whole = 0
    for s in generate(ctx, "GenEpochFile", cfg_with("GenEpochFile", MaxN="7"), ctx.scale(500, 5000), 11):
        k = s["c"]["k"]
        full, res, frac = r.choice(modes(r))
        b = sched_file(r, s)
        reads.append(rd(k, b, full, res, frac))
        # every way to cut a file short
        g = sched_file(r, s, ok=True)
        if whole < ctx.scale(36, 400):
            whole += 1
            for i in range(len(g) + 1):
                reads.append(rd(k, g[:i], full, res, frac, name=name_of(g)))
        else:
            for i in {r.randrange(len(g)), len(g) - 4, len(g) - 8}:
                reads.append(rd(k, g[:max(0, i)], full, res, frac, name=name_of(g)))
        # announced counts next to the true one
        n = len(s["l"])
        h = bytearray(g)
        h[8:12] = struct.pack("<I", r.choice([n + 1, max(0, n - 1), n + 256, n + (1 << 16), n + (1 << 24), M32]))
        reads.append(rd(k, bytes(h), full, res, frac))
    runs = read_runs(ctx, reads)
    validate(ctx, "TraceEpochFile", runs)
    ctx.notes["calls"] = len(runs)
    ctx.notes["files_cut_at_every_byte"] = whole


def check_C14(ctx):
    design_epochs(ctx, "dir")
    r = ctx.rng
    runs = []
    cmds = []
    for _ in range(ctx.scale(250, 2500)):
        base = r.choice([0xba000000, (r.randrange(1, 1 << 14) << 17) - 4, r.randrange(1, 1 << 31), 1, 250, 0xfff8, 0xfffffff8])
        size = 7 if base == 0xfffffff8 else r.randrange(1, 14)
        style = r.random()
        if style < 0.4:
            a = [x for x in range(size) if r.random() < 0.75]
            b = [x for x in range(size) if r.random() < 0.75]
        elif style < 0.8:
            a = list(range(r.randrange(size), size))
            b = list(range(0, r.randrange(size) + 1))
            for s in (a, b):
                if len(s) > 2 and r.random() < 0.6:
                    s.remove(r.choice(s))
        else:
            a, b = list(range(0, size // 2)), list(range(size // 2, size))
        first = None if r.random() < 0.4 else r.randrange(size)
        cmds.append({"op": "overlap", "a": [base + x for x in a], "b": [base + x for x in b],
                     "first": None if first is None else base + first, "base": base})
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": "overlap", "fail": fail_of(rep, "finding overlapping epochs"), "_label": "overlap", "_replay": c}
        if not run["fail"]:
            o = rep["ok"]
            e = -1 if o["e"] is None else o["e"] - c["base"]
            run.update(a=[x - c["base"] for x in c["a"]], b=[x - c["base"] for x in c["b"]],
                       first=-1 if c["first"] is None else c["first"] - c["base"],
                       e=max(-2, min(e, 1 << 20)), n=o["k"], same=o["same"])
        runs.append(run)
    cmds = []
    for _ in range(ctx.scale(220, 2000)):
        kind = r.choice(["T1", "T2"])
        w = r.randrange(1, 1 << 15) << 17
        base = r.choice([w - 1, w - 2, w - 3, w, w + 5, r.randrange(1 << 28, M32 - 20), 0xba000000])
        skip, num = r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 1, 2, 3, 4])
        files = []
        for i in range(skip + num + 1):
            n = r.choice([0, 1, 2, 5])
            ep = base + i
            if kind == "T1":
                t = sorted(r.choice([1, (1 << 37) - 1, r.getrandbits(37)]) for _ in range(n))
                files.append(t1_bytes(ep, [(x, r.randrange(1, 16)) for x in t]))
            else:
                width = r.choice([8, 16, 20])
                t = sorted(r.choice([0, M32, r.getrandbits(32)]) for _ in range(n))
                items, prev = [], 0
                for x in t:
                    d = x - prev
                    prev = x
                    items.append((d, d < 2 or d >= 1 << width or r.random() < 0.1, r.randrange(16)))
                files.append(t2_bytes(ep, width, 4, items))
        fs = {"e/%x" % (base + i): f.hex() for i, f in enumerate(files)}
        missing = 0
        if num and r.random() < 0.15:
            missing = 1
            j = base + skip + r.randrange(num)
            if r.random() < 0.5:
                del fs["e/%x" % j]
            else:
                fs["e/%x" % j] = fs["e/%x" % j][:-8 if kind == "T2" else -16]
        if not any(fs):
            fs["e/0"] = ""
        cmds.append({"op": "gett", "files": fs, "dir": "e", "kind": kind, "first": base, "skip": skip, "num": num,
                     "_f": [list(f) for f in files[skip:skip + num]], "_m": missing})
    sent = [{k: v for k, v in c.items() if k[0] != "_"} for c in cmds]
    for c, rep in zip(cmds, call_worker(ctx, sent)):
        run = {"kind": "concat", "fail": "", "k": c["kind"], "files": c["_f"], "missing": c["_m"], "err": 0, "t": [],
               "_label": "reading epochs", "_replay": {k: v for k, v in c.items() if k[0] != "_"}}
        if "err" in rep:
            run["err"] = 1
        elif "ok" not in rep:
            run["fail"] = fail_of(rep, "reading epochs")
        else:
            run["t"] = nums(rep["ok"]["t"])
        runs.append(run)
    validate(ctx, "TraceEpochFile", runs)
    ctx.notes["calls"] = len(runs)


INV = pow(1048576, -1, 1953125)


def check_C15(ctx):
    design_epochs(ctx, "dir")
    r = ctx.rng
    cmds = [{"op": "epochs", "now": 1}]
    for _ in range(ctx.scale(300, 4000)):
        e = r.choice([r.getrandbits(32), r.randrange(0xb0000000, 0xd0000000), r.randrange(1, 1 << 28), M32, 1, 0,
                      # epochs that start just after, at, or just before a whole second
                      (INV * r.choice([1, 2, 3, -1, -2, 0]) % 1953125 + 1953125 * r.randrange(2198)) % (1 << 32)])
        s = ((e << 32) + r.choice([0, 8_000_000_000 - 1])) // 8_000_000_000
        sec = max(0, s + r.choice([0, 0, 0, 1, -1, 2])) if r.random() < 0.7 else r.randrange(0, 1 << 31)
        cmds.append({"op": "epochs", "epoch": e, "pad": r.randrange(2), "sec": min(sec, 2305843008),
                     "us": r.choice([0, 0, 1, 499999, 500000, 999999, r.randrange(10 ** 6)])})
    runs = []
    old = os.environ.get("VERIF_TZ")
    for tz in ("UTC", "XXX-8", "YYY+9:30"):
        os.environ["VERIF_TZ"] = tz
        for c, rep in zip(cmds, call_worker(ctx, cmds)):
            run = {"kind": "date", "fail": fail_of(rep, "converting an epoch or a date"), "_label": "dates " + tz, "_replay": c}
            if not run["fail"]:
                o = rep["ok"]
                sec = c.get("sec", o.get("sec"))
                run.update(hassec=int("name" in o), name=chars(str(o.get("name", ""))), sec=big(sec),
                           hasepoch=int("epoch" in c))
                if "epoch" in c:
                    run.update(epoch=big(c["epoch"]), us=big(o["us"]), int=big(o["int"]), back=big(o["back"]),
                               back16=big(o["back16"]), next=big(o["next"]))
            runs.append(run)
    if old is None:
        del os.environ["VERIF_TZ"]
    else:
        os.environ["VERIF_TZ"] = old
    validate(ctx, "TraceEpochFile", runs)
    ctx.notes["calls"] = len(runs)


# --------------------------------------------------------------------------
# headers
# --------------------------------------------------------------------------
def header_case(r, c):
    """Bytes, file name and directory for one choice of GenHeader."""
    k = int(c["kind"][1])
    ep = r.choice([r.getrandbits(32), r.getrandbits(32) | 1 << 31, r.getrandbits(32) | 1 << 31, r.getrandbits(28), r.getrandbits(12), r.choice([0, 1, 16, M32, 1 << 31, 0x10000000, 0xabcdef01])])
    tag = {"short": k, "long": 0x100 + k, "kin": 0x100 + r.choice([x for x in (1, 2, 3, 4) if x != k]), "zero": 0, "high": (1 << 16) + k,
           "neg": 0xffffff00 + k if r.random() < 0.5 else 0x80000100 + k, "swapped": r.choice([k << 24, (0x100 + k) << 16, 0x200 + k, 0x1000 + k])}[c["tag"]]
    w = r.randrange(10, 20)
    n = r.randrange(1, 9)
    items = [(r.randrange(2, 1 << 9), False, r.randrange(1, 16)) for _ in range(n)]
    if k == 1:
        b = t1_bytes(ep, sorted((r.randrange(1 << 36), r.randrange(1, 16)) for _ in range(n)))
    elif k == 2:
        b = t2_bytes(ep, w, 4, items)
    elif k == 3:
        b = t3_bytes(ep, [r.randrange(1, 256) for _ in range(n)])
    else:
        b = t4_bytes(ep, w, 4, items)
    b = bytearray(b)
    b[0:4] = struct.pack("<I", tag)
    b[4:8] = struct.pack("<I", ep)
    size = {"own": n, "less": n - 1, "more": n + 1, "none": 0, "cut": n}[c["size"]]
    if c["size"] == "more" and not c["whole"] and r.random() < 0.5:
        size = r.randrange(1 << 31, 1 << 32)
    b[8:12] = struct.pack("<I", size)
    if k == 3 and r.random() < 0.3:
        b[12:16] = struct.pack("<I", r.choice([0, 7, 9, 16, 0x80000008, 0x10008]))
    if not c["whole"]:
        # any values, they are only told
        for i in range(12, {1: 20, 2: 24, 3: 16, 4: 20}[k], 4):
            if r.random() < 0.5:
                b[i:i + 4] = struct.pack("<I", r.choice([r.getrandbits(32), r.getrandbits(8), M32]))
    own = "%x" % ep
    name = {"own": own, "next": "%x" % ((ep + r.choice([1, -1, 1 << 8, 1 << 16, 1 << 31])) & M32), "upper": own.upper(), "zero": own.zfill(r.choice([8, 9])),
            "cut": own[:-1] or "0", "longer": own + r.choice("0f"), "prefixed": "0x" + own, "dir": own}[c["name"]]
    if c["size"] == "cut":
        b = b[:r.randrange(0, {1: 20, 2: 24, 3: 16, 4: 20}[k])]
    return {"op": "header", "kind": c["kind"], "whole": c["whole"], "bytes": bytes(b).hex(), "name": name,
            "dir": r.choice([own, "%x" % (ep ^ 1), "x"]) if c["name"] == "dir" or r.random() < 0.3 else "", "limit": 30}


def check_C30(ctx):
    design(ctx, "MCHeader", [("base 3", cfg_with("MCHeader"))] + ([("base 4", cfg_with("MCHeader", B="4"))] if ctx.thorough() else []),
           [(d, cfg_with("MCHeader", Defect=f'"{d}"')) for d in ("prefix", "value", "padded")])
    cases = sorted(enumerate_states(ctx, "GenHeader", cfg_with("GenHeader")), key=str)
    cmds = [header_case(ctx.rng, c) for c in cases for _ in range(ctx.scale(1, 8))]
    runs = []
    for c, rep in zip(cmds, call_worker(ctx, cmds)):
        run = {"kind": c["kind"], "whole": c["whole"], "fail": "", "err": 0, "bytes": list(bytes.fromhex(c["bytes"])), "name": chars(c["name"]),
               "fields": [], "told": 0, "_label": "reading a header", "_replay": c}
        if "ok" in rep:
            run.update({k: rep["ok"][k] for k in ("err", "told", "fields", "fail")})
        else:
            run["fail"] = fail_of(rep, "reading a header")
        runs.append(run)
    validate(ctx, "TraceHeader", runs)
    ctx.notes["calls"] = len(runs)
