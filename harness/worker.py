"""Runs commands against the code under test (in its own interpreter).

usage: worker.py COMMANDS.json REPLIES.ndjson

Replies carry plain integers; times are reported multiplied by 256, exactly
(null where that is not an integer).
"""
import ast
import contextlib
import gc
import importlib
import inspect
import io
import json
import logging
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback
import weakref
import zlib

import numpy as np

LIMIT = 60


def die(msg):
    sys.stderr.write(msg)
    sys.exit(3)


try:
    import fpfind
    from fpfind import TSRES
    PT = importlib.import_module("fpfind.lib.parse_timestamps")
    PE = importlib.import_module("fpfind.lib.parse_epochs")
    UT = importlib.import_module("fpfind.lib.utils")
    FP = importlib.import_module("fpfind.fpfind")
    TG = importlib.import_module("fpfind.lib.generate_freqcd_testcase")
except Exception:
    die(traceback.format_exc())

RES = {1: TSRES.NS1, 8: TSRES.PS125, 256: TSRES.PS4}
FMT = "012"


def x256(v, k=256):
    """v * k as an exact integer, or None."""
    if isinstance(v, (int, np.integer)):
        return int(v) * k
    if isinstance(v, float):
        v = np.longdouble(v)
    m = v * k          # exact: a power of two
    if not np.isfinite(m):
        return None
    f = np.floor(m)
    if f != m:
        return None
    # exact conversion of a longdouble, in two halves
    hi = np.floor(f / np.longdouble(2) ** 32)
    lo = f - hi * np.longdouble(2) ** 32
    return int(float(hi)) * (1 << 32) + int(float(lo))


def arr256(a, k=256):
    return [x256(v, k) for v in a]


def ints(a):
    return [int(v) for v in a]


def ld(n, k=256):
    """n / k as a longdouble, exactly (n < 2^64)."""
    n = int(n)
    neg = n < 0
    n = abs(n)
    v = np.longdouble(n >> 32) * np.longdouble(2) ** 32 + np.longdouble(n & 0xffffffff)
    v = v / np.longdouble(k)
    return -v if neg else v


def ldarr(ns, k=256):
    a = np.zeros(len(ns), dtype=np.longdouble)
    for i, n in enumerate(ns):
        a[i] = ld(n, k)
    return a


def put(files):
    for n, h in files.items():
        os.makedirs(os.path.dirname(n) or ".", exist_ok=True)
        with open(n, "wb") as f:
            f.write(bytes.fromhex(h))


def get(names):
    out = {}
    for n in names:
        try:
            with open(n, "rb") as f:
                out[n] = f.read().hex()
        except OSError:
            out[n] = None
    return out


def cli(mod, argv, stdin=b""):
    """Runs a command line program's main(); returns status, stdout, error."""
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", write_through=True)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv = list(argv)
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding="utf-8")
    sys.stdout = out
    sys.stderr = io.StringIO()
    err = None
    code = 0
    try:
        mod.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        code = 1
        err = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    out.flush()
    return {"code": code, "out": out.buffer.getvalue().decode("utf-8", "replace"), "err": err}


def lean(c, f, args, opts):
    """Calls f with options (name, value, default) in place or by name, leaving out what is at its default."""
    how = zlib.crc32(json.dumps(c, sort_keys=True, default=str).encode()) % 3
    if how == 2:
        return f(*args, **{n: v for n, v, d in opts if v != d})
    if how == 1:
        while opts and opts[-1][1] == opts[-1][2]:
            opts = opts[:-1]
    return f(*args, *(v for _, v, _ in opts))


def reading(c, *more):
    return [("legacy", bool(c["legacy"]), False), ("resolution", RES[c["res"]], TSRES.NS1), ("fractional", bool(c["frac"]), True), *more]


def writing(c):
    return [("legacy", bool(c["legacy"]), False), ("resolution", RES[c["res"]], TSRES.NS1)]


# --------------------------------------------------------------------------
# timestamp files
# --------------------------------------------------------------------------
def mk_times(ts, res, how):
    """Times (units of 4ps) as the caller of a writer would hold them."""
    if how == "float":
        return ldarr(ts, 256 // res)
    if how == "uint":
        return np.array([t * res // 256 for t in ts], dtype=np.uint64)
    return [t * res // 256 for t in ts]       # plain list


def mk_pats(ps, how):
    return {"u4": lambda: np.array(ps, dtype=np.uint32), "i8": lambda: np.array(ps, dtype=np.int64),
            "list": lambda: list(ps)}[how]()


def op_write(c):
    t = mk_times(c["t"], c["res"], c["how"])
    p = mk_pats(c["p"], c["phow"])
    if c.get("batches"):
        sw = getattr(PT, "swrite_a" + c["fmt"])
        cuts = [0] + c["batches"] + [len(c["t"])]
        st = ((t[a:b], p[a:b]) for a, b in zip(cuts, cuts[1:]))
        lean(c, lambda *a, **k: sw(*a, display=False, **k), ["f", st, len(cuts) - 1], writing(c))
    else:
        lean(c, getattr(PT, "write_a" + c["fmt"]), ["f", t, p], writing(c))
    return get(["f"])["f"]


def op_read(c):
    put({"f": c["bytes"]})
    t, p = lean(c, getattr(PT, "read_a" + c["fmt"]), ["f"], reading(c))
    return {"t": arr256(t), "p": ints(p)}


def op_sread(c):
    put({"f": c["bytes"]})
    st, nb = lean(c, getattr(PT, "sread_a" + c["fmt"]), ["f"], reading(c, ("buffer_size", c["size"], 0)))
    return {"n": int(nb), "b": [{"t": arr256(t), "p": ints(p)} for t, p in st]}


def op_pmask(c):
    p = mk_pats(c["p"], c["phow"])
    m, q = lean(c, PT.get_pattern_mask, [p, c["pattern"]], [("mask", bool(c["mask"]), False), ("invert", bool(c["invert"]), False)])
    return {"m": [int(bool(x)) for x in m], "q": ints(q), "same": int(ints(p) == c["p"])}


def op_tmask(c):
    t = mk_times(c["t"], c["res"], c["how"])
    before = arr256(t)
    kw = {}
    for k in ("start", "end"):
        if c[k] is not None:
            kw[k] = c[k] / 8 if c.get("asfloat", 1) else c[k] // 8
    if c["res"] != 1 or c.get("explicit"):
        kw["resolution"] = RES[c["res"]]
    m = PT.get_timing_mask(t, **kw)
    return {"m": [int(bool(x)) for x in m], "same": int(arr256(t) == before)}


def op_stats(c):
    put({"f": c["bytes"]})
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if c["stream"]:
            res = RES[c["res"]]
            st, nb = getattr(PT, "sread_a" + c["fmt"])("f", bool(c["legacy"]), res, bool(c["frac"]), c["size"])
            PT.print_statistics_stream("f", st, nb, resolution=res, display=False)
        else:
            t, p = getattr(PT, "read_a" + c["fmt"])("f", bool(c["legacy"]))
            PT.print_statistics("f", t, p)
    return out.getvalue()


def op_cli_pt(c):
    put(c["files"])
    r = cli(PT, ["parse_timestamps"] + c["argv"])
    r["files"] = get(c["get"])
    r["ls"] = sorted(os.listdir("."))
    return r


# --------------------------------------------------------------------------
# epoch files
# --------------------------------------------------------------------------
def op_wt1(c):
    os.makedirs(c["dir"], exist_ok=True)
    t, p = c["t"], c["p"]
    if c["how"] == "uint":
        t = np.array(t, dtype=np.uint64)
    elif c["how"] == "int":
        t = np.array(t, dtype=np.int64)
    elif c["how"] == "float":
        t = np.array(t, dtype=np.float64)
    if isinstance(p, list) and c["phow"] != "list":
        p = np.array(p, dtype=np.uint32 if c["phow"] == "u4" else np.int64)
    PE.write_T1(c["dir"], c["epoch"], t, p)
    return {"ls": sorted(os.listdir(c["dir"])), "files": get([os.path.join(c["dir"], n) for n in sorted(os.listdir(c["dir"]))])}


def op_epoch(c):
    """read_T1 / read_T2 / read_T4 / read_T3 on given bytes."""
    put({c["name"]: c["bytes"]})
    k = c["kind"]
    if k == "T3":
        s = PE.read_T3(c["name"])
        return {"m": ints(s.coinc_matrix), "g": ints(s.garbage), "ok": int(s.okcount), "q": repr(float(s.qber)),
                "q1000": int(round(float(s.qber) * 1000)), "qexact": int(abs(float(s.qber) * 1000 - round(float(s.qber) * 1000)) < 1e-6)}
    if k == "T4":
        t, p = PE.read_T4(c["name"])
        return {"t": ints(t), "p": ints(p)}
    f = PE.read_T1 if k == "T1" else PE.read_T2
    t, p = lean(c, f, [c["name"]], [("full_epoch", bool(c["full"]), False), ("resolution", RES[c["res"]], TSRES.NS1), ("fractional", bool(c["frac"]), True)])
    return {"t": arr256(t), "p": ints(p)}


def op_header(c):
    """A header or file read, and the number of warnings and errors it gave."""
    import logging
    told = []

    class Listen(logging.Handler):
        def emit(self, record):
            if record.levelno >= logging.WARNING and record not in told:
                told.append(record)
    ear = Listen()
    out = {"err": 0, "told": 0, "fields": [], "fail": ""}
    d = c["dir"]
    if d:
        os.mkdir(d)
    path = os.path.join(d, c["name"])
    with open(path, "wb") as f:
        f.write(bytes.fromhex(c["bytes"]))
    all_ = [logging.getLogger()] + [x for n, x in logging.Logger.manager.loggerDict.items() if n.startswith("fpfind") and isinstance(x, logging.Logger)]
    for x in all_:
        x.addHandler(ear)
    try:
        f = getattr(PE, ("read_%s" if c["whole"] else "read_%s_header") % c["kind"])
        try:
            h = f(path)
        except Exception:
            out["err"] = 1
        else:
            if not c["whole"]:
                for v in h:
                    if isinstance(v, bool) or int(v) != v or not -(1 << 31) <= v < 1 << 32:
                        out["fail"] = "a field is no number of 32 bits"
                        break
                    v = int(v)
                    out["fields"].append({"b": list((v & 0xffffffff).to_bytes(4, "little")), "neg": int(v < 0)})
    finally:
        for x in all_:
            x.removeHandler(ear)
    out["told"] = len(told)
    return out


def op_epochs(c):
    """Name, number and date conversions."""
    import datetime as dt
    import time
    r = {}
    if "now" in c:
        for _ in range(10):
            a = int(time.time())
            r["name"] = PE.date2epoch()
            if int(time.time()) == a:
                break
        r["sec"] = a
    if "sec" in c:
        r["name"] = PE.date2epoch(dt.datetime.fromtimestamp(c["sec"]) + dt.timedelta(microseconds=c.get("us", 0)))
    if "epoch" in c:
        n = "%x" % c["epoch"] if not c.get("pad") else "%08x" % c["epoch"]
        d = PE.epoch2date(n)
        # the zone has a fixed offset
        r["us"] = (d - dt.datetime.fromtimestamp(0)) // dt.timedelta(microseconds=1)
        r["int"] = int(PE.epoch2int(n))
        r["back"] = int(PE.epoch2int(PE.int2epoch(c["epoch"])))
        r["back16"] = int(PE.int2epoch(c["epoch"]), 16)
        d2 = d if d.microsecond == 0 else d.replace(microsecond=0) + dt.timedelta(seconds=1)
        r["next"] = int(PE.epoch2int(PE.date2epoch(d2)))
    return r


def op_overlap(c):
    for d in ("a", "b"):
        os.makedirs(d, exist_ok=True)
        for n in c[d]:
            with open(os.path.join(d, "%x" % n), "wb"):
                pass
    kw = {}
    if c["first"] is not None:
        kw["first_epoch"] = "%x" % c["first"]
    n, k = UT.get_first_overlapping_epoch("a", "b", return_length=True, **kw)
    n2 = UT.get_first_overlapping_epoch("a", "b", **kw)
    return {"e": None if n is None else int(n, 16), "k": int(k), "same": int(n == n2)}


def op_gett(c):
    put(c["files"])
    t = UT.get_timestamp(c["dir"], c["kind"], "%x" % c["first"], c["skip"], c["num"])
    return {"t": arr256(t)}


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def np_times(ts, how):
    """ts in units of 1/256 ns."""
    if how == "ld":
        return ldarr(ts)
    if how == "f8":
        return np.array([t / 256 for t in ts], dtype=np.float64)
    return np.array([t // 256 for t in ts], dtype=np.int64)


def op_norm(c):
    T = [np_times(t, c["how"]) for t in c["T"]]
    before = [arr256(t) for t in T]
    kw = {}
    if c["skip"] is not None:
        kw["skip"] = c["skip"] / 8
    if not c["rel"]:
        kw["preserve_relative"] = False
    out = UT.normalize_timestamps(*T, **kw)
    return {"o": [arr256(t) for t in out], "same": int([arr256(t) for t in T] == before)}


def op_slice(c):
    t = np_times(c["t"], c["how"])
    before = arr256(t)
    num = (lambda n: ldarr([n])[0]) if c["how"] == "ld" else (lambda n: n / 256)
    start = None if c["start"] is None else num(c["start"])
    dur = None if c["dur"] is None else num(c["dur"])
    o = UT.slice_timestamps(t, start, dur)
    return {"o": arr256(o), "same": int(arr256(t) == before)}


def op_xcorr(c):
    """Correlation and delay of two small event sets."""
    a, b = np_times(c["a"], c["how"]), np_times(c["b"], c["how"])
    N, r = c["bins"], c["res"] / 256
    if c["intres"]:
        r = c["res"] // 256
    af = UT.generate_fft(a, N, r)
    bf = UT.generate_fft(b, N, r)
    y = UT.get_xcorr(af, bf)
    xs = np.arange(N) * r
    d = UT.get_timing_delay_fft(y, xs)
    yi = [int(round(float(v))) for v in y]
    exact = int(all(abs(float(v) - w) < 1e-3 for v, w in zip(y, yi)))
    # the same on an integer histogram, so that ties have a defined peak
    return {"y": yi, "exact": exact, "d": arr256(d), "len": len(y)}


def op_delay(c):
    h = np.array(c["h"], dtype=np.float64)
    xs = np.arange(len(h)) * (c["res"] / 256)
    d = UT.get_timing_delay_fft(h, xs)
    k = [[x256(v) for v in UT.get_delay_at_index_fft(xs, int(p))] for p in range(len(h))]
    t = UT.get_top_k_delays_fft(h, xs, 1)[0]
    return {"d": arr256(d), "at": k, "top": arr256(t)}


def op_hist(c):
    a = np_times(c["a"], c["how"])
    f = UT.generate_fft(a, c["bins"], c["res"] / 256)
    import scipy
    y = scipy.fft.irfft(f, n=c["bins"])
    return [int(round(float(v))) for v in y]


# --------------------------------------------------------------------------
# fpfind
# --------------------------------------------------------------------------
def op_precomp(c):
    v = FP.generate_precompensations(c["start"], c["stop"], c["step"], **({"ordered": True} if c["ordered"] else {}))
    return [repr(float(x)) for x in v]


def op_cli_fp(c):
    put(c.get("files", {}))
    return cli(FP, ["fpfind"] + c["argv"])


# --------------------------------------------------------------------------
# simulated clocks
# --------------------------------------------------------------------------
def streams(c):
    """Event times of the two clocks in units of 1/256 ns after c["base"] ns.

    The target shows x + D + F (x - c0) when the reference shows x.
    """
    r = np.random.RandomState(c["seed"])
    D, F, z = c["D"] / 256, c["F"] / 2 ** 50, c["base"] - c["c0"] / 256
    span, n = c["span"], c["n"]
    m = abs(D) + abs(F) * (span + abs(z)) + 100
    total = span + 2 * m

    def uniform(share=1.0):
        u = r.rand(int(n * total / span * share)) * total - m
        if c.get("dense"):
            # most of the events lie between, a few elsewhere
            lo, hi = c["dense"]
            v = (lo - m) + r.rand(int(n * (hi - lo + 2 * m) / (hi - lo) * share)) * (hi - lo + 2 * m)
            u = np.concatenate([u[:c["thin"]], v])
        return np.sort(u)
    x = uniform()

    def side(shows, end):
        k = x[r.rand(len(x)) >= c["loss"]]
        if c.get("unrelated"):
            k = r.rand(len(k)) * total - m
        y = np.concatenate([k, uniform(c["noise"])])
        y = shows(y) + r.randn(len(y)) * c["jit"]
        g = c.get("grain", 1)
        y = np.floor(np.sort(y) * (256 / g)).astype(np.int64) * g
        return y[(y >= 0) & (y < end * 256)]
    a = side(lambda y: y, c.get("end_a", span))
    b = side(lambda y: y + F * (y + z) + D, c.get("end_b", span))
    return a, b


def raw_file(name, t, c, r):
    w = (t.astype(np.uint64) + np.uint64(c["base"] * 256 % (1 << 54))) << np.uint64(10)
    w |= np.uint64(1) << r.randint(0, 4, len(t)).astype(np.uint64)
    if c.get("legacy"):
        w = (w << np.uint64(32)) | (w >> np.uint64(32))
    w.astype("<u8").tofile(name)


def t1_file(dirname, e, t, r):
    w = (((t.astype(np.uint64) | (np.uint64(e & 0x1FFFF) << np.uint64(37)))) << np.uint64(10)) | (np.uint64(1) << r.randint(0, 4, len(t)).astype(np.uint64))
    w = (w << np.uint64(32)) | (w >> np.uint64(32))
    with open(os.path.join(dirname, "%08x" % e), "wb") as f:
        f.write(struct.pack("<iIIii", 0x101, e, len(t), 49, 4) + w.astype("<u8").tobytes() + bytes(8))


def t2_file(dirname, e, t, r, width):
    bits = []
    prev = 0
    for x, p in zip([int(v) >> 5 for v in t], r.randint(1, 16, len(t))):
        d = x - prev
        prev = x
        if d < 2 or d >> width:
            bits.append(format(0, "0%db" % width) + format(d, "032b"))
        else:
            bits.append(format(d, "0%db" % width))
        bits.append(format(p, "04b"))
    s = "".join(bits) + format(1, "0%db" % width) + "0000"
    s += "0" * (-len(s) % 32)
    body = b"".join(struct.pack("<I", int(s[i:i + 32], 2)) for i in range(0, len(s), 32))
    with open(os.path.join(dirname, "%08x" % e), "wb") as f:
        f.write(struct.pack("<iIIiii", 0x102, e, len(t), width, 4, 0) + body)


def epoch_dirs(a, b, c, r):
    hi, lo = divmod(c["base"] * 256, 1 << 37)
    for d, t, w in (("sd", a, lambda e, x: t2_file("sd", e, x, r, 17)), ("td", b, lambda e, x: t1_file("td", e, x, r))):
        os.makedirs(d, exist_ok=True)
        t = t + lo
        if len(t):
            for e in range(int(t[0]) >> 37, (int(t[-1]) >> 37) + 1):
                w(hi + e, t[(t >> 37) == e] - (e << 37))


def firsts(a, b, c):
    z = c["base"] * 256
    return {"fa": int(a[0]) + z if len(a) else None, "fb": int(b[0]) + z if len(b) else None}


def op_sim(c):
    """Files of simulated clocks, and runs of fpfind on them."""
    a, b = streams(c)
    r = np.random.RandomState(c["seed"] + 1)
    out = dict(firsts(a, b, c), na=len(a), nb=len(b), outs=[])
    raw_file("ref", a, c, r)
    raw_file("tgt", b, c, r)
    if c.get("dirs"):
        epoch_dirs(a, b, c, r)
        # raw files and first events of the epochs that are read
        z = c["base"] * 256
        e0 = (z + max(int(a[0]), int(b[0]))) >> 37
        out["e0"] = e0
        out["per"] = []
        for i, (e, k) in enumerate(c["dirs"]):      # (first epoch - e0, skipped)
            a1, b1 = (t[t >= ((e0 + e + k) << 37) - z] for t in (a, b))
            out["per"].append(firsts(a1, b1, c))
            raw_file("ref%d" % i, a1, c, r)
            raw_file("tgt%d" % i, b1, c, r)
        sub = lambda x: x.replace("@E", "") if "@E" not in x else "%08x" % (e0 + int(x.replace("@E", "")))
    else:
        sub = lambda x: x
    for n in c.get("remove", []):
        if os.path.isdir(n):
            shutil.rmtree(n)
        else:
            os.remove(n)
    for n, h in c.get("files", {}).items():
        put({n: h})
    before = get(["ref", "tgt"])
    for argv in c["runs"]:
        out["outs"].append(cli(FP, ["fpfind"] + [sub(x) for x in argv]))
    out["same"] = int(get(["ref", "tgt"]) == before)
    if c.get("direct"):
        out["direct"] = direct(a, b, c)
    return out


def direct(a, b, c):
    """The numbers behind the output: time in 2^-12 ns, frequency in 2^-50."""
    d = c["direct"]
    N = 1 << d["q"]
    try:
        x, y = UT.normalize_timestamps(*(np.array(t, dtype=np.longdouble) / 256 + c["base"] for t in (a, b)))
        dt, df = FP.fpfind(x, y, num_wraps=d["k"], num_bins=N, resolution=d["R"], target_resolution=d["r"],
                           threshold=6, separation_duration=d["sep"] * N * d["R"] * d["k"], precompensations=d["pre"])
        return [int(np.round(np.longdouble(dt) * 4096)), int(np.round(np.longdouble(df) * 2.0 ** 50))]
    except (TypeError, AttributeError, ValueError):
        return None




def op_loop(c):
    """fpfind, correction of a stream with freqcd, fpfind again."""
    a, b = streams(c)
    r = np.random.RandomState(c["seed"] + 1)
    raw_file("ref", a, c, r)
    raw_file("tgt", b, c, r)
    first = cli(FP, ["fpfind", "-t", "ref", "-T", "tgt", "-V", "3" if c["inv"] else "2"] + c["argv"])
    out = {"first": first, "second": None, "frq": None}
    word = first["out"].split("\t")[0].strip()
    if first["code"] == 0 and word:
        side = "tgt" if c["inv"] else "ref"
        p = subprocess.run([c["freqcd"]] + (["-x"] if c["legacy"] else []) + ["-f", word, "-i", side, "-o", "new"],
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        out["frq"] = p.returncode
        if p.returncode == 0:
            names = ["-t", "ref", "-T", "new"] if c["inv"] else ["-t", "new", "-T", "tgt"]
            out["second"] = cli(FP, ["fpfind"] + names + c["argv2"])
    return out


def op_scan(c):
    """fpfind() with single precompensations and with lists of them."""
    a, b = streams(c)
    a, b = UT.normalize_timestamps(*(np.array(t, dtype=np.longdouble) / 256 + c["base"] for t in (a, b)))
    N = 1 << c["q"]

    def one(pre, full):
        try:
            dt, df = FP.fpfind(a, b, num_wraps=1, num_bins=N, resolution=c["R"], target_resolution=c["r"],
                               threshold=c["S"], separation_duration=c["sep"] * N * c["R"],
                               precompensations=pre, precompensation_fullscan=full)
        except ValueError:
            return []
        return [repr(float(dt)), repr(float(df))]
    pre = [float(x) for x in c["pre"]]
    single = {x: one([x], False) for x in sorted(set(pre))}
    lists = []
    for order, full in c["lists"]:
        lists.append({"want": [single[pre[i]] for i in order], "got": one([pre[i] for i in order], bool(full))})
    return {"lists": lists, "single": [single[x] for x in pre]}


def op_peak(c):
    """Statistics of the highest bin of a histogram."""
    st = UT.get_statistics(np.array(c["h"], dtype=c["how"]), c["res"])
    s = st.significance
    return {"s": int(round(float(s) * 1000)), "max": int(st.max), "near": int(abs(float(s) * 1000 - round(float(s) * 1000)) < 1e-6)}


# --------------------------------------------------------------------------
# statistics
# --------------------------------------------------------------------------
def number(v, scale):
    return [0, 0] if v is None else [1, int(round(float(v) * scale))]


def stat_of(s):
    with np.errstate(all="ignore"):
        return {"sig": ints(s.signal), "bg": ints(s.background), "max": number(s.max, 10 ** 6), "mean": number(s.mean, 10 ** 6),
                "dev": number(s.stdev, 10 ** 6), "total": number(s.total, 10 ** 6), "g2": number(s.g2, 10 ** 6),
                "s": number(s.significance, 1000), "raw": number(s.significance_raw, 1000), "s2": number(s.significance2, 1000)}


def op_stat(c):
    h = np.array(c["h"], dtype=c["how"])
    before = h.tolist()
    u = c["unit"]
    kw = {} if c["plain"] else {"resolution": c["res"] * u, "window": c["w"] * u}
    if c["hasc"] and not c["plain"]:
        kw["center"] = c["c"] * u
    return dict(stat_of(UT.get_statistics(h, **kw)), same=int(h.tolist() == before))


def op_turn(c):
    h, t = UT.convert_histogram_fft(np.array(c["h"]), np.arange(len(c["h"])) * c["res"])
    return {"o": ints(h), "t": ints(t)}


def op_top(c):
    o = UT.get_top_k_delays_fft(np.array(c["h"]), np.arange(len(c["h"])) * c["res"], c["k"])
    return [ints(x) for x in o]


def op_corr(c):
    a, b = ldarr(c["a"]), ldarr(c["b"])
    ba, bb = arr256(a), arr256(b)
    kw = {"resolution": c["res"] / 256, "num_wraps": c["wraps"], "freq_corr": c["fn"] / c["fd"] - 1}
    if c["start"] is not None:
        kw["acq_start"] = c["start"] / 256
    if c["stats"]:
        kw.update(statistics=True, window=c["w"] / 256)
        if c["hasc"]:
            kw["center"] = c["c"] / 256
    m = 1
    if c["filter"]:
        kw["filter"] = np.full(c["n"] // 2 + 1, float(min(c["filter"], 2)))
        if c["filter"] == 3:              # no constant part; results times n
            kw["filter"] = np.ones(c["n"] // 2 + 1)
            kw["filter"][0] = 0
            m = c["n"]
    try:
        o = UT.histogram_fft(a, b, c["n"], **kw)
    except ValueError:
        return {"err": 1}
    yi = [int(round(m * float(v))) for v in o[0]]
    r = {"err": 0, "y": yi, "exact": int(len(yi) == c["n"] and all(abs(m * float(v) - w) < 1e-3 for v, w in zip(o[0], yi))),
         "t": arr256(o[1]), "same": int(arr256(a) == ba and arr256(b) == bb), "na": 0, "nb": 0, "sig": [], "bg": []}
    if c["stats"]:
        r["na"], r["nb"] = int(o[2]), int(o[3])
        r["sig"], r["bg"] = ([int(round(m * float(v))) for v in x] for x in (o[4].signal, o[4].background))
    return r


def op_slow(c):
    lib = os.path.dirname(PT.__file__)
    if lib not in sys.path:
        sys.path.append(lib)
    G2 = importlib.import_module("g2_two_timestamps")
    h = G2.g2(np.array(c["a"], dtype=c["how"]), np.array(c["b"], dtype=c["how"]), c["start"], c["dt"])
    return {"n": len(h), "o": [[int(k), int(h[k])] for k in np.nonzero(h)[0]]}


# --------------------------------------------------------------------------
# fpplot
# --------------------------------------------------------------------------
def plotter():
    """fpplot with stand-ins for the packages that are not part of it."""
    import types
    if "boiler" not in sys.modules:
        import configargparse
        import matplotlib
        matplotlib.use("Agg")
        b, bs, bl = (types.ModuleType(n) for n in ("boiler", "boiler.scriptutil", "boiler.logging"))
        bs.generate_default_parser = lambda doc=None, *a, **k: configargparse.ArgumentParser(description=None, add_help=False)
        bs.parse_args_or_help = lambda parser, *a, **k: parser.parse_args()
        bl.set_default_handlers = bl.set_logging_level = lambda *a, **k: None
        b.scriptutil, b.logging = bs, bl
        s, g, gg = (types.ModuleType(n) for n in ("S15lib", "S15lib.g2lib", "S15lib.g2lib.g2lib"))
        s.g2lib, g.g2lib = g, gg
        gg.histogram = None
        sys.modules.update({"boiler": b, "boiler.scriptutil": bs, "boiler.logging": bl,
                            "S15lib": s, "S15lib.g2lib": g, "S15lib.g2lib.g2lib": gg})
        gg.histogram = lambda *a, **k: plotter.histogram(*a, **k)
    return importlib.import_module("fpfind.fpplot")


def run_plot(argv):
    import matplotlib.pyplot as plt
    seen = []
    YS, XS = np.array([3, 1, 4, 1, 5]), np.array([-2., -1., 0., 1., 2.])

    def histogram(alice, bob, *a, **k):
        seen.append((np.array(alice), np.array(bob), k.get("duration", a[0] if a else None)))
        return YS, XS
    plotter.histogram = histogram
    M = plotter()
    old = sys.argv, plt.show, sys.stdout, sys.stderr
    sys.argv = ["fpplot"] + argv
    plt.show = lambda *a, **k: None
    plt.close("all")
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    code = 0
    try:
        M.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except Exception:
        code = 1
    finally:
        sys.argv, plt.show, sys.stdout, sys.stderr = old
    lines = [(list(l.get_xdata()), list(l.get_ydata())) for n in plt.get_fignums() for ax in plt.figure(n).axes for l in ax.get_lines()]
    plt.close("all")
    return code, seen, int(lines == [(list(XS), list(YS))])


def op_plot(c):
    r = np.random.RandomState(1)
    for d, side, kind in (("sd", "a", "T2"), ("td", "b", "T1")):
        if c["epochs"]:
            os.makedirs(d)
            for e in c["e" + side]:
                x = np.array([t - (e << 37) for t in c[side] if t >> 37 == e], dtype=np.int64)
                t2_file(d, e, x, r, 17) if kind == "T2" else t1_file(d, e, x, r)
        else:
            raw_file({"a": "ref", "b": "tgt"}[side], np.array(c[side], dtype=np.int64), dict(c, base=0), r)
    if c.get("text"):
        with open("my.conf", "w") as f:
            f.write(c["text"])
    code, seen, plotted = run_plot(c["argv"])
    o = {"code": 0 if code == 0 else 1, "calls": len(seen), "x": [], "y": [], "plotted": plotted, "width": None,
         "saved": int(not c["save"] or os.path.exists(c["save"]))}
    if seen:
        near = lambda a: [x256(np.round(v * 2.0 ** 20), 1) for v in np.asarray(a, dtype=np.longdouble)]
        o["x"], o["y"] = arr256(seen[0][0], 1 << 20), near(seen[0][1])
        o["width"] = x256(seen[0][2])
    return o


def op_plotloop(c):
    """fpfind, then fpplot with what it printed."""
    a, b = streams(c)
    r = np.random.RandomState(c["seed"] + 1)
    raw_file("ref", a, c, r)
    raw_file("tgt", b, c, r)
    first = cli(FP, ["fpfind", "-t", "ref", "-T", "tgt"] + c["argv"])
    out = {"first": first, "code": 1, "calls": 0, "d": []}
    try:
        f, t = first["out"].split()
    except ValueError:
        return out
    code, seen, _ = run_plot(["-t", "ref", "-T", "tgt", "--freq=" + repr(float(f) * 1e6), "--time=" + t] + (["-X"] if c.get("legacy") else []))
    out.update(code=0 if code == 0 else 1, calls=len(seen))
    if seen:
        x, y = (np.asarray(v, dtype=np.longdouble) for v in seen[0][:2])
        end = min(x[-1], y[-1]) if len(x) and len(y) else 0
        x = x[x < end]
        for i in r.choice(len(x), min(200, len(x)), replace=False) if len(x) else []:
            k = int(np.searchsorted(y, x[i]))
            d = min(abs(float(y[j] - x[i])) for j in (k - 1, k) if 0 <= j < len(y))
            out["d"].append([int(x[i]), int(d * 2 ** 20)])
    return out


# --------------------------------------------------------------------------
# the search that fpfind's options ask for
# --------------------------------------------------------------------------
class Watch:
    """Stands in for the search; records what it is asked for."""

    def __init__(self, dt, df):
        self.calls, self.ret = [], (dt, df)
        self.real = getattr(FP, "fpfind", None)
        self.sig = inspect.signature(self.real) if callable(self.real) else None

    def __call__(self, *args, **kw):
        b = self.sig.bind(*args, **kw)
        b.apply_defaults()
        self.calls.append(list(b.arguments.values()))
        return self.ret

    def run(self, argv, prog="fpfind"):
        self.calls = []
        if self.sig is not None:
            FP.fpfind = self
        try:
            o = cli(FP, [prog] + argv)
        finally:
            if self.sig is not None:
                FP.fpfind = self.real
        return o


def asked(w, o):
    d = {"code": 0 if o["code"] == 0 else 1, "called": len(w.calls), "out": o["out"], "err": o["err"], "seen": int(w.sig is not None)}
    if w.calls:
        a, b, wraps, bins, res, tgt, thr, sep, pre, full = w.calls[0][:10]
        whole = lambda v: x256(v, 1)
        d.update(a=arr256(a), b=arr256(b), wraps=whole(wraps), bins=whole(bins), res=whole(res), tgt=whole(tgt), thr=x256(thr, 16),
                 sep=x256(sep, 16), pre=[x256(np.round(np.longdouble(p) * 2 ** 60), 1) for p in pre], full=int(bool(full)))
    return d


def op_options(c):
    r = np.random.RandomState(1)
    for i, t in enumerate(c["ra"]):
        raw_file("r%d" % (i + 1), np.array(t, dtype=np.int64), {"base": 0, "legacy": c["legacy"]}, r)
    for i, t in enumerate(c["rb"]):
        raw_file("t%d" % (i + 1), np.array(t, dtype=np.int64), {"base": 0, "legacy": c["legacy"]}, r)
    for name, side, kind in (("s", "a", "T2"), ("d", "b", "T1")):
        for i, (es, ts) in enumerate(zip(c["e" + side], c["d" + side])):
            d = name + str(i + 1)
            os.makedirs(d)
            for e in es:
                x = np.array([t - (e << 37) for t in ts if t >> 37 == e], dtype=np.int64)
                t2_file(d, e, x, r, 17) if kind == "T2" else t1_file(d, e, x, r)
    for n, text in c["text"].items():
        with open(n, "w") as f:
            f.write(text)
    t, f, how = c.get("ret", (0, 0, "f8"))
    kind = {"f8": np.float64, "ld": np.longdouble, "py": float}[how]
    w = Watch(kind(t / 4096), kind(f / 2 ** 50))
    runs = []
    for argv in c["runs"]:
        runs.append(asked(w, w.run(argv, c.get("prog", "fpfind"))))
    return {"runs": runs}


def op_log(c):
    """fpfind in a process of its own, with its messages, and without."""
    a, b = streams(c)
    r = np.random.RandomState(c["seed"] + 1)
    raw_file("ref", a, c, r)
    raw_file("tgt", b, c, r)

    def go(argv):
        # main() as the installed command runs it
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.argv[0] = 'fpfind'; from fpfind.fpfind import main; main()"] + argv,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return {"code": p.returncode, "out": p.stdout, "err": p.stderr}
    if c["old"]:
        with open("log.txt", "w") as f:
            f.write("old contents\n")
    o = go(c["argv"] + ["-" + "v" * c["level"]] * (c["level"] > 0) + ["-L", "log.txt"])
    o["plain"] = go(c["argv"])
    # counts and ranges (us) of what it should read
    o["ev"] = {"n": [], "t": [], "z": int(c["skip"] * 1e6)}
    z = max(a[0], b[0]) / 256 + c["skip"] * 1e9
    for x in (a, b):
        x = x[x / 256 >= z] / 256 - z
        o["ev"]["n"].append(len(x))
        o["ev"]["t"] += [int(v / 1e3) for v in (x[0], x[-1])] if len(x) else [0, 0]
    # an error ends in a traceback after the messages
    o["err"] = o["err"].partition("Traceback (most recent call last)")[0]
    with open("log.txt") as f:
        o["log"] = f.read()
    return o


# --------------------------------------------------------------------------
# detuned test data
# --------------------------------------------------------------------------
def op_detune(c):
    """The script on a file, and calls of its function."""
    import runpy
    lib = os.path.dirname(PT.__file__)
    if lib not in sys.path:
        sys.path.append(lib)
    d = "Clock-sync/20221007_freqdetuneg2/"
    put({d + "singletimestampnodelay.a1.dat": c["input"]})
    code = 0
    g = {}
    try:
        g = runpy.run_path(os.path.join(lib, "generate_freqdetuneg2.py"), run_name="__main__")
    except Exception:
        code = 1
    names = [d + "c1_a2.dat"] + [d + "c4e%d.dat" % n for n in range(3, 11)]
    out = {"code": code, "files": [get([n])[n] if os.path.exists(n) else None for n in names], "calls": []}
    t, p = ldarr(c["t"]), np.array(c["p"], dtype=np.uint32)
    for k in c["calls"] if g else []:
        ot, op = g["detune"](t, p, k["ch"], *([k["ratio"]] if k["off"] is None else [k["ratio"], k["off"] / 256]))
        out["calls"].append({"ot": [x256(np.floor(v * 256), 1) for v in np.asarray(ot, dtype=np.longdouble)], "op": ints(op)})
    return out


class Typing(io.RawIOBase):
    """Standard input that gives one piece at a time and ends as told."""

    def __init__(self, pieces, end):
        self.pieces, self.end = list(pieces), end

    def readable(self):
        return True

    def readinto(self, b):
        while self.pieces and not self.pieces[0]:
            self.pieces.pop(0)
        if not self.pieces:
            if self.end == "interrupt":
                raise KeyboardInterrupt
            return 0
        n = min(len(b), len(self.pieces[0]))
        b[:n] = self.pieces[0][:n]
        self.pieces[0] = self.pieces[0][n:]
        return n


def op_testcase(c):
    """A session of the test case generator."""
    TG.LEGACY = False
    put(c["files"])
    before = {n: f for n, f in get(sorted(c["files"])).items() if n != c.get("o")}
    raw = io.BytesIO()
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv = ["generate_freqcd_testcase"] + c["argv"]
    sys.stdin = io.TextIOWrapper(io.BufferedReader(Typing([bytes.fromhex(x) for x in c["stdin"]], c["end"])), encoding="utf-8")
    sys.stdout = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
    sys.stderr = io.StringIO()
    code = 0
    try:
        TG.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except BaseException:
        code = 1
    finally:
        out = sys.stdout
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    out.flush()
    names = set()
    for d, _, fs in os.walk("."):
        names |= {os.path.relpath(os.path.join(d, f), ".") for f in fs}
    known = set(c["files"]) | ({c["o"]} if c.get("o") else set())
    return {"code": code, "out": raw.getvalue().hex(), "o": get([c["o"]])[c["o"]] if c.get("o") and os.path.exists(c["o"]) else None,
            "intact": int(all(n in names for n in before) and get(sorted(before)) == before), "left": len(names - known)}


# --------------------------------------------------------------------------
# streams
# --------------------------------------------------------------------------
def numbered(lo, hi, how="ld"):
    """Times (ns) and patterns of events that tell their number."""
    j = np.arange(lo, hi)
    t = (j.astype(np.longdouble) if how == "ld" else j.astype(np.float64)) * 37 + 0.5
    return t, 1 + j % 15


def numbered_file(name, fmt, n):
    j = np.arange(n, dtype=np.uint64)
    w = ((j * np.uint64(37 * 256) + np.uint64(128)) << np.uint64(10)) | (np.uint64(1) + j % np.uint64(15))
    if fmt == "1":
        w.astype("<u8").tofile(name)
    else:
        with open(name, "w") as f:
            for v in w.tolist():
                f.write("%016x\n" % v if fmt == "2" else "%08x\n%08x\n" % (v & 0xffffffff, v >> 32))


def so_far():
    with open("/proc/self/io") as f:
        return int(f.read().split()[1])


def alive(refs):
    """The batches something still refers to (arrays that are views of others go one collection after another)."""
    same = 0
    while same < 4:
        n = len(refs)
        gc.collect()
        refs[:] = [b for b in refs if any(x() is not None for x in b)]
        same = same + 1 if len(refs) == n else 0
    return len(refs)


def op_streams(c):
    for i, f in enumerate(c["files"]):
        numbered_file("f%d" % i, f["fmt"], f["total"])
    for f in "012":             # what is loaded once only
        numbered_file("w", f, 5)
        list(getattr(PT, "sread_a" + f)("w", buffer_size=2)[0])

    def begin(q):
        return getattr(PT, "sread_a" + c["files"][q["f"]]["fmt"])("f%d" % q["f"], buffer_size=q["batch"])
    S, told, refs, steps = [], [], [], []
    for q in c["streams"]:
        s, n = begin(q)
        S.append(s)
        told.append(int(n))
    spent, first = 0, so_far()
    for st in c["steps"]:
        k = st["s"]
        if st["k"] == "again":
            S[k], told[k] = begin(c["streams"][k])
            steps.append({"k": "again", "s": k + 1})
            continue
        e = {"k": "ask", "s": k + 1, "end": 1, "cnt": 0, "lo": 0, "hi": 0, "ordered": 1}
        try:
            t, p = next(S[k])
        except StopIteration:
            pass
        else:
            lo = int((float(t[0]) - 0.5) // 37) if len(t) else 0
            a, b = numbered(lo, lo + len(t))
            e.update(end=0, cnt=len(t), lo=lo, hi=lo + len(t) - 1, ordered=int(len(p) == len(t) and bool((t == a).all()) and bool((p == b).all())))
            refs.append([weakref.ref(x) for x in (t, p)])
            del t, p, a, b
        e["kb"] = max(0, so_far() - first) // 1000
        e["held"] = alive(refs) if st.get("look") else 0
        steps.append(e)
    return {"steps": steps, "told": [int(n) for n in told]}


def op_sink(c):
    """A streaming writer or report, fed batch by batch."""
    refs, steps = [], []
    n, b = c["total"], c["batch"]

    def source():
        for k in range((n + b - 1) // b):
            steps.append({"k": k + 1, "held": alive(refs) if k % c["every"] == 0 else 0,
                          "out": os.path.getsize("out") // c["size"] if os.path.exists("out") else 0})
            t, p = numbered(k * b, min(n, (k + 1) * b), c["how"])
            refs.append([weakref.ref(x) for x in (t, p)])
            yield t, p
            del t, p
    kw = {"num_batches": (n + b - 1) // b} if c["told"] else {}
    with contextlib.redirect_stderr(io.StringIO()):
        if c["to"] == "report":
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                PT.print_statistics_stream("n", source(), display=c["display"], **kw)
            whole = int(str(n) in text.getvalue().split())
        else:
            getattr(PT, "swrite_a" + c["to"])("out", source(), display=c["display"], **kw)
            numbered_file("want", c["to"], n)
            whole = int(get(["out"]) and open("out", "rb").read() == open("want", "rb").read())
    return {"steps": steps, "whole": whole}


def op_through(c):
    """The conversion program, watched from outside."""
    numbered_file("in.dat", c["from"], c["total"])
    p = subprocess.Popen([sys.executable, "-B", "-m", "fpfind.lib.parse_timestamps"] + c["argv"] + ["in.dat", "out.dat"],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    here = os.path.realpath("in.dat")
    seen = {}
    while p.poll() is None:
        pos = 0
        try:
            for fd in os.listdir("/proc/%d/fd" % p.pid):
                if os.readlink("/proc/%d/fd/%s" % (p.pid, fd)) == here:
                    with open("/proc/%d/fdinfo/%s" % (p.pid, fd)) as f:
                        pos = max(pos, int(f.read().split()[1]))
        except OSError:
            pass
        out = os.path.getsize("out.dat") if os.path.exists("out.dat") else 0
        x, y = pos // c["isize"], out // c["osize"]
        if x and (x not in seen or seen[x] > y):
            seen[x] = y
        time.sleep(0.002)
    numbered_file("want", c["to"], c["total"])
    whole = int(p.returncode == 0 and os.path.exists("out.dat") and open("out.dat", "rb").read() == open("want", "rb").read())
    return {"steps": [{"in": x, "out": y} for x, y in sorted(seen.items())], "whole": whole}


LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}


def spaced(text):
    return [len(text) - len(text.lstrip(" ")), text.lstrip(" ")]


def log_lines(path, begun):
    """The lines of a log, taken apart."""
    if not os.path.exists(path):
        return []
    with open(path) as f:
        text = f.read()
    lines, pre = [], None
    for ln in text.split("\n")[:-1] if text.endswith("\n") or not text else ["no end of line"] + text.split("\n"):
        m = re.fullmatch(r"((\d{8}_\d{6})\t([A-Z]+) *\t([^\t]+):(\d+)\t)\| ( *)([^\t]*)(?:\t([\[({].*))?", ln)
        d = {"head": 2, "level": "", "func": "", "line": 0, "pad": 0, "text": ln, "kind": "", "details": []}
        if m:
            try:
                when = time.mktime(time.strptime(m[2], "%Y%m%d_%H%M%S"))
                x = None if m[8] is None else ast.literal_eval(m[8])
            except (ValueError, SyntaxError):
                when = x = 0
            if begun - 2 <= when <= time.time() + 2 and len(m[1].split("\t")[1]) == max(7, len(m[3])):
                pre = "".join(ch if ch.isspace() else " " for ch in m[1])
                last = d = {"head": 1, "level": m[3].lower(), "func": m[4], "line": int(m[5]), "pad": len(m[6]), "text": m[7], "kind": "", "details": []}
                if x is not None:
                    d["kind"] = type(x).__name__
                    d["details"] = [{"pad": a, "text": b} for a, b in (spaced(y) for y in ([k + ": " + v for k, v in x.items()] if isinstance(x, dict) else x))]
        elif pre is not None and ln.startswith(pre + "| "):
            a, b = spaced(ln[len(pre) + 2:])
            d = {"head": 0, "level": last["level"], "func": last["func"], "line": last["line"], "pad": a, "text": b, "kind": "", "details": []}
        lines.append(d)
    return lines


def op_logs(c):
    """A history of loggers, in a process of its own."""
    begun = time.time()
    pid = os.fork()
    if not pid:
        done = 1
        try:
            signal.alarm(30)
            os.dup2(os.open("err", os.O_WRONLY | os.O_CREAT | os.O_APPEND), 2)
            if c["root"]:
                h = logging.FileHandler("root")
                logging.getLogger().addHandler(h)
            for f in {s["v"] for s in c["steps"] if s["k"] == "file" and c["old"]}:
                with open(f, "w") as h:
                    h.write("of an earlier run\n")
            LG = importlib.import_module("fpfind.lib.logging")
            loggers, said = {}, []
            for s in c["steps"]:
                x = s["x"]
                if s["k"] == "get":
                    lg = LG.get_logger("own." + x, {"none": None, "other": "OTHER"}.get(s["v"], s["v"]), human_readable=bool(c["human"][x]))
                    assert loggers.setdefault(x, lg) is lg
                elif s["k"] == "verb":
                    loggers[x].setLevel(LG.verbosity2level(int(s["v"])))
                elif s["k"] == "file":
                    LG.set_logfile(loggers[x], s["v"], human_readable=bool(c["human"][s["v"]]))
                else:
                    m = s["m"]
                    extra = {}
                    if m["kind"]:
                        extra["details"] = {"list": list, "tuple": tuple, "dict": dict}[m["kind"]](m["details"])
                    if m["func"]:
                        extra["_funcname"] = m["func"]
                    if m["line"]:
                        extra["_lineno"] = m["line"]
                    line = sys._getframe().f_lineno + 1
                    loggers[x].log(LEVELS[s["v"]], m["text"], *m["args"], extra=extra)
                    said.append(line)
            with open("said", "w") as f:
                json.dump(said, f)
            done = 0
        except BaseException as e:
            with open("why", "w") as f:
                f.write("%s: %s" % (type(e).__name__, e))
        finally:
            logging.shutdown()
            os._exit(done)
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError(open("why").read() if os.path.exists("why") else "it ended with %d" % st)
    said = json.load(open("said"))
    steps = []
    for s in c["steps"]:
        e = {"k": s["k"], "x": s["x"], "v": s["v"]}
        if s["k"] == "log":
            m = s["m"]
            a, b = spaced(m["text"] % tuple(m["args"]) if m["args"] else m["text"])
            det = [d[0] + ": " + d[1] for d in m["details"]] if m["kind"] == "dict" else m["details"]
            e["m"] = {"level": s["v"], "func": m["func"] or "op_logs", "line": m["line"] or said[0], "pad": a, "text": b, "kind": m["kind"],
                      "details": [{"pad": p, "text": t} for p, t in map(spaced, det)]}
            del said[0]
        steps.append(e)
    return {"steps": steps, "got": {o: log_lines(o, begun) for o in ("err", "f", "g", "root")}}


def main():
    cmds = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], "w")
    top = os.getcwd()
    for c in cmds:
        d = tempfile.mkdtemp(dir=top)
        os.chdir(d)
        signal.alarm(int(os.environ.get("PATIENCE") or c.get("limit", LIMIT)))
        try:
            r = {"ok": globals()["op_" + c["op"]](c)}
        except Exception as e:
            r = {"err": "%s: %s" % (type(e).__name__, e)}
        signal.alarm(0)
        os.chdir(top)
        shutil.rmtree(d, True)
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.close()


if __name__ == "__main__":
    main()
