"""Sessions with the library (C34): histories of calls in one process, and what
a process that called nothing else answers.  Same interface as worker.py; the
process that reads the commands calls nothing itself but forks for every
history and every single call.
"""
import contextlib
import hashlib
import importlib
import io
import json
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

import numpy as np

try:
    import fpfind  # noqa: F401
    from fpfind import TSRES
    PT = importlib.import_module("fpfind.lib.parse_timestamps")
    PE = importlib.import_module("fpfind.lib.parse_epochs")
    UT = importlib.import_module("fpfind.lib.utils")
    FP = importlib.import_module("fpfind.fpfind")
    TG = importlib.import_module("fpfind.lib.generate_freqcd_testcase")
except Exception:
    sys.stderr.write(traceback.format_exc())
    sys.exit(3)
from epochs import t1_bytes, t2_bytes, t3_bytes, t4_bytes
from eventfile import file_bytes, rand_events

RES = [TSRES.NS1, TSRES.PS125, TSRES.PS4]
EP = 0xba000000


# --------------------------------------------------------------------------
# what arrays, files and answers hold
# --------------------------------------------------------------------------
def digest(b):
    return hashlib.blake2b(b, digest_size=9).hexdigest()


def exact(x):
    """All of an array, or of a collection of arrays."""
    if isinstance(x, (list, tuple)):
        return digest("/".join([type(x).__name__, *map(exact, x)]).encode())
    if isinstance(x, np.ndarray):
        if x.dtype == np.longdouble:
            hi = x.astype(np.float64)
            b = hi.tobytes() + (x - hi).astype(np.float64).tobytes()
        elif x.dtype == object:
            b = repr(x.tolist()).encode()
        else:
            b = x.tobytes()
        return digest(f"{x.dtype}{x.shape}".encode() + b)
    return digest(repr(x).encode())


def plain(x):
    """An answer, up to the rounding of floating point sums."""
    if isinstance(x, dict):
        return "{%s}" % ",".join(f"{k}:{plain(v)}" for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return "[%s]" % ",".join(map(plain, x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "c":
            return plain([x.real, x.imag])
        if x.dtype.kind == "f":
            v = [round(float(w), 5) + 0.0 for w in x]
            return f"f{x.shape}" + digest(repr(v).encode())
        return f"{x.dtype.kind}{x.shape}" + digest(repr(x.tolist()).encode())
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return "%.8g" % float(x)
    return repr(x)


def on_disk(name):
    if os.path.isdir(name):
        return digest("".join(f"{n}={on_disk(os.path.join(name, n))};" for n in sorted(os.listdir(name))).encode())
    if not os.path.exists(name):
        return None
    with open(name, "rb") as f:
        return digest(f.read())


class World:
    """The caller's arrays, in memory, and files, in the working directory."""

    def __init__(self, cells=None):
        self.cells = cells or {}

    def contents(self):
        out = [{"n": n, "v": exact(v)} for n, v in sorted(self.cells.items())]
        for n in sorted(os.listdir(".")):
            out.append({"n": "./" + n, "v": on_disk(n)})
        return out

    def of(self, name):
        if name.startswith("./"):
            return on_disk(name) or "none"
        return exact(self.cells[name])


def events_file(r, fmt):
    ev = rand_events(r, r.choice([40, 300]))
    return file_bytes(fmt, False, ev)


def epoch_file(r, kind, e):
    n = r.randrange(5, 40)
    if kind == "T1":
        return t1_bytes(e, sorted((r.getrandbits(37), 1 << r.randrange(4)) for _ in range(n)), rng=None)
    items = [(r.randrange(2, 60000), False, r.randrange(16)) for _ in range(n)]
    return (t2_bytes if kind == "T2" else t4_bytes)(e, 17, 4, items)


def new_file(r, name):
    """Other contents for the file of that name."""
    if name in ("f0", "f1", "f2"):
        b = {name: events_file(r, name[1])}
    elif name in ("d1", "d2"):
        first = EP + r.randrange(2)
        b = {f"{name}/{e:x}": epoch_file(r, "T1" if name == "d1" else "T2", e) for e in range(first, first + r.randrange(2, 5))}
    elif name == "k3":
        b = {name: t3_bytes(EP, [(r.choice([1, 2, 4, 8]) << 4) | r.choice([1, 2, 4, 8]) for _ in range(60)])}
    elif name == "k4":
        b = {name: epoch_file(r, "T4", EP)}
    else:
        b = {name: r.randbytes(100)}
    if os.path.isdir(name):
        shutil.rmtree(name)
    if name in ("d1", "d2"):
        os.mkdir(name)
    how = r.random()
    for n, c in b.items():
        if how < 0.5 and os.path.exists(n):
            with open(n + "~", "wb") as f:
                f.write(c)
            os.replace(n + "~", n)
        else:
            with open(n, "wb") as f:
                f.write(c)


def new_cells(r):
    n = r.choice([700, 1500])
    g = np.random.RandomState(r.getrandbits(31))
    span = 1 << 23
    x = np.sort(g.randint(0, span * 256, n)).astype(np.int64)
    keep = x[g.rand(n) < 0.8]
    y = np.sort(np.concatenate([keep, g.randint(0, span * 256, n // 5)])) + r.randrange(256, 60000)
    kind = r.choice(["ld", "f8", "f8", "ld"])
    a, b = ((v.astype(np.longdouble) / 256 if kind == "ld" else v / 256) + r.choice([0, 0, 1 << 20]) for v in (x, y))
    h = g.randint(0, 30, 64)
    h[r.randrange(64)] = 200
    zero = max(a[0], b[0])
    c, d = (v - zero for v in (a, b))
    return {"a": a, "b": b, "c": c[c >= 0], "d": d[d >= 0],
            "p": g.randint(0, 16, n).astype(r.choice([np.int64, np.uint32, np.uint64])),
            "h": h.astype(r.choice([np.float64, np.int64])),
            "bins": np.arange(64) * r.choice([1, 4, 16.0])}


def edit(r, v):
    """Changes an array in place."""
    if isinstance(v, (tuple, list)):
        for w in v:
            if isinstance(w, np.ndarray) and len(w):
                edit(r, w)
        return
    if len(v) == 0:
        return
    if v.dtype.kind == "b":
        v[...] = ~v
    elif v.dtype.kind in "fc" and len(v) > 100:
        v += 1 + r.randrange(9)           # times stay sorted
    else:
        v[r.randrange(len(v))] += 1
        v[...] = v[::-1].copy() if r.random() < 0.5 and len(v) <= 64 else v


# --------------------------------------------------------------------------
# the functions; each has arguments w (the world's) and o (options)
# --------------------------------------------------------------------------
def caught(f, *a, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = f(*a, **k)
    return [out.getvalue(), v]


def stat(s):
    return {k: getattr(s, k) for k in ("max", "mean", "stdev", "total", "significance", "significance_raw", "significance2", "g2")}


def hist(w, o):
    v = UT.histogram_fft(w["a"], w["b"], **o)
    return [*v[:4], stat(v[4])] if o.get("statistics") else v


def search(w, o):
    return FP.fpfind(w["c"], w["d"], **o)


def one_search(w, o):
    return FP.time_freq(w["c"], w["d"], **o)


def stream(fmt, o):
    s, n = getattr(PT, "sread_a" + fmt)("f" + fmt, **o)
    return [n, list(s)]


def opt(r, **k):
    """Some of the options; those left out are at their defaults."""
    return {n: r.choice(v) for n, v in k.items() if r.random() < 0.7}


SEARCH = dict(num_wraps=20, num_bins=1 << 12, resolution=16.0, target_resolution=4.0, separation_duration=3e6)
TIMES = dict(resolution=RES, fractional=[True, False])

# name: (what is used, options, function)
COMPUTE = {
    "overlap": ("a b p", lambda r: {}, lambda w, o: UT.get_overlap(w["a"], w["b"], w["p"])),
    "statistics": ("h", lambda r: (lambda k: {**k, "resolution": r.choice([2, 4.0])} if k else k)(opt(r, center=[-20.0, 20.0, 0.0], window=[0.0, 16.0])),
                   lambda w, o: stat(UT.get_statistics(w["h"], **o))),
    "fft": ("a", lambda r: {"num_bins": r.choice([64, 256]), "time_res": r.choice([4, 1.0])}, lambda w, o: UT.generate_fft(w["a"], **o)),
    "xcorr": ("h bins", lambda r: {"filter": r.random() < 0.5},
              lambda w, o: UT.get_xcorr(w["h"][:33] + 0j, w["h"][31:] + 1j, w["bins"][:33] * 1.0 if o["filter"] else None)),
    "delay": ("h bins", lambda r: opt(r, include_negative=[True, False]), lambda w, o: UT.get_timing_delay_fft(w["h"], w["bins"], **o)),
    "index": ("bins", lambda r: {"pos": r.randrange(64)}, lambda w, o: UT.get_delay_at_index_fft(w["bins"], **o)),
    "top": ("h bins", lambda r: {"k": r.choice([1, 1])}, lambda w, o: UT.get_top_k_delays_fft(w["h"], w["bins"], **o)),
    "turned": ("h bins", lambda r: {}, lambda w, o: UT.convert_histogram_fft(w["h"], w["bins"])),
    "slice": ("a", lambda r: opt(r, start=[1000.0, 2.0e6], duration=[1.0e6, 3.0e7]), lambda w, o: UT.slice_timestamps(w["a"], **o)),
    "histogram": ("a b", lambda r: {"num_bins": r.choice([2048, 4096]), "num_wraps": r.choice([60, 100, 200]), **opt(r, resolution=[4, 16.0], acq_start=[0, 1000.0], freq_corr=[0.0, 1e-5, -2e-4],
                                                                              statistics=[True], center=[100.0], window=[64.0])}, hist),
    "normalize": ("a b", lambda r: opt(r, skip=[0.0, 1e-3], preserve_relative=[True, False]), lambda w, o: UT.normalize_timestamps(w["a"], w["b"], **o)),
    "pattern mask": ("p", lambda r: {"pattern": r.randrange(16), **opt(r, mask=[True, False], invert=[True, False])}, lambda w, o: PT.get_pattern_mask(w["p"], **o)),
    "timing mask": ("a", lambda r: opt(r, start=[0.001, 0.002], end=[0.004, 0.006], resolution=RES), lambda w, o: PT.get_timing_mask(w["a"], **o)),
    "report": ("a p", lambda r: {}, lambda w, o: caught(PT.print_statistics, "n", w["a"], w["p"])),
    "stream report": ("a p", lambda r: {"display": False, **opt(r, resolution=RES)},
                      lambda w, o: caught(PT.print_statistics_stream, "n", iter([(w["a"][:300], w["p"][:300]), (w["a"][300:], w["p"][300:])]), **o)),
    "precompensations": ("", lambda r: {"start": r.choice([0, 1e-6]), "stop": 1e-5, "step": r.choice([0, 1e-6, 3e-6]), **opt(r, ordered=[True, False])},
                         lambda w, o: FP.generate_precompensations(**o)),
    "search": ("c d", lambda r: {**SEARCH, "threshold": r.choice([4.0, 6.0]), "precompensations": r.choice([[0], [0.0, 1e-5], [3e-4, 0.0]]), **opt(r, precompensation_fullscan=[True, False])}, search),
    "one search": ("c d", lambda r: {**SEARCH, "threshold": 4.0}, one_search),
    "event": ("", lambda r: {"timestamp": r.getrandbits(54), **opt(r, detectors=[1, 4, 15])}, lambda w, o: TG.get_event(**o)),
    "epoch name": ("", lambda r: {"value": EP + r.getrandbits(20)}, lambda w, o: [PE.int2epoch(**o), PE.epoch2int(PE.int2epoch(**o)), str(PE.epoch2date(PE.int2epoch(**o)))]),
    "round": ("", lambda r: {"number": r.choice([123.456789, 1e-7, 5, 9.995]), **r.choice([{"sf": 3}, {"dp": 2}, {"ndigits": 3}])}, lambda w, o: UT.round(**o)),
}
READ = {
    **{"read a" + f: ("./f" + f, (lambda r: opt(r, **TIMES)), (lambda f: lambda w, o: getattr(PT, "read_a" + f)("f" + f, **o))(f)) for f in "012"},
    **{"stream a" + f: ("./f" + f, (lambda r: opt(r, **TIMES, buffer_size=[7, 100])), (lambda f: lambda w, o: stream(f, o))(f)) for f in "012"},
    "epochs T1": ("./d1", lambda r: {"i": r.choice([0, 1])}, lambda w, o: UT.get_timestamp("d1", "T1", sorted(os.listdir("d1"))[0], o["i"], 1)),
    "epochs T2": ("./d2", lambda r: {"i": r.choice([0, 1])}, lambda w, o: UT.get_timestamp("d2", "T2", sorted(os.listdir("d2"))[0], o["i"], 1)),
    "T1": ("./d1", lambda r: opt(r, full_epoch=[True, False], **TIMES), lambda w, o: PE.read_T1("d1/" + sorted(os.listdir("d1"))[0], **o)),
    "T2": ("./d2", lambda r: opt(r, full_epoch=[True, False], **TIMES), lambda w, o: PE.read_T2("d2/" + sorted(os.listdir("d2"))[0], **o)),
    "T3": ("./k3", lambda r: {}, lambda w, o: (lambda s: [s.coinc_matrix, s.garbage, s.okcount, s.qber] if hasattr(s, "qber") else repr(s))(PE.read_T3("k3"))),
    "T4": ("./k4", lambda r: {}, lambda w, o: PE.read_T4("k4")),
    "header T1": ("./d1", lambda r: {}, lambda w, o: PE.read_T1_header("d1/" + sorted(os.listdir("d1"))[0])),
    "first epoch": ("./d1 ./d2", lambda r: opt(r, return_length=[True], first_epoch=["%x" % (EP + 1)]), lambda w, o: UT.get_first_overlapping_epoch("d1", "d2", **o)),
}
WRITE = {
    **{"write a" + f: ("a p", (lambda r: opt(r, resolution=RES, legacy=[True, False])), (lambda f: lambda w, o: getattr(PT, "write_a" + f)("out", w["a"], w["p"], **o))(f)) for f in "012"},
    **{"stream to a" + f: ("a p", (lambda r: {"display": False, **opt(r, resolution=RES, legacy=[True, False])}),
                           (lambda f: lambda w, o: getattr(PT, "swrite_a" + f)("out", iter([(w["a"][:200], w["p"][:200]), (w["a"][200:], w["p"][200:])]), **o))(f)) for f in "012"},
    "convert": ("./f1", lambda r: {"argv": ["-A1", "-q"] + r.choice([[], ["-a0"], ["-a2"], ["-x"]]) + r.choice([[], ["--inmemory"]]) + r.choice([[], ["--pfilter-pattern", "5"]])},
                lambda w, o: program(PT, o["argv"] + ["f1", "out"])),
}
FAIL = {
    "read what is not there": ("", lambda r: {"fmt": r.choice("012")}, lambda w, o: getattr(PT, "read_a" + o["fmt"])("gone")),
    "read T1 of another kind": ("./k4", lambda r: {}, lambda w, o: PE.read_T1("k4")),
    "read T2 of another kind": ("./k4", lambda r: {}, lambda w, o: PE.read_T2("k4")),
    "statistics without resolution": ("h", lambda r: {"center": 3.0}, lambda w, o: UT.get_statistics(w["h"], **o)),
    "fft of nothing": ("", lambda r: {}, lambda w, o: UT.generate_fft(np.array([]), 8, 1)),
    "search in vain": ("c d", lambda r: {**SEARCH, "threshold": 1e9, "precompensations": [0, 1e-5]}, search),
    "search without a peak": ("c d", lambda r: {**SEARCH, "threshold": 1e9}, one_search),
    "unequal lengths": ("a", lambda r: {}, lambda w, o: PE.write_T1(".", EP, w["a"], [1, 2])),
    "conversion of nothing": ("", lambda r: {"argv": ["-A1", "gone", "out2"]}, lambda w, o: program(PT, o["argv"])),
    "epochs apart": ("./d1", lambda r: {}, lambda w, o: UT.get_timestamp("d1", "T1", "%x" % (EP + 900), 0, 2)),
}
# These answer with arrays that are the caller's from then on.
OWN = ("histogram", "normalize", "turned", "fft", "pattern mask", "timing mask", "precompensations")
KINDS = {"compute": COMPUTE, "read": READ, "write": WRITE, "fail": FAIL}
EVERY = {n: f for k in KINDS.values() for n, f in k.items()}


def program(mod, argv):
    old = sys.argv
    sys.argv = ["program"] + argv
    try:
        return caught(mod.main)
    finally:
        sys.argv = old


def do(world, fn, o):
    """Calls a function: (answer, object answered)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            v = EVERY[fn][2](world.cells, o)
        except (Exception, SystemExit) as e:
            return "error " + type(e).__name__, None
    return plain(v), v


def in_child(f):
    """Value of f in a child process; None if it crashed."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            v = json.dumps(f()).encode()
            with os.fdopen(wr, "wb") as g:
                g.write(v)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as g:
        b = g.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError("child ended with status %d" % st)
    return json.loads(b)


def history(c, keep):
    r = random.Random(c["seed"])
    os.mkdir("w")
    os.chdir("w")
    for n in ("f0", "f1", "f2", "d1", "d2", "k3", "k4"):
        new_file(r, n)
    world = World(new_cells(r))
    pool = {}
    for k, fs in KINDS.items():
        for i in (1, 2, 3):
            fn = r.choice(sorted(fs))
            if k == "compute" and i == 3:
                fn = pool[k, 1][0]          # one function with other options
            if c.get("about") in fs and i < 3:
                fn = c["about"]
            pool[k, i] = (fn, fs[fn][1](r))
    start = world.contents()
    steps, keys, recent = [], [], []
    for s in c["steps"]:
        if s["k"] in KINDS:
            fn, o = pool[s["k"], s["i"]]
            use = EVERY[fn][0].split()
            ins = [world.of(n) for n in use]
            text = repr(sorted((k, str(v)) for k, v in o.items()))
            key = digest("|".join([fn, text, *ins]).encode())
            if not os.path.exists(os.path.join(keep, key)):
                files = {}
                for n in use:
                    if n.startswith("./"):
                        for d, _, fs in (os.walk(n) if os.path.isdir(n) else [(".", 0, [n])]):
                            for x in fs:
                                with open(os.path.join(d, x), "rb") as f:
                                    files[os.path.join(d, x)] = f.read()
                with open(os.path.join(keep, key + "~"), "wb") as f:
                    pickle.dump((fn, o, {n: world.cells[n] for n in use if n in world.cells}, files), f)
                os.replace(os.path.join(keep, key + "~"), os.path.join(keep, key))
            if not r.random() < 0.3 and s["k"] == "write" and os.path.exists("out"):
                os.unlink("out")
                steps.append({"kind": "own", "makes": "./out", "after": world.contents()})
            got, v = do(world, fn, o)
            makes = ""
            if s["k"] == "read" and isinstance(v, (tuple, list, np.ndarray)):
                makes = "r%d" % s["i"]
                world.cells[makes] = v if isinstance(v, np.ndarray) else tuple(v)
                recent = [makes]
            if fn in OWN and v is not None:
                makes = "r%d" % (s["i"] + 4)
                world.cells[makes] = v if isinstance(v, np.ndarray) else tuple(v)
                recent = [makes]
            if s["k"] == "write":
                makes = "./out"
            touched = [n for n in use] or touched_default
            steps.append({"kind": "call", "fn": fn, "opt": text, "use": use, "got": got, "makes": makes, "after": world.contents()})
            keys.append({"fn": fn, "opt": text, "use": ins, "key": key, "kind": s["k"]})
        else:
            if s["k"] == "rewrite":
                names = [n for n in touched if n.startswith("./")] or ["./" + r.choice(["f0", "f1", "f2", "d1", "d2"])]
                m = r.choice(names)
                new_file(r, m[2:])
            elif s["k"] == "scribble" and recent:
                m = recent[0]
                edit(r, world.cells[m])
            else:
                names = [n for n in touched if n in world.cells] or ["a"]
                m = r.choice(names)
                edit(r, world.cells[m])
            steps.append({"kind": "own", "makes": m, "after": world.contents()})
    return {"start": start, "steps": steps, "keys": keys}


touched_default = ["a"]


def fresh(path, kind):
    os.mkdir("w")
    os.chdir("w")
    with open(path, "rb") as f:
        fn, o, cells, files = pickle.load(f)
    for n, b in files.items():
        os.makedirs(os.path.dirname(n) or ".", exist_ok=True)
        with open(n, "wb") as f:
            f.write(b)
    world = World(cells)
    ans, v = do(world, fn, o)
    made = "none"
    if kind == "write":
        made = on_disk("out") or "none"
    elif fn in OWN:
        made = "any"
    elif kind == "read" and isinstance(v, (tuple, list, np.ndarray)):
        made = exact(v if isinstance(v, np.ndarray) else tuple(v))
    return {"ans": ans, "made": made}


known = {}


def op_functions(c):
    return {k: sorted(fs) for k, fs in KINDS.items()}


def op_session(c):
    keep = os.path.join(TOP, "keep")
    os.makedirs(keep, exist_ok=True)
    run = in_child(lambda: history(c, keep))
    shutil.rmtree("w", True)
    out = []
    for e in run.pop("keys"):
        k = e.pop("key")
        kind = e.pop("kind")
        if k not in known:
            known[k] = in_child(lambda: fresh(os.path.join(keep, k), kind))
            shutil.rmtree("w", True)
        f = {**e, **known[k]}
        if f not in out:
            out.append(f)
    run["fresh"] = out
    return run


def main():
    global TOP
    cmds = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], "w")
    TOP = os.getcwd()
    logging.disable(logging.CRITICAL)
    for c in cmds:
        d = tempfile.mkdtemp(dir=TOP)
        os.chdir(d)
        signal.alarm(int(os.environ.get("PATIENCE") or 60))
        try:
            r = {"ok": globals()["op_" + c["op"]](c)}
        except Exception as e:
            r = {"err": "%s: %s" % (type(e).__name__, e)}
        signal.alarm(0)
        os.chdir(TOP)
        shutil.rmtree(d, True)
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.close()


if __name__ == "__main__":
    main()
