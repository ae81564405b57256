"""How the programs end (C31)."""
import concurrent.futures as cf
import os
import random
import shutil
import struct
import subprocess

from common import NCPU, PY, MachineryError, cfg_with, design, enumerate_states, py_env, validate
from freqcd import build

PT = "fpfind.lib.parse_timestamps"
TOP = (1 << 54) - 1

# Stand-ins for the packages that fpplot needs and that are not part of it.
STUBS = {
    "boiler/__init__.py": "",
    "boiler/scriptutil.py": "import configargparse\n"
                            "def generate_default_parser(*a, **k):\n    return configargparse.ArgumentParser(description=None, add_help=False)\n"
                            "def parse_args_or_help(parser, *a, **k):\n    return parser.parse_args()\n",
    "boiler/logging.py": "def set_default_handlers(*a, **k):\n    pass\nset_logging_level = set_default_handlers\n",
    "S15lib/__init__.py": "", "S15lib/g2lib/__init__.py": "",
    "S15lib/g2lib/g2lib.py": "import numpy as np\n"
                             "def histogram(a, b, *x, **k):\n    a, b = np.asarray(a), np.asarray(b)\n    assert len(a) and len(b)\n    return np.array([3, 1, 4]), np.array([-1., 0., 1.])\n",
}


def words(ts, r):
    return [(t & TOP) << 10 | 1 << r.randrange(4) for t in ts]


def raw(ws, fmt="1", legacy=False):
    if fmt == "0":
        return "".join("%08x\n%08x\n" % (w & 0xffffffff, w >> 32) for w in ws).encode()
    if fmt == "2":
        return "".join("%016x\n" % w for w in ws).encode()
    if legacy:
        ws = [(w & 0xffffffff) << 32 | w >> 32 for w in ws]
    return struct.pack("<%dQ" % len(ws), *ws)


def t1(e, ts, r):
    ws = [(t | (e & 0x1ffff) << 37) << 10 | 1 << r.randrange(4) for t in ts]
    return struct.pack("<iIIii", 0x101, e, len(ws), 49, 4) + raw(ws, legacy=True) + bytes(8)


def t2(e, ts, r, width=17):
    bits, prev = [], 0
    for t in ts:
        d, prev = (t >> 5) - prev, t >> 5
        bits.append(format(0, "0%db" % width) + format(d, "032b") if d < 2 or d >> width else format(d, "0%db" % width))
        bits.append(format(r.randrange(1, 16), "04b"))
    s = "".join(bits) + format(1, "0%db" % width) + "0000"
    s += "0" * (-len(s) % 32)
    return struct.pack("<iIIiii", 0x102, e, len(ts), width, 4, 0) + struct.pack("<%dI" % (len(s) // 32), *(int(s[i:i + 32], 2) for i in range(0, len(s), 32)))


class Job:
    """A case of module Job as files and a command."""

    def __init__(self, ctx, case, d, r, exe, turn=0):
        self.j, self.d, self.r, self.exe, self.turn = case, d, r, exe, turn
        self.dst, self.stdin = None, b""
        self.env = dict(py_env(), PYTHONPATH=os.pathsep.join([py_env()["PYTHONPATH"], os.path.join(ctx.scratch, "stubs")]))
        os.makedirs(d)
        getattr(self, "plan_" + case["prog"])()
        if self.dst is None and case["dst"] == "full":
            self.stdout = "/dev/full"

    stdout = None

    def put(self, name, data):
        with open(os.path.join(self.d, name), "wb") as f:
            f.write(data)

    def place(self, src, names=("out", "o.u t", "out.a1")):
        """The destination, as a name."""
        st = self.j["dst"]
        n = self.r.choice(names)
        if st in ("unsaid", "console") or (st == "full" and self.j["prog"] in ("emit", "correct") and self.turn % 2 == 0):
            return None
        if st == "same":
            k = ["plain", "dot", "link", "hard"][self.turn % 4]
            if k == "hard" and not os.path.isfile(os.path.join(self.d, src)):
                k = "plain"
            if k == "plain":
                n = src
            elif k == "dot":
                n = "./" + src
            elif k == "link":
                os.symlink(src, os.path.join(self.d, n))
            else:
                os.link(os.path.join(self.d, src), os.path.join(self.d, n))
        elif st == "old":
            self.before = self.r.randbytes(self.r.choice([1, 40, 5000]))
            self.put(n, self.before)
        elif st == "kind":
            os.mkdir(os.path.join(self.d, n))
        elif st == "nodir":
            n = "nodir/" + n
        elif st == "full":
            os.symlink("/dev/full", os.path.join(self.d, n))
        self.dst = n
        return n

    before = b""

    def source(self, name, st, ok, damaged):
        """A source file."""
        if st == "kind":
            os.mkdir(os.path.join(self.d, name))
        elif st == "empty":
            self.put(name, b"")
        elif st in ("half", "text"):
            self.put(name, damaged)
        elif st == "ok":
            self.put(name, ok)
        return name

    # -- the programs -------------------------------------------------------
    def one(self, fmt, legacy=False):
        r, st = self.r, self.j["srcs"][0]
        n = r.choice([1, 2, 30, 300])
        ok = raw(self.words_(n), fmt, legacy)
        bad = b""
        if st == "half":
            bad = ok[:-4] if fmt == "1" else b"".join(ok.splitlines(True)[:-1])
        elif st == "text":
            lines = ok.splitlines(True)
            lines.insert(r.randrange(len(lines)), b"not a number\n")
            bad = b"".join(lines)
        return self.source(r.choice(["in", "in put", "a.dat"]), st, ok, bad)

    def words_(self, n):
        t = self.r.randrange(1 << 40)
        ws = []
        for _ in range(n):
            t += self.r.randrange(1 << 20)
            ws.append(t)
        self.ts = ws
        return words(ws, self.r)

    def plan_convert(self, report=False):
        r, j = self.r, self.j
        st = j["srcs"][0]
        fmt = "0" if st == "half" and r.random() < 0.5 else "1" if st == "half" else r.choice("02" if st == "text" else "012")
        legacy = fmt == "1" and r.random() < 0.5
        src = self.one(fmt, legacy)
        argv = [] if j["opts"] == "noformat" else ["-A", "3" if j["opts"] == "choice" and r.random() < 0.5 else fmt]
        if j["opts"] == "choice" and argv[1] == fmt:
            argv += ["-a", "7"]
        if "-a" not in argv and r.random() < 0.7:
            argv += ["-a", r.choice("012")]
        argv += ["-X"] if legacy else []
        argv += r.choice([[], ["-x"]]) + r.choice([[], ["-q"]])
        argv += ["--inmemory"] if j["whole"] else []
        argv += r.choice([["--pfilter-pattern", "x"], ["--tfilter-start", "soon"], ["--tfilter-end", "1s"]]) if j["opts"] == "type" else []
        argv += ["--frobnicate"] if j["opts"] == "unknown" else []
        if report:
            argv += ["-p"]
        dst = None if report else self.place(src)
        if report and r.random() < 0.3:    # a destination that is not asked for
            dst = "other"
            self.put(dst, b"other")
        self.cmd = [PY, "-B", "-m", PT, *argv, src] + ([dst] if dst else [])

    def plan_report(self):
        self.plan_convert(True)

    def plan_list(self):
        r, j = self.r, self.j
        legacy = r.random() < 0.5
        src = self.one("1", legacy)
        if j["whole"]:
            p = os.path.join(self.d, src)
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    self.stdin = f.read()
            src = "-"
        self.cmd = [PY, "-B", "-m", "fpfind.lib.generate_freqcd_testcase", *(["-x"] if legacy else []), *(["--frobnicate"] if j["opts"] == "unknown" else []), src]

    def plan_emit(self):
        r, j = self.r, self.j
        ts = [str(r.randrange(1 << 54)) for _ in range(r.choice([2, 5]))]
        self.ts = ts
        nums = list(ts)
        if j["srcs"][0] == "half":
            nums[r.randrange(len(nums))] = "-7"
        if j["opts"] == "type":
            nums[r.randrange(len(nums))] = r.choice(["abc", "1.5"])
        dst = self.place("")
        self.cmd = [PY, "-B", "-m", "fpfind.lib.generate_freqcd_testcase", *(["-o", dst] if dst else []), *(["--frobnicate"] if j["opts"] == "unknown" else []), "-t", *nums]

    def pair(self):
        """Two measurements of the same events."""
        r = self.r
        t, out = r.randrange(256, 1 << 20), []
        for _ in range(2600):
            t += r.randrange(1, 512)          # 1 us on average, in units of 4 ns
            out.append(t * 1024 // 32 * 32)
        return out, [x + 100 * 256 for x in out]

    def finish_search(self, opts):
        r, d = self.r, self.d
        if opts == "nolog":
            return ["-L", "nodir/log"]
        if opts == "noconfig":
            return ["--config", "conf.missing"]
        return {"choice": ["-V", "16"], "type": [r.choice(["-q", "-R", "-k"]), "x"], "unknown": ["--frobnicate"], "beyond": ["-e", "%08x" % (self.e0 + 40)],
                "noepoch": ["-e", "first"]}.get(opts, [])

    e0 = 0

    def raws(self):
        a, b = self.pair()
        for n, st, ts in (("ref", self.j["srcs"][0], a), ("tgt", self.j["srcs"][1], b)):
            ok = raw(words(ts, self.r))
            self.source(n, st, ok, ok[:-4])

    def epochs(self):
        r = self.r
        self.e0 = r.choice([r.randrange(1 << 28, 1 << 31), (r.randrange(1 << 11, 1 << 14) << 17) - 1])
        a, b = self.pair()
        for d, st, ts, mk in (("sd", self.j["srcs"][0], a, t2), ("td", self.j["srcs"][1], b, t1)):
            p = os.path.join(self.d, d)
            if st == "missing":
                continue
            if st == "kind":
                self.put(d, b"no directory")
                continue
            os.mkdir(p)
            if st == "empty":
                continue
            for k in range(2):
                if k and st == "gap":
                    continue
                data = mk(self.e0 + k, ts, r)
                if st == "cut" and k == 0:
                    data = data[:len(data) // 8 * 4]
                self.put("%s/%08x" % (d, self.e0 + k), data)

    def given(self, opts, pair):
        return pair[:2] if opts == "first" else pair[2:] if opts == "second" else [] if opts == "none" else pair

    def plan_find(self):
        o = self.j["opts"]
        self.raws()
        names = ["-t", "ref", "-D", "tgt"] if o == "crossed" else self.given(o, ["-t", "ref", "-T", "tgt"])
        self.cmd = [PY, "-B", "-m", "fpfind.fpfind", *names, "-q", "14", "-R", "16", *self.finish_search(o)]

    def plan_findep(self):
        o = self.j["opts"]
        self.epochs()
        self.cmd = [PY, "-B", "-m", "fpfind.fpfind", *self.given(o, ["-d", "sd", "-D", "td"]), "-q", "14", "-R", "16", *self.finish_search(o)]

    def plan_plot(self):
        o = self.j["opts"]
        self.raws()
        names = ["-t", "ref", "-D", "tgt"] if o == "crossed" else self.given(o, ["-t", "ref", "-T", "tgt"])
        self.cmd = [PY, "-B", "-m", "fpfind.fpplot", *names, "--save-plot", self.place("", ("plot.png", "p l.png"))]

    def plan_plotep(self):
        o = self.j["opts"]
        self.epochs()
        self.cmd = [PY, "-B", "-m", "fpfind.fpplot", *self.given(o, ["-d", "sd", "-D", "td"]), "-n", "2", "--save-plot", self.place("", ("plot.png", "p l.png")),
                    *self.finish_search(o)]

    def plan_correct(self):
        r, j = self.r, self.j
        legacy = r.random() < 0.5
        ok = raw(self.words_(r.choice([1, 30, 3000])), "1", legacy)
        src = self.source("in", j["srcs"][0], ok, b"")
        second = self.source("corr", j["srcs"][1], r.choice([b"5\n", b"5\n-7\n", b""]), b"")
        dst = self.place("in")
        o = j["opts"]
        argv = ["-i", "" if o in ("first", "none") else src]
        # the result is not looked at here, only that it is there
        argv += ["-o", "" if o == "none" and r.random() < 0.5 else dst] if dst else []
        if j["srcs"][1] != "unused":
            argv += ["-F", "" if o in ("second", "none") else second]
        elif o == "second":
            argv += ["-F", ""]
        argv += ["-x"] if legacy else []
        if o == "type":
            argv += ["-f", ["abc", "", "5x", "99999999999", "2097152", "-2097152"][self.turn % 6]]
        if o == "unknown":
            argv = [["--frobnicate", *argv], ["-q", *argv], [*argv, "extra"], [*argv, "-f"]][self.turn % 4]
        self.cmd = [self.exe, *argv]

    # -- running -------------------------------------------------------------
    def listing(self):
        out = {}
        for top, ds, fs in os.walk(self.d):
            for n in ds + fs:
                p = os.path.join(top, n)
                k = os.path.relpath(p, self.d)
                if os.path.isdir(p):
                    out[k] = "dir"
                elif os.path.realpath(p).startswith("/dev/"):
                    out[k] = "dev"
                else:
                    try:
                        with open(p, "rb") as f:
                            out[k] = f.read()
                    except OSError:
                        out[k] = "none"
        return out

    def run(self, timeout=60):
        j = self.j
        before = self.listing()
        out = open(self.stdout, "wb") if self.stdout else subprocess.PIPE
        try:
            p = subprocess.run(self.cmd, cwd=self.d, env=self.env, input=self.stdin, stdout=out, stderr=subprocess.PIPE, timeout=timeout)
            code = 0 if p.returncode == 0 else 2 if p.returncode < 0 else 1
            text, err = p.stdout or b"", p.stderr
        except subprocess.TimeoutExpired:
            code, text, err = 3, b"", b""
        finally:
            if self.stdout:
                out.close()
        after = self.listing()
        dst = os.path.normpath(self.dst) if self.dst is not None else None
        got = text if dst is None else after.get(dst, b"")
        if not isinstance(got, bytes):
            got = b""
        return {"code": code, "result": int(self.there(got)), "printed": int(bool(text.strip())), "said": int(bool(err.strip())),
                "kept": int(all(after.get(k) == v for k, v in before.items() if k != dst or j["dst"] == "same")),
                "spared": int(j["dst"] != "old" or after.get(dst) == self.before)}, err[-300:].decode(errors="replace")

    def there(self, got):
        p, st = self.j["prog"], self.j["srcs"][0]
        if p in ("convert", "correct", "list") and st == "empty":
            return True
        if p == "emit":
            return len(got) == 8 * len(self.ts)
        if p == "list":
            return got.count(b"\n") == len(self.ts)
        if p == "correct":
            return len(got) == 8 * len(self.ts)
        if p in ("find", "findep"):
            w = got.split()
            return len(w) == 2 and got.count(b"\n") == 1
        if p == "report":
            return len(got) > 20
        return len(got) > 0


def check_C31(ctx):
    design(ctx, "MCJob", [("one and two sources", cfg_with("MCJob"))],
           [(d, cfg_with("MCJob", Defect=f'"{d}"')) for d in ("exit0", "mute", "onlyfirst", "early", "itself", "swallow", "piecewise", "unwritten")])
    cases = sorted(enumerate_states(ctx, "GenJob", cfg_with("GenJob")), key=repr)
    few = sorted(enumerate_states(ctx, "GenJob", cfg_with("GenJob", Faults="1")), key=repr)
    r = ctx.rng
    rest = [c for c in cases if c not in few]
    # cases that can come about in several ways, in each of these
    ways = {"full": 2, "same": 4}
    turns = [(c, k) for c in few for k in range(ways.get(c["dst"], 6 if c["prog"] == "correct" and c["opts"] in ("type", "unknown") else 1))]
    turns += [(c, r.randrange(12)) for c in (rest if ctx.thorough() else r.sample(rest, 120))]
    if ctx.thorough():
        turns += [(c, r.randrange(12)) for c in few * 2]
    picked = [c for c, _ in turns]
    exe, _ = build(ctx)
    for n, text in STUBS.items():
        p = os.path.join(ctx.scratch, "stubs", n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def one(k):
        c, d = picked[k], os.path.join(ctx.scratch, "job%05d" % k)
        job = Job(ctx, c, d, random.Random(f"{ctx.seed}/{k}"), exe, turns[k][1])
        try:
            o, err = job.run()
        finally:
            shutil.rmtree(d, True)
        return {"job": c, "out": o, "_label": "job", "_replay": {"case": c, "cmd": job.cmd, "stderr": err, "number": k}}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        runs = list(ex.map(one, range(len(picked))))
    validate(ctx, "TraceJob", runs)
    ctx.notes["jobs"] = len(runs)
