"""The script that stands in for freqcd until its first call (C32)."""
import concurrent.futures as cf
import os
import random
import re
import select
import shutil
import signal
import stat
import struct
import subprocess
import time

from common import NCPU, REPO, cfg_with, design, enumerate_states, generate, validate
from freqcd import build

NOBODY = 65534
# What a compiler may do: fail, remove what it was to write and fail, write in pieces.
WRAP = {
    "ok": 'exec /usr/bin/gcc "$@"\n',
    "fails": 'echo "gcc: error" >&2\nexit 1\n',
    "unlinks": 'rm -f "$out"\necho "ld: error" >&2\nexit 1\n',
    # once all calls of the step are compiling (none is still about to read its script, which might be replaced)
    "slow": 'mkdir "$GCC_MEET/$$"; k=0\nwhile [ $(ls "$GCC_MEET" | wc -l) -lt $GCC_CALLS ] && [ $k -lt 80 ]; do sleep 0.05; k=$((k+1)); done\n'
            't="$TMPDIR/cc.$$"\n/usr/bin/gcc "$@" -o "$t" || exit 1\nrm -f "$out" || exit 1\nhead -c 9000 "$t" > "$out" || exit 1\nsleep ${GCC_PAUSE:-0.1}\n'
            'tail -c +9001 "$t" >> "$out"\nsleep ${GCC_PAUSE:-0.1}\nchmod 755 "$out"\nrm -f "$t"\n',
}
OUT = '#!/bin/sh\nout=a.out; prev=\nfor a in "$@"; do [ "$prev" = "-o" ] && out="$a"; prev="$a"; done\n'


def toolbox(ctx):
    """Directories of tools, without and with a compiler."""
    root = os.path.join(ctx.scratch, "tools")
    none = os.path.join(root, "none")
    os.makedirs(none)
    for d in ("/usr/bin", "/usr/local/bin"):
        for n in os.listdir(d):
            if not re.search(r"gcc|g\+\+|clang|\bcc\b|c89|c99|tcc", n) and not os.path.lexists(os.path.join(none, n)):
                os.symlink(os.path.join(d, n), os.path.join(none, n))
    for k, text in WRAP.items():
        d = os.path.join(root, k)
        os.makedirs(d)
        for n in ("gcc", "cc"):
            with open(os.path.join(d, n), "w") as f:
                f.write(OUT + text)
            os.chmod(os.path.join(d, n), 0o755)
    return root


class Installed:
    """One installation in a directory of its own."""

    def __init__(self, r, top, tools, exe, user):
        self.r, self.top, self.tools, self.exe, self.user = r, top, tools, exe, user
        lib = os.path.join(top, r.choice(["lib", "lib", "li b"]))
        self.pkg = os.path.join(lib, "fpfind")
        shutil.copytree(os.path.join(REPO, "src/fpfind"), self.pkg, ignore=shutil.ignore_patterns("__pycache__", "freqcd_path"))
        self.home = r.random() < 0.12
        if self.home:
            self.bin = self.pkg
        else:
            self.bin = os.path.join(top, r.choice(["bin", "bin", "b in"]))
            os.mkdir(self.bin)
            shutil.copy2(os.path.join(self.pkg, "freqcd"), os.path.join(self.bin, "freqcd"))
        self.real = os.path.join(self.bin, "freqcd")
        os.chmod(self.real, 0o755)
        self.script = self.read(self.real)
        self.name = self.real
        if r.random() < 0.2:
            os.mkdir(os.path.join(top, "local"))
            self.name = os.path.join(top, "local", "freqcd")
            os.symlink(r.choice([self.real, os.path.relpath(self.real, os.path.join(top, "local"))]), self.name)
        os.mkdir(os.path.join(top, "tmp"))
        self.lib = lib
        self.count = 0
        if user is not None:
            for d, ds, fs in os.walk(top):
                for p in [d] + [os.path.join(d, n) for n in fs]:
                    os.lchown(p, user, user)

    def read(self, p):
        try:
            with open(p, "rb") as f:
                return f.read()
        except OSError:
            return None

    def place(self):
        b = self.read(self.name)
        if b is None or not os.access(self.name, os.X_OK):
            return "none"
        return "standin" if b == self.script else "program" if self.whole(self.name) else "none"

    def whole(self, name):
        """Is this the program?"""
        b = self.read(name)
        if b is None or b[:4] != b"\x7fELF":
            return False
        try:
            p = subprocess.run([name, "-h"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, **self.as_user())
        except (OSError, subprocess.TimeoutExpired):
            return False
        q = subprocess.run([self.exe, "-h"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return (p.returncode, p.stdout, p.stderr) == (q.returncode, q.stdout, q.stderr)

    def as_user(self):
        return {} if self.user is None else {"user": self.user, "group": self.user, "extra_groups": []}

    def shut(self, on):
        for d in {self.bin, os.path.dirname(self.name)}:
            os.chown(d, 0 if on else self.user, -1)
            os.chmod(d, 0o755)
        if os.path.exists(self.name):
            os.chown(self.name, 0 if on else self.user, -1)
            os.chmod(self.name, 0o755)

    def listing(self, d, skip=()):
        out = {}
        for n in os.listdir(d):
            p = os.path.join(d, n)
            if n not in skip:
                out[n] = self.read(p) if os.path.isfile(p) else "dir"
        return out

    def args(self, kind, d):
        """Arguments, files (in d) and input of a call."""
        r = random.Random(self.argseed)
        n = r.choice([1, 50, 2000])
        ws, t = [], 0
        for _ in range(n):
            t += r.randrange(1 << 34)
            ws.append((t << 10 | r.randrange(1024)) & (1 << 64) - 1)
        legacy = r.random() < 0.5          # in order as the program reads them
        data = struct.pack("<%dQ" % n, *([(w & 0xffffffff) << 32 | w >> 32 for w in ws] if legacy else ws))
        mods = (["-x"] if legacy else []) + r.choice([["-f", "1000"], ["-f", "-5000"], ["-df", "700"], []])
        if kind in ("pipe", "live", "term"):
            return mods, data
        if kind == "bad":
            return r.choice([["-f", "abc"], ["-i", "nowhere"], ["-F", ""], ["-h"], ["-f", "2097152"]]), data
        names = ["in", "out", "corr"]
        if kind == "odd":
            names = r.sample(["a b", "*", "$HOME", "x'y\"z", "back\\slash", "new\nline", "-dash", "; echo", "`x`", "  "], 3)
        with open(os.path.join(d, names[0]), "wb") as f:
            f.write(data)
        with open(os.path.join(d, names[2]), "wb") as f:
            f.write(b"700\n")
        if kind == "full":
            names = [os.path.join(d, x) for x in names]
        return mods + ["-i", names[0]] + r.choice([[], ["-F", names[2]]]) + r.choice([["-o", names[1]], []]), b""

    def step(self, s):
        """Calls at the same time; returns what module Standin looks at."""
        r = self.r
        if s["shut"]:
            self.shut(True)
        was = self.place()
        around = {d: set(os.listdir(d)) for d in {self.bin, self.pkg, os.path.dirname(self.name)}}
        procs = []
        meet = os.path.join(self.top, "tmp", "meet%d" % self.count)
        os.mkdir(meet)
        os.chmod(meet, 0o777)
        for k in range(s["n"]):
            self.count += 1
            self.argseed = r.random()
            w, ref = (os.path.join(self.top, "%s%d" % (x, self.count)) for x in ("work", "twin"))
            os.mkdir(w), os.mkdir(ref)
            argv, data = self.args(s["args"], w)
            argr, _ = self.args(s["args"], ref)
            if self.user is not None:
                for p in [w] + [os.path.join(w, n) for n in os.listdir(w)]:
                    os.chown(p, self.user, self.user)
            cwd = {"work": w, "bin": self.bin, "package": self.pkg, "root": "/"}[s["cwd"]]
            how = s["how"]
            tool = "slow" if s["tool"] == "ok" and (s["n"] > 1 or s["kill"]) else s["tool"]
            box = [os.path.join(self.tools, "none")] if tool == "none" else [os.path.join(self.tools, tool), os.path.join(self.tools, "none")]
            d = os.path.dirname(self.name)
            path = [d] + box
            cmd = [self.name]
            if how == "rel":
                p = os.path.relpath(self.name, cwd)
                cmd = [p if "/" in p else "./" + p]
            elif how == "sh" and was == "standin":
                cmd = ["sh", self.name]
            elif how == "path":
                cmd = ["freqcd"]
            elif how == "relpath":
                cmd, path = ["freqcd"], [os.path.relpath(d, cwd)] + box
            env = {"PATH": ":".join(path), "PYTHONPATH": r.choice([self.lib, self.lib, os.path.relpath(self.lib, cwd)]), "TMPDIR": os.path.join(self.top, "tmp"), "HOME": self.top, "LANG": "C",
                   "PYTHONDONTWRITEBYTECODE": "1", "GCC_MEET": meet, "GCC_CALLS": str(s["n"]), "GCC_PAUSE": "%.3f" % r.choice([0.02, 0.1, 0.3])}
            before = self.listing(w)
            target, goal = None, None
            if s["kind"] != "call":
                noted = self.read(os.path.join(self.pkg, "freqcd_path"))
                target = {"fresh": os.path.join(self.bin, "fre qcd"), "here": os.path.join(self.pkg, "freqcd"),
                          "compile": noted.decode().rstrip("\n") if noted and r.random() < 0.5 else self.real}[s["kind"]]
                cmd, argv, data = r.choice([["./_postinstall"], ["sh", "_postinstall"]]), [os.path.relpath(target, self.pkg) if how == "rel" else target], b""
                argv = [] if s["kind"] == "here" and r.random() < 0.5 else argv
                goal = self.read(target)
            # found by env, through the PATH of the call
            full = ["/usr/bin/env", *cmd, *argv]
            p = subprocess.Popen(full, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **self.as_user())
            q = subprocess.run([self.exe, *argr], cwd=ref if cwd == w else cwd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            procs.append((p, w, ref, argr, data, before, cwd, full, q, target, goal))
            time.sleep(r.choice([0, 0, 0.05]) if s["n"] > 1 else 0)
        outs, cmds = [], []
        with cf.ThreadPoolExecutor(len(procs)) as ex:
            if s["kill"]:
                time.sleep(r.uniform(0.02, 1.2))
                for p, *_ in procs:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass

            def talk(p, data, want):
                try:
                    if s["kind"] == "call" and s["args"] in ("live", "term") and not s["kill"]:
                        return converse(p, data, want, s["args"] == "term")
                    return p.communicate(data, timeout=20)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    return p.communicate()
            texts = list(ex.map(lambda x: talk(x[0], x[4], len(x[8].stdout)), procs))
        for (p, w, ref, argr, data, before, cwd, full, q, target, goal), (out, err) in zip(procs, texts):
            mine, theirs = self.listing(w), self.listing(ref)
            code = -signal.SIGTERM if s["args"] == "term" else q.returncode
            same, made = (p.returncode, out, mine) == (code, q.stdout, theirs), mine != before
            if target is not None:
                same, made = p.returncode == 0 and not out and self.whole(target), self.read(target) != goal
            outs.append({"same": int(same), "failed": int(p.returncode != 0), "said": int(bool(err.strip())),
                         "printed": int(bool(out)), "made": int(made)})
            cmds.append({"cmd": full[1:], "cwd": os.path.relpath(cwd, self.top), "code": p.returncode, "stderr": err[-300:].decode(errors="replace")})
            shutil.rmtree(w, True), shutil.rmtree(ref, True)
        if s["kind"] == "fresh" and os.path.exists(os.path.join(self.bin, "fre qcd")):
            os.remove(os.path.join(self.bin, "fre qcd"))
        place = self.place()
        new = set()
        for d, names in around.items():
            for n in set(os.listdir(d)) - names:
                if not (n == "freqcd_path" and d == self.pkg):
                    new.add(n)
        noted = self.read(os.path.join(self.pkg, "freqcd_path"))
        try:
            noted = int(noted is not None and os.path.samefile(noted.decode().rstrip("\n"), self.name))
        except (OSError, ValueError):
            noted = 0
        if s["shut"]:
            self.shut(False)
        kind = "compile" if s["kind"] == "here" and self.home else s["kind"]
        return {"kind": kind, "tool": s["tool"], "shut": s["shut"], "kill": s["kill"], "outs": outs, "place": place, "noted": noted, "litter": int(bool(new))}, {"calls": cmds, "new": sorted(new)}


def converse(p, data, want, term, seconds=20):
    """Events are passed on while the input stays open; then either it ends or the call is told to end."""
    out = b""
    end = time.time() + seconds
    fd = p.stdout.fileno()

    def more():
        nonlocal out
        if not select.select([fd], [], [], max(0, end - time.time()))[0]:
            return None
        b = os.read(fd, 1 << 16)
        out += b
        return b
    try:
        p.stdin.write(data)
        p.stdin.flush()
    except OSError:
        pass
    while len(out) < want and more():
        pass
    late = time.time() >= end
    if term and len(out) >= want:
        p.send_signal(signal.SIGTERM)   # to nobody if it has ended
        end = time.time() + seconds
        while more():
            pass
        late = time.time() >= end
    if late:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    rest, err = p.communicate(timeout=seconds)
    return out + rest + (b"late" if late else b""), err


def one(job):
    scratch, k, seed, history, tools, exe, user = job
    top = os.path.join(scratch, "inst%05d" % k)
    os.mkdir(top)
    rr = random.Random(f"{seed}/{k}")
    try:
        box = Installed(rr, top, tools, exe, user)
        steps, more = [], []
        for s in history:
            if s["shut"] and user is None:
                continue
            a, b = box.step(s)
            steps.append(a)
            more.append(b)
    finally:
        shutil.rmtree(top, True)
    return {"steps": steps, "_label": "history", "_replay": {"history": history, "number": k, "steps": more, "name": box.name, "real": box.real, "package": box.pkg}}


def check_C32(ctx):
    design(ctx, "MCStandin", [("2 calls", cfg_with("MCStandin"))] + ([("3 calls", cfg_with("MCStandin", Calls="{1, 2, 3}"))] if ctx.thorough() else []),
           [(d, cfg_with("MCStandin", Defect=f'"{d}"')) for d in ("inplace", "cd", "elsewhere")])
    r = ctx.rng
    single = sorted(enumerate_states(ctx, "GenStandin", cfg_with("GenStandin", Steps="1")), key=repr)
    plain = [h for h in single if h[0]["tool"] == "ok" and not h[0]["shut"] and not h[0]["kill"] and h[0]["n"] == 1]
    others = [h for h in single if h not in plain]
    long = [h for k in (1, 2) for h in generate(ctx, "GenStandin", cfg_with("GenStandin", Kills="{0}", **({"Tools": '{"ok", "fails", "unlinks"}'} if k == 1 else {})) if k == 1 else cfg_with("GenStandin"),
                                                ctx.scale(45, 450), 5, tag="CASE", seed=2 * ctx.seed + k)]
    hist = plain + r.sample(others, ctx.scale(120, len(others))) + long
    r.shuffle(hist)
    exe, _ = build(ctx)
    tools = toolbox(ctx)
    os.chmod(ctx.scratch, 0o755)
    os.chmod(exe, 0o755)
    user = NOBODY
    try:
        subprocess.run(["true"], user=user, group=user, extra_groups=[], check=True)
    except (OSError, subprocess.SubprocessError):
        user = None

    # in processes, not threads: no call starts while a file is written elsewhere
    with cf.ProcessPoolExecutor(NCPU) as ex:
        runs = list(ex.map(one, [(ctx.scratch, k, ctx.seed, h, tools, exe, user) for k, h in enumerate(hist)]))
    validate(ctx, "TraceStandin", [x for x in runs if x["steps"]])
    ctx.notes["calls"] = sum(len(s["outs"]) for x in runs for s in x["steps"])
