"""freqcd works for days: constant memory and files, asleep when idle (C37)."""
import concurrent.futures as cf
import fcntl
import os
import shutil
import struct
import subprocess
import termios
import threading
import time

from common import cfg_with, design, generate, validate
from freqcd import build

WAIT = 20
WARM = [["ev", 9000], ["part", 5], ["line", 3000], ["bad", 3000], ["long", 3000], ["ev", 9000]]
BAD = ["2097152", "-99999999999999999999", "x", "1.2.3", " ", "", "5 5", "--5", "1e3", "\0", "7\0", "9" * 98, "0x10"]


class Life:
    def __init__(self, exe, d, r, hist):
        self.d, self.r = d, r
        freq = any(s[0] in ("line", "linedrip", "bad", "long", "end") for s in hist) or r.random() < 0.5
        self.hist = [s for s in WARM if freq or s[0] in ("ev", "part")] + hist
        self.warm = len(self.hist) - len(hist)
        argv = [exe]
        if r.random() < 0.3:
            argv.append("-x")
        if r.random() < 0.5:
            argv += ["-f", str(r.randrange(-20000, 20000))]
        self.how = r.choice(["pipe", "fifo"])
        if self.how == "fifo":
            os.mkfifo(d + "/in")
            self.keep = os.open(d + "/in", os.O_RDWR)
            argv += ["-i", "in"]
        if freq:
            os.mkfifo(d + "/freq")
            argv += ["-F", "freq"]
        self.file = r.random() < 0.4 and not any(s[0] == "drip" for s in hist)
        if self.file:
            argv += ["-o", "out"]
        self.argv, self.freq, self.got, self.ff = argv, freq, 0, None

    def start(self):
        self.p = subprocess.Popen(self.argv, cwd=self.d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.fin = self.p.stdin.fileno()
        if self.how == "fifo":
            self.fin = os.open(self.d + "/in", os.O_WRONLY)
        threading.Thread(target=self.drain, daemon=True).start()
        if self.freq:
            self.ff = os.open(self.d + "/freq", os.O_WRONLY)
        if self.how == "fifo":
            # once it has its files, it alone reads the input
            self.until(lambda: self.files() >= (4 + self.freq + self.file))
            os.close(self.keep)

    def drain(self):
        while True:
            try:
                x = os.read(self.p.stdout.fileno(), 1 << 16)
            except (OSError, ValueError):
                break
            if not x:
                break
            self.got += len(x)

    def out(self):
        return os.path.getsize(self.d + "/out") if self.file and os.path.exists(self.d + "/out") else self.got

    def files(self):
        try:
            return len(os.listdir("/proc/%d/fd" % self.p.pid))
        except OSError:
            return 0

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                t = f.read().rsplit(")", 1)[1].split()
            return int(t[11]) + int(t[12])
        except OSError:
            return 0

    def memory(self):
        try:
            with open("/proc/%d/statm" % self.p.pid) as f:
                return int(f.read().split()[1]) * 4
        except OSError:
            return 0

    def left(self, fd):
        return struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0" * 4))[0]

    def until(self, cond):
        end = time.time() + WAIT
        while not cond() and time.time() < end and self.p.poll() is None:
            time.sleep(0.001)
        return cond()

    def soon(self, cond):
        end = time.time() + WAIT
        while not cond():
            time.sleep(0)
            if time.time() > end or self.p.poll() is not None:
                raise BrokenPipeError

    def put(self, fd, data):
        """Writes all, unless nobody reads."""
        end = time.time() + WAIT
        os.set_blocking(fd, False)
        while data and time.time() < end and self.p.poll() is None:
            try:
                data = data[os.write(fd, data):]
            except BlockingIOError:
                time.sleep(0.001)
            except OSError:
                break

    def live(self):
        r, sent, steps = self.r, 0, []
        self.start()
        try:
            for i, (k, n) in enumerate(self.hist):
                e = {"k": k, "n": n, "warm": int(i < self.warm), "cpu": 0, "wall": 0, "left": 0}
                if k in ("ev", "part"):
                    size = 8 * n if k == "ev" else n
                    sent += size
                    self.put(self.fin, r.randbytes(size))
                    self.until(lambda: self.out() >= sent // 8 * 8)
                elif k == "drip":
                    for _ in range(n):
                        sent += 8
                        os.write(self.fin, r.randbytes(8))
                        self.soon(lambda: self.out() >= sent // 8 * 8)
                elif k == "end":
                    os.close(self.ff)
                    self.ff = None
                    time.sleep(0.02)
                elif k == "idle":
                    time.sleep(0.02)
                    c, w = self.cpu(), time.time()
                    time.sleep(0.4)
                    e.update(cpu=self.cpu() - c, wall=int((time.time() - w) * 100))
                elif k == "linedrip":
                    for _ in range(n):
                        os.write(self.ff, b"%d\n" % r.randrange(-20000, 20000) if r.random() < 0.5 else b"bad\n")
                        self.soon(lambda: self.left(self.ff) == 0)
                    e["left"] = self.left(self.ff)
                else:
                    if k == "long":
                        data = (r.choice(["9", "x", "\0", " "]) * n).encode()
                    else:
                        data = "".join((r.choice(BAD) if k == "bad" else str(r.randrange(-20000, 20000))) + "\n" for _ in range(n)).encode()
                    self.put(self.ff, data)
                    self.until(lambda: self.left(self.ff) == 0)
                    e["left"] = self.left(self.ff)
                    self.until(lambda: self.left(self.fin) == 0)
                time.sleep(0.002)
                e.update(alive=int(self.p.poll() is None), out=self.out() // 8, memory=self.memory(), files=self.files())
                steps.append(e)
                if not e["alive"] or e["out"] != sent // 8 or e["left"]:
                    break
        except BrokenPipeError:
            e.update(alive=int(self.p.poll() is None), out=self.out() // 8, memory=0, files=0)
            steps.append(e)
        finally:
            self.p.kill()
            self.p.wait()
            for fd in [self.ff] + ([self.fin] if self.how == "fifo" else []):
                if fd is not None:
                    os.close(fd)
            self.p.stdin.close()
        return steps


def check_C37(ctx):
    design(ctx, "MCEndure", [("all arrivals", cfg_with("MCEndure", Steps=ctx.scale("5", "7")))],
           [(d, cfg_with("MCEndure", Defect=f'"{d}"')) for d in ("part", "full", "end", "leak", "reopen")])
    exe, _ = build(ctx)
    r = ctx.rng
    hist = [[["idle", 0]], [["part", 3], ["idle", 0], ["ev", 2], ["idle", 0]],
            [["line", 2], ["long", 30], ["idle", 0], ["part", 2], ["idle", 0], ["end", 0], ["idle", 0], ["ev", 60000], ["idle", 0]]]
    hist += [[["ev", 60000]] * 12 + [["idle", 0]], [["line", 20000]] * 12, [["bad", 20000]] * 12, [["long", 200000]] * 8]
    drips = [[["drip", 20000], ["idle", 0]], [["linedrip", 20000], ["idle", 0]], [["drip", 6000], ["linedrip", 6000]] * 2]
    hist = drips + hist
    for k in (6, 12, 20):
        hist += generate(ctx, "GenEndure", cfg_with("GenEndure", Steps=str(k)), ctx.scale(20, 200), k + 2, tag="CASE", seed=ctx.seed * 16 + k)
    lives = []
    for h in hist:
        d = ctx.path("life")
        os.makedirs(d)
        lives.append(Life(exe, d, __import__("random").Random(r.random()), [list(s) for s in h]))
    runs = []
    with cf.ThreadPoolExecutor(8) as ex:
        for x, steps in zip(lives, ex.map(Life.live, lives)):
            runs.append({"steps": steps, "_label": "life", "_replay": {"args": x.argv, "history": x.hist, "steps": steps}})
            shutil.rmtree(x.d, True)
    validate(ctx, "TraceEndure", runs)
    ctx.notes["events"] = sum(s["n"] for x in runs for s in x["steps"] if s["k"] in ("ev", "drip"))
    ctx.notes["idle moments"] = sum(1 for x in runs for s in x["steps"] if s["k"] == "idle")
    ctx.notes["most memory, kB"] = max(s["memory"] for x in runs for s in x["steps"])
