"""fpfind's log as an account of its search (C29)."""
import re

from common import big, cfg_with, design, validate
from clock import parsed, random_clocks, sims, tag

INT = r"(-?\d+)"
NUM = r"(-?\d+(?:\.\d+)?)"


def sc(digits):
    """A decimal as an integer number of its last digit."""
    return lambda t: int(round(float(t) * 10 ** digits))


FIELDS = {"S": ("S", sc(3)), "r": ("r", sc(0)), "dt1": ("dt1", sc(0)), "dt2": ("dt2", sc(0)), "dt": ("dt", sc(0)), "df": ("df", sc(4))}


def fields(text):
    m = re.search(r"\(([^()]*=[^()]*)\)\s*$", text)
    out = {}
    if m:
        for part in m.group(1).split(","):
            k, _, v = part.partition("=")
            n = re.match(r"\s*" + NUM, v)
            if k.strip() in FIELDS and n:
                name, f = FIELDS[k.strip()]
                out[name] = f(n.group(1))
    return out


def messages(text, mixed=False):
    """(level, message, details) of every record, in a text of other lines as well if mixed."""
    out = []
    for line in text.splitlines():
        m = re.match(r"\d{8}_\d{6}\t(\w+)\s*\t[^\t|]*\t\| (.*)$", line)
        if m:
            out.append([m.group(1), m.group(2), []])
            continue
        m = re.match(r"\s*\| (.*)$", line)
        if mixed and not m:
            continue
        if not m or not out:
            return None
        out[-1][2].append(m.group(1))
    return out


def lines(text):
    """The lines of a log that tell of the search."""
    ms = messages(text)
    if ms is None:
        return None
    out = []
    for level, msg, details in ms:
        m = re.match(r"\s*Read " + INT + " and " + INT + " events", msg)
        if m:
            g = [re.match(r"\s*(?:Reference|Compensating) timing range: \[" + NUM + ", " + NUM + r"\]s$", d) for d in details[:2]]
            z = re.match(r"\s*\(skipped " + NUM + r"s\)$", details[2]) if len(details) == 3 else None
            out.append({"k": "read", "a": int(m.group(1)), "b": int(m.group(2)), "t": [sc(2)(v) for x in g for v in x.groups()], "z": sc(2)(z.group(1))}
                       if z and all(g) else {"k": "read?"})
            continue
        m = re.match(r"\s*Required duration: " + NUM + r"s \(cross-corr " + NUM + r"s\)$", details[0] if details else "")
        if m:
            out.append({"k": "req", "need": sc(1)(m.group(1)), "cc": sc(1)(m.group(2))})
            continue
        m = re.match(r"\s*Prepared " + INT + r" precompensation", msg)
        if m:
            out.append({"k": "prep", "n": int(m.group(1))})
            continue
        if re.match(r"\s*Parameters:$", msg):
            g = re.match(r"\s*Bins: 2\^(\d+) Bin width: (\d+)ns Number of wraps: (\d+) Target resolution: (\d+)ns$", re.sub(r"\s+", " ", " ".join(details)))
            out.append({"k": "par", "p": [int(x) for x in g.groups()]} if g else {"k": "par?"})
            continue
        m = re.match(r"\s*Performing (earlier|later) xcorr \(range: \[" + NUM + ", " + NUM + r"\]s\)$", msg)
        if m:
            out.append({"k": m.group(1), "lo": sc(2)(m.group(2)), "hi": sc(2)(m.group(3))})
            continue
        m = re.match(r"\s*Applied initial " + NUM + " ppm precompensation", msg)
        if m:
            out.append({"k": "pre", "p": sc(4)(m.group(1))})
            continue
        m = re.match(r"\s*Iteration " + INT + r" \(r=" + NUM + r"ns\)", msg)
        if m:
            out.append({"k": "iter", "n": int(m.group(1)), "r": sc(1)(m.group(2))})
            continue
        m = re.match(r"\s*Peak: S = " + NUM + r", dt = " + NUM + r"ns \(resolution = " + INT + r"ns\)", msg)
        if m:
            out.append({"k": "peak", "S": sc(3)(m.group(1)), "dt": sc(0)(m.group(2)), "r": int(m.group(3))})
            continue
        m = re.match(r"\s*(Accepted|Rejected)\s*$", msg)
        if m:
            out.append({"k": m.group(1)[:3].lower()})
            continue
        if re.match(r"\s*Calculated timing delays", msg):
            l = {"k": "calc"}
            for d in details:
                m = re.match(r"\s*(early dt|late dt|accumulated dt|current df|accumulated df)\s*=\s*" + NUM + " (ns|ppm)$", d)
                if m:
                    l[{"early dt": "d1", "late dt": "d2", "accumulated dt": "acc", "current df": "df", "accumulated df": "f"}[m.group(1)]] = \
                        sc(4 if m.group(3) == "ppm" else 0)(m.group(2))
            out.append(l if len(l) == 6 == len(details) + 1 else {"k": "calc?"})
            continue
        if re.match(r"\s*Interrupted", msg):
            out.append({"k": "spur"})
            continue
        if re.match(r"\s*Returning results", msg):
            out.append({"k": "ret"})
            continue
        m = re.match(r"\s*Applied another " + NUM + " ppm", msg)
        if m:
            out.append({"k": "another", "f": sc(4)(m.group(1))})
            continue
        m = re.match(r"Peak (found|finding failed),\s*" + NUM + " ppm:", msg)
        if m:
            out.append({"k": "found" if m.group(1) == "found" else "fail", "ppm": sc(3)(m.group(2)), **fields(msg)})
            continue
        out.append({"k": "", "level": level})
    return out


def exact(f):
    return big(int(f * 2.0 ** 60 + (0.5 if f >= 0 else -0.5)))


def check_C29(ctx):
    design(ctx, "MCSearchLog", [("3 precompensations", cfg_with("MCSearchLog"))] + ([("5 precompensations", cfg_with("MCSearchLog", M="5"))] if ctx.thorough() else []),
           [(d, cfg_with("MCSearchLog", Defect=f'"{d}"')) for d in ("silent", "early", "twice", "stale", "after")])
    r = ctx.rng
    cmds = []
    for i in range(ctx.scale(40, 400)):
        style = r.choice(["plain", "scan", "scan", "short", "nothing", "noisy"])
        kw = {}
        if style == "noisy":
            kw["loss"], kw["noise"] = 0.9, 3.0
        c = random_clocks(r, **kw)
        pre, extra, full = [0.0], [], 0
        if style == "scan" or r.random() < 0.2:
            step = r.choice([1e-4, 5e-5, 2e-4, 1e-6])
            n = r.randrange(4)
            start = r.choice([0.0, 0.0, -2e-4, 3e-4, 1e-5])
            full = r.randrange(2)
            ordered = r.randrange(2)
            stop = (n + 0.5) * step + (start if ordered else 0)
            extra = ["-P", "--precomp-start=%r" % start, "--precomp-step=%r" % step, "--precomp-stop=%r" % stop]
            extra += ["--precomp-ordered"] * ordered + ["--precomp-fullscan"] * full
            m = range(n + 1) if ordered else [(-1) ** (k % 2 == 0) * ((k + 1) // 2) for k in range(2 * n + 1)]
            pre = [k * step + start for k in m]
        if style == "short":
            k = c["opts"].index("-s") + 1
            c["opts"][k] = r.choice(["0.5", "1.0", "1.25"])
        if style == "nothing":
            c["unrelated"] = 1
        thr = r.choice([6, 6, 6, 4.5, 25, 60])
        if thr != 6:
            extra += ["-S", repr(thr)]
        skip = r.choice([0, 0, 0, c["span"] * 2e-10])
        if skip:
            extra += ["-Z", repr(skip)]
        level = r.choice([0, 1, 2, 2, 2])
        o = dict(zip(c["opts"][::2], c["opts"][1::2]))
        c.update(op="log", level=level, argv=["-t", "ref", "-T", "tgt"] + c["opts"] + extra, pre=pre, full=full, thr=int(thr * 1000), old=r.randrange(3) == 0, skip=skip, q=int(o["-q"]), k=int(o["-k"]),
                 R=int(o["-R"]), r=int(o["-r"]), Ts=int(float(o["-s"]) * 8) * int(o["-R"]) * int(o["-k"]) * (1 << int(o["-q"])) // 8)
        cmds.append(c)
    runs = []
    got = list(sims(ctx, cmds))
    # thresholds next to the peaks
    near = []
    for c, o, bad in got:
        ps = [] if bad or c["level"] < 2 else [float(x) for x in re.findall(r"Peak: S = ([0-9.]+),", o["log"])]
        if ps and len(near) < ctx.scale(12, 100):
            # the threshold must leave the searches before this peak as they were
            s = r.choice(ps)
            thr = round(s + r.choice([0.002, 0.004, 0.01, 0.03, -0.002, -0.01]), 3)
            if thr > 4:
                argv = [a for i, a in enumerate(c["argv"]) if a != "-S" and (i == 0 or c["argv"][i - 1] != "-S")]
                near.append(dict(c, argv=argv + ["-S", repr(thr)], thr=int(round(thr * 1000))))
    got += list(sims(ctx, near))
    tell = sum(1 for _, o, bad in got if not bad for l in lines(o["log"]) or [] if l["k"] in ("found", "fail", "pre"))
    for c, o, bad in got:
        if bad:
            runs.append(bad)
            continue
        ls = lines(o["log"])
        v = parsed({"code": o["code"], "out": o["out"]})
        run = {"kind": "log", "fail": "" if ls is not None else "the log is damaged", "level": c["level"],
               "log": [l for l in ls or [] if l["k"]], "pre": [exact(p) for p in c["pre"]],
               "full": c["full"], "thr": c["thr"], "R": c["R"], "r": c["r"], "Ts": big(c["Ts"]), "Tm": c["Ts"] // 1000, "Ta": (c["R"] * c["k"] << c["q"]) // 1000,
               "par": [c["q"], c["R"], c["k"], c["r"]], "ev": o["ev"], "scan": int(len(c["pre"]) > 1 or "-P" in c["argv"]), "code": v["code"], "df": v["df"], "dt": 0,
               "same": int(messages(o["log"]) == messages(o["err"], mixed=True)), "out": int(o["out"] == o["plain"]["out"] and v["code"] == (o["plain"]["code"] != 0))}
        # nothing below the level asked for
        if ls and any(l["k"] == "" and {"DEBUG": 2, "INFO": 1}.get(l["level"], 0) > c["level"] for l in ls):
            run["fail"] = "messages are logged that were not asked for"
        if v["fmt"]:
            t = v["dt"]
            n = sum(x << (11 * k) for k, x in enumerate(t))
            run["dt"] = n if n < 1 << 31 else n - (1 << 88) if n > 1 << 87 else 0
        runs.append(tag(run, c, c["argv"]))
    if not tell:
        ctx.notes["log"] = "not understood"
        return
    validate(ctx, "TraceSearchLog", runs)
    ctx.notes["lines"] = sum(len(x.get("log", [])) for x in runs)
