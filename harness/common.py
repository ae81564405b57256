"""Shared machinery of the checks: TLC runs, trace validation, evidence, verdicts."""
import atexit
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FPFIND_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself could not do its work (exit status 2)."""


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.specdir = os.path.join(self.scratch, "spec")
        shutil.copytree(SPEC, self.specdir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.runs = 0
        self.events = 0
        self.designs = []
        self.notes = {}
        self.samples = []
        self.violations = []      # (key, reason, replay object)
        self.assumptions = []
        self._n = 0

    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough() else quick

    def path(self, name):
        self._n += 1
        return os.path.join(self.scratch, f"{self._n:04d}-{name}")

    def violation(self, reason, replay, key=None):
        self.violations.append((key or reason, reason, replay))


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = STATS.findall(out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = self.distinct = int(m.group(1))
        self.violated = re.findall(r"(?:Invariant|property|Action property|Temporal properties|Property) ?(\S*) (?:is|was|were) violated", out)
        if "Temporal properties were violated" in out:
            self.violated.append("temporal")
        self.ok = "No error has been found" in out
        self.error = None
        if not self.ok and not self.violated:
            i = out.find("Error:")
            self.error = out[i:i + 1500] if i >= 0 else out[-1500:]


def tlc(ctx, module, cfg, env=None, workers=2, args=(), timeout=800, mem="3g", parse=True):
    """Runs TLC on spec/<module>.tla with the configuration text cfg."""
    cfgpath = ctx.path(f"{module}.cfg")
    with open(cfgpath, "w") as f:
        f.write(cfg)
    meta = ctx.path("meta")
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    for k in ("JAVA_TOOL_OPTIONS",):
        e.pop(k, None)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss64m",
           f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfgpath, *args, os.path.join(ctx.specdir, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=ctx.specdir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout, p.returncode)


def cfg_with(name, **subst):
    """Text of spec/<name>.cfg with constants replaced."""
    with open(os.path.join(SPEC, name + ".cfg")) as f:
        t = f.read()
    for k, v in subst.items():
        t, n = re.subn(rf"\b{k}\s*(=|<-)\s*(\"[^\"]*\"|\{{[^}}]*\}}|\S+)", lambda m: f"{k} {v}" if v.startswith(("=", "<-")) else f"{k} = {v}", t)
        if n == 0:
            raise MachineryError(f"no constant {k} in {name}.cfg")
    return t


def design(ctx, module, cfgs, defects=(), defect_base=None, workers=2):
    """Exhaustive design checks.

    cfgs: list of (label, cfg text): TLC must find no error.
    defects: list of (label, cfg text): TLC must find a violation (the model
    has teeth).  Any deviation is a failure of the machinery, not of the code.
    """
    jobs = [(l, c, True) for l, c in cfgs] + [(l, c, False) for l, c in defects]

    def one(job):
        return job, tlc(ctx, module, job[1], workers=workers)
    with cf.ThreadPoolExecutor(max(1, NCPU // workers)) as ex:
        for (label, _, good), r in ex.map(one, jobs):
            if r.error:
                raise MachineryError(f"TLC failed on {module} {label}: {r.error}")
            if good and not r.ok:
                raise MachineryError(f"design {module} {label} violates {r.violated}:\n{r.out[-3000:]}")
            if not good and r.ok:
                raise MachineryError(f"design {module} does not notice defect {label}")
            ctx.designs.append({"module": module, "config": label,
                                "expected": "holds" if good else "violated",
                                "violated": r.violated[:1],
                                "states": r.distinct, "transitions": r.generated})
            if good:
                ctx.states += r.distinct
                ctx.transitions += r.generated


def tla_unquote(s):
    return json.loads('"' + s + '"')


def generate(ctx, module, cfg, num, depth, tag="SCHED", workers=1, seed=None):
    """Behaviours of a generator specification, printed by TLC's simulator."""
    r = tlc(ctx, module, cfg, workers=workers,
            args=["-simulate", f"num={num}", "-depth", str(depth),
                  "-seed", str(ctx.seed if seed is None else seed)])
    got = [json.loads(tla_unquote(m)) for m in
           re.findall(r'<<\s*"%s",\s*"(.*)"\s*>>' % tag, r.out)]
    if not got:
        raise MachineryError(f"generator {module} printed nothing: {r.out[-2000:]}")
    ctx.transitions += r.generated
    return got


def enumerate_states(ctx, module, cfg, tag="CASE", workers=4):
    """All cases printed by an exhaustive run of a generator specification."""
    r = tlc(ctx, module, cfg, workers=workers)
    if not r.ok:
        raise MachineryError(f"generator {module}: {r.out[-2000:]}")
    got = [json.loads(tla_unquote(m)) for m in
           re.findall(r'<<\s*"%s",\s*"(.*)"\s*>>' % tag, r.out)]
    ctx.states += r.distinct
    ctx.transitions += r.generated
    return got


END = re.compile(r'<<\s*"END",\s*(\d+),\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>')


def validate(ctx, module, runs, cfg=None, shards=None, replay=None, label=""):
    """Validates recorded runs with trace specification `module`.

    runs: list of dicts; each gets an id.  The specification prints, for every
    branch of every run, END id a b clause; a run is accepted if some branch
    has an empty clause.  Returns the list of (run, clause) rejected and
    records them as violations.
    """
    if not runs:
        return []
    cfg = cfg if cfg is not None else cfg_with(module)
    for i, r in enumerate(runs):
        r["id"] = i + 1
    shards = shards or min(NCPU, max(1, len(runs) // 25 + 1))
    parts = [runs[i::shards] for i in range(shards)]
    parts = [p for p in parts if p]

    odd = []

    def one(part):
        path = ctx.path("trace.json")
        with open(path, "w") as f:
            json.dump({"runs": [{k: v for k, v in r.items() if not k.startswith("_")} for r in part]}, f)
        r = tlc(ctx, module, cfg, env={"TRACE": path}, workers=1, mem="2g")
        os.unlink(path)
        if r.ok:
            return [r]
        # What was recorded has no value in the specification at all (an index
        # that is not there, a number beyond all bounds): find the run.
        if len(odd) >= 3:
            return []
        if "The behavior up to this point" not in r.out or "OutOfMemory" in r.out or "StackOverflow" in r.out:
            raise MachineryError(f"trace validation {module} failed: {r.error or r.out[-3000:]}")
        if len(part) == 1:
            odd.append(part[0]["id"])
            return []
        return one(part[:len(part) // 2]) + one(part[len(part) // 2:])
    verdicts = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in (r for rs in ex.map(one, parts) for r in rs):
            ctx.states += r.distinct
            ctx.transitions += r.generated
            for m in END.finditer(r.out):
                verdicts.setdefault(int(m.group(1)), []).append((m.group(4), int(m.group(2)), int(m.group(3))))
    for i in odd:
        verdicts[i] = [("the recorded run is outside of what the specification describes", 1, 1)]
    bad = []
    for r in runs:
        v = verdicts.get(r["id"])
        if not v:
            if odd:
                continue
            raise MachineryError(f"trace validation {module} gave no verdict for run {r['id']}")
        ctx.runs += 1
        ctx.events += v[0][1]
        if not any(c == "" for c, _, _ in v):
            bad.append((r, v[0][0]))
    ctx.traces += len(runs)
    for r, clause in bad:
        obj = {k: v for k, v in r.items() if k != "_replay"}
        obj["replay"] = r.get("_replay")
        key = f"{label or module}: {clause}"
        ctx.violation(clause, {"spec": module, "clause": clause, "run": obj}, key=key)
    if len(ctx.samples) < 4:
        r = min(runs, key=lambda r: len(json.dumps(r, default=str)))
        ctx.samples.append(json.loads(json.dumps({k: v for k, v in r.items() if k != "_replay"}, default=str)[:100000]) if len(json.dumps(r, default=str)) < 4000 else {"spec": module, "label": r.get("_label", "")})
    return bad


# --------------------------------------------------------------------------
# numbers for BigNum.tla
# --------------------------------------------------------------------------
def big(x):
    x = int(x) % (1 << 88)
    return [(x >> (11 * i)) & 2047 for i in range(8)]


def chars(s):
    return list(s.encode())


# --------------------------------------------------------------------------
# Python worker (the code under test runs in its own interpreter)
# --------------------------------------------------------------------------
PY = "/opt/venv/bin/python"


def py_env():
    e = dict(os.environ)
    e["PYTHONPATH"] = os.path.join(REPO, "src")
    e["MPLBACKEND"] = "Agg"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["TZ"] = e.get("VERIF_TZ", "UTC")
    return e


def call_worker(ctx, cmds, shards=None, timeout=600, script="worker.py"):
    """Runs commands (list of JSON objects) in worker processes.

    Every command yields a JSON reply: {"ok": value} or {"err": "Type: text"}
    or {"hang": true} / {"crash": status}, in the order of cmds.
    """
    if not cmds:
        return []
    shards = shards or min(NCPU, max(1, len(cmds) // 20 + 1))
    idx = [list(range(i, len(cmds), shards)) for i in range(shards)]
    replies = [None] * len(cmds)
    hung = []

    def one(ids):
        todo = list(ids)
        while todo:
            if len(hung) >= 4:
                # enough was waited for in vain
                for i in todo:
                    replies[i] = {"hang": True}
                break
            inp = ctx.path("cmds.json")
            outp = ctx.path("replies.ndjson")
            cwd = ctx.path("cwd")
            os.makedirs(cwd)
            with open(inp, "w") as f:
                json.dump([cmds[i] for i in todo], f)
            p = subprocess.Popen([PY, "-B", os.path.join(VERIF, "harness", script), inp, outp],
                                 cwd=cwd, env=dict(py_env(), PATIENCE="10" if hung else ""), stdin=subprocess.DEVNULL,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            try:
                _, err = p.communicate(timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
                rc = "timeout"
            got = []
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            for i, g in zip(todo, got):
                replies[i] = g
            rest = todo[len(got):]
            if not rest:
                break
            if rc == 0:
                raise MachineryError(f"worker stopped early: {err[-2000:]!r}")
            if rc == 3 or (not got and rc not in ("timeout",) and isinstance(rc, int) and rc > 0):
                # import failure or similar: not attributable to one command
                raise MachineryError(f"worker failed: {err.decode(errors='replace')[-3000:]}")
            replies[rest[0]] = {"hang": True} if rc in ("timeout", 14, -14) else {"crash": rc}
            if "hang" in replies[rest[0]]:
                hung.append(rest[0])
            todo = rest[1:]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, idx))
    return replies


# --------------------------------------------------------------------------
# verdict
# --------------------------------------------------------------------------
def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=\"([^\"]*)\" (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def finish(ctx, level, extra=None):
    known = [(k, t) for p, k, t in known_findings() if p == ctx.prop]
    fresh = []
    printed = set()
    for key, reason, replay in ctx.violations:
        hit = [t for k, t in known if k == key]
        if hit:
            if key not in printed:
                printed.add(key)
                print(f"KNOWN-FINDING: property={ctx.prop} {hit[0]}")
        else:
            fresh.append((key, reason, replay))
    cov = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:4] or [{"note": "none"}],
        "spec_events_checked": ctx.events,
        "design_models": ctx.designs,
    }
    cov.update(ctx.notes)
    cov.update(extra or {})
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": cov, "assumptions": ctx.assumptions,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(fresh)}
    out = os.environ.get("VERIF_EVIDENCE", VERIF)
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    with open(os.path.join(out, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        d = os.path.join(out, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, (key, reason, replay) in enumerate(fresh):
            if key in seen and i > 0:
                continue
            seen.add(key)
            path = os.path.join(d, f"{ctx.prop}-{ctx.tier}-{ctx.seed}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump({"property": ctx.prop, "reason": reason, "replay": replay}, f, default=str)
            print(f"  {reason}")
            print(f"VIOLATION property={ctx.prop} replay={os.path.relpath(path, out)}")
            if len(seen) >= 5:
                break
        print(f"{len(fresh)} violations in {ctx.traces} validated runs", file=sys.stderr)
        return 1
    print(f"OK property={ctx.prop} tier={ctx.tier} states={ctx.states} traces={ctx.traces} wall={time.time()-ctx.t0:.1f}s")
    return 0
