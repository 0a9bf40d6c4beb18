"""Runs the harness and TLC for the checks: build, record, validate, judge."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

class ToolError(Exception):
    pass

class Work:
    """scratch directory of one check, removed when it ends"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="velty-verif-")
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, *p): return os.path.join(self.dir, *p)

def build(work, race=False):
    """builds the harness from /repo's working tree; a repository that does not build is no verdict"""
    r = subprocess.run(["bash", os.path.join(ROOT, "lib", "build.sh"), work.path("bin")] + (["race"] if race else []),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout + r.stderr)
    return work.path("bin", "vharness-race" if race else "vharness")

def record(binary, work, cases, jobs=CORES, env=None):
    """what the real code shows for every case, in order"""
    i, o = work.path("in.ndjson"), work.path("out.ndjson")
    with open(i, "w") as f:
        for c in cases: f.write(json.dumps(c) + "\n")
    e = dict(os.environ, **(env or {}))
    r = subprocess.run([binary, "run", i, o, str(jobs)], capture_output=True, text=True, env=e)
    if r.returncode != 0:
        raise ToolError("harness failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
    res = [json.loads(l) for l in open(o)]
    if len(res) != len(cases):
        raise ToolError("harness answered %d of %d cases" % (len(res), len(cases)))
    return res

def norm_obs(obs):
    return [{"st": x.get("st") or "", "out": x.get("out") or "", "msg": x.get("msg") or "",
             "ev": x.get("ev") or [], "vars": x.get("vars") or []} for x in obs]

def merged(case, res):
    c = {k: v for k, v in case.items() if k not in ("kind", "meta")}
    obs = norm_obs(res["obs"])
    if res.get("stdout"):   # nothing may be written to the process output
        obs[0] = dict(obs[0], st="stdout", msg=res["stdout"][:200])
    c["obs"] = obs
    c.setdefault("texts", [])
    for d in c["decl"]:
        d.setdefault("alias", []); d.setdefault("emb", 0)
    for s in c["steps"]:
        s.setdefault("set", []); s.setdefault("t", 0); s.setdefault("s", 1)
        for d in s["set"]:
            d.setdefault("alias", []); d.setdefault("emb", 0)
    return c

def tlc(module, cfg, work, tag, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """one TLC run; returns its standard output, raises ToolError unless it finished or found a violation"""
    meta = work.path("tlc-" + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + tag)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr

STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

ESC = {"n": "\n", "r": "\r", "t": "\t", "f": "\f"}
def unquote(line):
    """the string of a line TLC printed for a string value"""
    return re.sub(r'\\(["\\nrtf])', lambda m: ESC.get(m.group(1), m.group(1)), line[1:-1])

def verdict_lines(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(unquote(line)[2:]))
    return res

class Validation:
    def __init__(self):
        self.verdicts = []; self.states = 0; self.transitions = 0; self.errors = []

def validate(module, cfg, cases, work, tag="v", jobs=4, workers=2, heap="3g", timeout=800, var="CASES", depth=0):
    """validates cases with their observations in parallel TLC processes; verdicts in the order of the cases"""
    v = Validation()
    if not cases: return v
    jobs = max(1, min(jobs, len(cases)))
    parts = [list(range(i, len(cases), jobs)) for i in range(jobs)]
    def one(n):
        p = work.path("%s-%d.ndjson" % (tag, n))
        with open(p, "w") as f:
            for i in parts[n]: f.write(json.dumps(cases[i], ensure_ascii=True) + "\n")
        rc, out = tlc(module, cfg, work, "%s-%d" % (tag, n), {var: p}, workers, heap, timeout)
        os.unlink(p)
        return rc, out
    with ThreadPoolExecutor(jobs) as ex:
        results = list(ex.map(one, range(jobs)))
    v.verdicts = [None] * len(cases)
    failed = []
    for n, (rc, out) in enumerate(results):
        g, d = stats(out)
        v.states += d; v.transitions += g
        if rc != 0: failed.append((n, out)); continue
        for x in verdict_lines(out):
            v.verdicts[parts[n][x["i"] - 1]] = x
    for n, out in failed:
        lines = out.splitlines()
        first = next((i for i, l in enumerate(lines) if l.startswith("Error:")), 0)
        msg = "TLC reported an error on %s-%d:\n%s" % (tag, n, "\n".join(lines[first:first + 6] + ["..."] + [l for l in lines if not re.match(r"\d+\. Line|State \d|/\\", l)][-25:]))
        if depth >= 5 or var != "CASES" or "Error:" not in out: raise ToolError(msg)
        if len(parts[n]) == 1:   # beyond the arithmetic of TLC: outside of the specification
            c = cases[parts[n][0]]
            if not re.search(r"Error: (Overflow|Attempted to compute)", out): raise ToolError(msg)
            print("outside of TLC's arithmetic: " + c["id"])
            v.verdicts[parts[n][0]] = {"i": 1, "id": c["id"], "v": "unspec", "what": "arithmetic of TLC", "want": "", "got": "", "at": 0, "k": 0, "ex": 0}
            continue
        sub = validate(module, cfg, [cases[i] for i in parts[n]], work, "%s-%d" % (tag, n), 6, 1, heap, timeout, var, depth + 1)
        v.states += sub.states; v.transitions += sub.transitions
        for i, x in zip(parts[n], sub.verdicts): v.verdicts[i] = x
    missing = [i for i, x in enumerate(v.verdicts) if x is None]
    if missing:
        raise ToolError("TLC gave no verdict for %d of %d cases, first %s" % (len(missing), len(cases), cases[missing[0]].get("id")))
    return v
