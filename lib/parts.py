"""Parts of checks. A part explores something, compares it with the specification and adds what it found to a Report."""
import collections, hashlib, json, os, subprocess
import vt, gen

class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []      # (key, summary, replay)
        self.states = self.transitions = self.traces = self.cases = 0
        self.samples, self.parts, self.unspec = [], {}, collections.Counter()
        self.distinct = set()
    def add(self, key, summary, replay):
        self.violations.append((key, summary, replay))
    def note(self, part, **kw):
        d = self.parts.setdefault(part, {})
        for k, v in kw.items():
            d[k] = d.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v

def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]

def judge(binary, work, cases, tag, jobs=3, workers=3, timeout=800):
    """records and validates: (merged cases, Validation)"""
    res = vt.record(binary, work, cases)
    ms = [vt.merged(c, r) for c, r in zip(cases, res)]
    return ms, vt.validate("TemplateTrace.tla", "TemplateTrace.cfg", ms, work, tag, jobs, workers, timeout=timeout)

def templates(binary, work, rep, name, cases):
    """template cases: recorded from the real code and validated against spec/TemplateTrace.tla"""
    ms, v = judge(binary, work, cases, name)
    rep.states += v.states; rep.transitions += v.transitions
    cnt = collections.Counter(x["v"] for x in v.verdicts)
    rejected = sum(x["v"] == "ok" and x["what"] == "rejected" for x in v.verdicts)
    execs = sum(x["ex"] for x in v.verdicts)
    bad = [i for i, x in enumerate(v.verdicts) if x["v"] == "bad"]
    if bad:   # each once more, alone
        ms2, v2 = judge(binary, work, [cases[i] for i in bad[:60]], name + "-again", 1, 2)
        for i, m, x in zip(bad, ms2, v2.verdicts):
            if x["v"] == "bad":
                rep.add(digest([c["src"] for c in m["tpls"]]), "%s: %s want %r got %r in %r" % (
                    x["id"], x["what"], x["want"][:150], x["got"][:150], [t["src"] for t in m["tpls"]]), {"part": "template", "case": cases[i], "verdict": x, "obs": m["obs"]})
    for x in v.verdicts:
        if x["v"] == "unspec": rep.unspec[x["what"]] += 1
    done = cnt["ok"] + cnt["bad"]
    rep.cases += len(cases)
    rep.traces += done
    for c, x in zip(cases, v.verdicts):
        if x["v"] != "unspec": rep.distinct.add(digest([[t["src"] for t in c["tpls"]], c["decl"], c["steps"], c["pool"], c["esc"], c["panic"], c["buf"], c["cache"]]))
    rep.note(name, cases=len(cases), executions=execs, rejected_templates=rejected, outside_of_the_specification=cnt["unspec"], decided=done)
    for m, x in list(zip(ms, v.verdicts))[:2]:
        rep.samples.append({"part": name, "templates": [t["src"] for t in m["tpls"]], "observed": [{k: o[k] for k in ("st", "out", "msg")} for o in m["obs"]][:4], "verdict": x["v"]})

def generated(binary, work, rep, name, prof, n):
    if rep.tier == "thorough": n *= 12
    done, k = 0, 0
    while done < n:
        step = min(9000, n - done)
        templates(binary, work, rep, name, gen.cases("%s-%d-%d" % (rep.prop, rep.seed, k), gen.profile(**prof), step, name))
        done += step; k += 1

def replay_stress(binary, work, rep, r):
    import machines
    machines.stress(binary, work, rep)
def replay_buffer(binary, work, rep, r):
    import machines
    machines.play_buffers(binary, work, rep, "replay", [r["history"]])
def replay_soup(binary, work, rep, r):
    import machines
    for t, e in zip(r["texts"], machines.compile_all(binary, work, r["texts"], 1)):
        if e not in ("ok", "err"): rep.add("replay", "compiling %r: %s" % (t, e), r)
def replay_concurrent(binary, work, rep, r):
    import machines
    b = vt.build(work, race=True) if r["race"] else binary
    machines.play_concurrent(b, work, rep, "replay", [dict(r["case"], id="r%d" % i) for i in range(20 if r["race"] else 1)])
REPLAY = {"concurrent": replay_concurrent, "soup": replay_soup, "stress": replay_stress, "buffer": replay_buffer, "template": lambda binary, work, rep, r: templates(binary, work, rep, "replay", [r["case"]])}
