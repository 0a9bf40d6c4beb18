"""Parts of checks driven by the smaller machines of spec/: what TLC enumerates is replayed on the real code."""
import concurrent.futures, json, os
import vt, parts, gen
from lib import *

def model(name, module, consts=None, workers=4):
    """checks a model of a mechanism on its own: its invariants and temporal properties"""
    def part(binary, work, rep):
        variants = consts or [None]
        def one(i):
            cfg = module + ".cfg"
            if variants[i]:
                text = open(os.path.join(vt.SPEC, cfg)).read().splitlines()
                cfg = work.path("%s-%d.cfg" % (module, i))
                with open(cfg, "w") as f:
                    f.write("\n".join([("CONSTANTS " + variants[i]) if l.startswith("CONSTANTS") else l for l in text]))
            rc, out = vt.tlc(module + ".tla", cfg, work, "%s-%d" % (name, i), workers=workers)
            if rc != 0: raise vt.ToolError("the model %s does not hold:\n%s" % (module, out[-3000:]))
            return vt.stats(out)
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            res = list(ex.map(one, range(len(variants))))
        s, t = sum(d for _, d in res), sum(g for g, _ in res)
        rep.states += s; rep.transitions += t
        rep.note(name, models=len(variants), states=s)
    return part

def enumerate_(module, work, tag, env, workers=4, timeout=800):
    """the histories a machine of spec/ prints"""
    rc, out = vt.tlc(module + ".tla", module + ".cfg", work, tag, env={k: str(v) for k, v in env.items()}, workers=workers, timeout=timeout)
    if rc != 0: raise vt.ToolError("TLC failed on %s:\n%s" % (module, out[-3000:]))
    return vt.verdict_lines(out), vt.stats(out)

def case(id, decl, tpls, steps, **kw):
    pr = Printer()
    d = [dict({"alias": [], "emb": 0}, n=n, t=t, v=v) for n, t, v in decl]
    c = {"id": id, "types": gen.World().types, "decl": d, "heap": [], "tpls": [{"src": pr.stmts(a), "ast": a} for a in tpls], "steps": steps,
         "texts": [], "esc": 0, "panic": 0, "buf": 4, "cache": 0, "pool": 0, "dup": 1}
    c.update(kw)
    return c

# ---- pools -----------------------------------------------------------------
def decl1(n, t, v): return {"n": n, "t": t, "v": v, "alias": [], "emb": 0}
def pool_case(id, hist, size, panic, dup=1):
    tpl = [text("<"), ref(path("a")), ref(path("s")), sset(path("n"), chain([path("a"), li(1)], ["+"])), sset(path("a"), li(7)), ref(path("n")),
           sif([(chain([path("b"), li(0)], [">"]), [ref(call("eI", [li(-1)])), sset(path("s"), ls("failed"))])]), text(">")]
    steps, used = [], 0
    for h in hist:
        if h["op"] != "use": steps.append({"op": h["op"], "s": h["s"]})
        elif h["x"] == "reset": steps.append({"op": "reset", "s": h["s"]})
        elif h["x"] == "set":
            used += 1
            steps.append({"op": "set", "s": h["s"], "set": [decl1("a", INT, vi(used)), decl1("s", STR, vs("s%d" % used))]})
        else:
            steps += [{"op": "set", "s": h["s"], "set": [decl1("b", INT, vi(1 if h["x"] == "fail" else 0))]}, {"op": "exec", "t": 1, "s": h["s"]}]
    return case(id, [("a", INT, vi(0)), ("s", STR, vs("")), ("b", INT, vi(0))], [tpl], steps, pool=size, panic=panic, dup=dup)

def pools(binary, work, rep):
    length, sizes = (6, [0, 1]) if rep.tier == "quick" else (7, [0, 1, 2])
    hists, (g, d) = enumerate_("PoolUse", work, "pool-use", {"LENGTH": length, "HELD": 2})
    rep.states += d; rep.transitions += g
    cases = [pool_case("pool-%d-%d" % (z, i), h, z, (i + z) % 2, 1 if z == 0 or i % 4 else 3) for z in sizes for i, h in enumerate(hists)]
    for i in range(0, len(cases), 9000):
        parts.templates(binary, work, rep, "histories of holders", cases[i:i + 9000])
    rep.note("histories of holders", histories=len(hists), length=length)

def stress(binary, work, rep):
    race = vt.build(work, race=True)
    n = 24 if rep.tier == "quick" else 200
    cases = [{"kind": "poolstress", "size": [0, 1, 2, 4, 100][i % 5], "g": 2 + i % 7, "ops": 150, "seed": rep.seed * 1000 + i} for i in range(n)]
    for name, b, jobs in (("goroutines", binary, 4), ("goroutines with the race detector", race, 4)):
        res = vt.record(b, work, cases, jobs, {"GORACE": "halt_on_error=1 exitcode=66"})
        bad = []
        logs = []
        for c, r in zip(cases, res):
            o = r["obs"][0]
            if o["st"] != "ok": bad.append((c, o["st"] + ": " + o["msg"]))
            logs.append({"log": [dict(zip(("op", "g", "s", "x"), (w[0], int(w[1]), int(w[2]), w[3] if len(w) > 3 else ""))) for w in (e.split(" ", 3) for e in (o["ev"] or []))]})
        v = vt.validate("PoolTrace.tla", "PoolTrace.cfg", logs, work, "stress", 4, 1)
        rep.states += v.states; rep.transitions += v.transitions
        bad += [(c, x["what"]) for c, x in zip(cases, v.verdicts) if x["v"] == "bad"]
        for c, what in bad:
            rep.add(parts.digest([name, what[:40]]), "%s: pool of size %d shared by %d goroutines: %s" % (name, c["size"], c["g"], what[:300]), {"part": "stress", "case": c})
        rep.cases += n; rep.traces += n
        for c in cases: rep.distinct.add(parts.digest([name, c]))
        rep.note(name, runs=n, events=sum(len(l["log"]) for l in logs))

# ---- buffers ---------------------------------------------------------------
def play_buffers(binary, work, rep, name, hists):
    cases = [{"kind": "buffer", "size": h["size"], "esc": h["esc"], "ops": h["ops"]} for h in hists]
    res = vt.record(binary, work, cases)
    for c, h, r in zip(cases, hists, res):
        o = r["obs"][0]
        got = o["ev"] or []
        rep.distinct.add(parts.digest(c) if len(c["ops"]) > 5 else hash((c["size"], c["esc"], str(c["ops"]))))
        if o["st"] == "ok" and got == h["want"]: continue
        i = next((i for i in range(len(h["want"])) if i >= len(got) or got[i] != h["want"][i]), 0)
        rep.add(parts.digest([name, c["size"], c["ops"][:i + 1]]), "buffer of size %d, escaping %d, after %r: want %r got %r %s" % (
            c["size"], c["esc"], [(o_, x[:30]) for o_, x in c["ops"][:i + 1]][-6:], h["want"][i][-120:], (got[i] if i < len(got) else "")[-120:], o["msg"]), {"part": "buffer", "history": h})
    rep.cases += len(cases); rep.traces += len(cases)
    rep.note(name, histories=len(cases), operations=sum(len(c["ops"]) for c in cases))

def buffers(binary, work, rep):
    hists, (g, d) = enumerate_("Buffer", work, "buffer", {"LENGTH": 4, "DEEP": 0})
    rep.states += d; rep.transitions += g
    play_buffers(binary, work, rep, "all buffer histories of 4 operations", hists)
    n, depth = (60, 24) if rep.tier == "quick" else (1500, 40)
    rc, out = vt.tlc("Buffer.tla", "Buffer.cfg", work, "buffer-sim", {"LENGTH": str(depth), "DEEP": "1"}, workers=4,
                     extra=["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(rep.seed)])
    if rc != 0: raise vt.ToolError("TLC failed on Buffer:\n" + out[-3000:])
    play_buffers(binary, work, rep, "long buffer histories", vt.verdict_lines(out))
    lines, (g, d) = enumerate_("Digits", work, "digits", {})
    rep.states += d; rep.transitions += g
    hists = []
    for l in lines:
        for i in range(0, len(l["texts"]), 40):
            ops, want, content = [], [], ""
            for x in l["texts"][i:i + 40]:
                content += x; ops.append(["int", x]); want.append(content)
            hists.append({"size": (i * 7) % 150, "esc": 0, "ops": ops, "want": want})
    play_buffers(binary, work, rep, "digits of integers", hists)

# ---- block structure and arbitrary texts --------------------------------------
def blocks(binary, work, rep):
    lines, (g, d) = enumerate_("Blocks", work, "blocks", {"LENGTH": 6 if rep.tier == "quick" else 8})
    rep.states += d; rep.transitions += g
    cases = []
    for i, l in enumerate(lines):
        steps = [{"op": "new", "s": 1}]
        if l["ok"]:
            for k in (1, 6) if l["src"].endswith("#end") else (1, 2, 4, 5, 6, 3):
                steps += [{"op": "set", "s": 1, "set": [decl1("c%d" % (j + 1), BOOL, vb(k >> j & 1)) for j in range(3)]}, {"op": "reset", "s": 1}, {"op": "exec", "s": 1, "t": 1}]
        c = case("blocks-%d" % i, [("c%d" % j, BOOL, vb(0)) for j in (1, 2, 3)], [], steps)
        c["tpls"] = [{"src": l["src"], "ast": l["ast"]}]
        cases.append(c)
    for i in range(0, len(cases), 12000):
        parts.templates(binary, work, rep, "block structures", cases[i:i + 12000])

def compile_all(binary, work, texts, size=100):
    """how compiling each text ended: "ok", "err", or what went wrong"""
    cases = [{"kind": "compile", "texts": texts[i:i + size]} for i in range(0, len(texts), size)]
    res, out = vt.record(binary, work, cases), []
    for c, r in zip(cases, res):
        o = r["obs"][0]
        if o["st"] == "ok" and not r.get("stdout"): out += o["ev"]
        elif size > 1: out += compile_all(binary, work, c["texts"], max(1, size // 10))
        else: out.append("stdout: " + r["stdout"] if r.get("stdout") else o["st"] + ": " + o["msg"])
    return out

def soup(binary, work, rep):
    lines, (g, d) = enumerate_("Soup", work, "soup", {"LENGTH": 3, "LEAST": 1})
    rep.states += d; rep.transitions += g
    n = 300 if rep.tier == "quick" else 6000
    rc, out = vt.tlc("Soup.tla", "Soup.cfg", work, "soup-sim", {"LENGTH": "12", "LEAST": "5"}, extra=["-simulate", "num=%d" % n, "-depth", "13", "-seed", str(rep.seed)])
    if rc != 0: raise vt.ToolError("TLC failed on Soup:\n" + out[-3000:])
    for name, texts in (("texts of up to 3 pieces", lines), ("long texts", sorted(set(vt.verdict_lines(out))))):
        ends = compile_all(binary, work, texts)
        for t, e in zip(texts, ends):
            if e not in ("ok", "err"):
                rep.add(parts.digest(t), "compiling %r: %s" % (t, e[:200]), {"part": "soup", "texts": [t]})
        rep.cases += len(texts); rep.traces += len(texts); rep.distinct.update(texts)
        rep.note(name, texts=len(texts), plans=ends.count("ok"))

# ---- concurrent executions ------------------------------------------------------
def play_concurrent(binary, work, rep, name, cases, jobs=vt.CORES, again=True):
    """every execution has to be what it is alone"""
    res = vt.record(binary, work, cases, jobs, {"GORACE": "halt_on_error=1 exitcode=66"})
    solo, owner, bad = [], [], []
    for i, (c, r) in enumerate(zip(cases, res)):
        if r["obs"] and isinstance(r["obs"][0], dict):   # the process ended
            o = r["obs"][0]
            bad.append((i, o["st"] + ": " + o["msg"][:300])); continue
        for k, x in enumerate(c["runners"]):
            s = {n: v for n, v in c.items() if n not in ("runners", "schedule", "kind")}
            s.update(decl=x["decl"], heap=x["heap"], steps=x["steps"], id="%s/%d" % (c["id"], k + 1))
            solo.append(vt.merged(s, {"obs": r["obs"][k], "stdout": r.get("stdout")})); owner.append(i)
    v = vt.validate("TemplateTrace.tla", "TemplateTrace.cfg", solo, work, "conc", 3, 3)
    rep.states += v.states; rep.transitions += v.transitions
    decided = 0
    for i, x in zip(owner, v.verdicts):
        if x["v"] == "bad": bad.append((i, "%s: %s want %r got %r" % (x["id"], x["what"], x["want"][:150], x["got"][:150])))
        elif x["v"] == "unspec": rep.unspec[x["what"]] += 1
        decided += x["v"] != "unspec"
    seen = set()
    for i, what in bad:
        if i in seen: continue
        seen.add(i)
        c = cases[i]
        rep.add(parts.digest([[t["src"] for t in c["tpls"]], c["runners"], c["schedule"]]), "%s: %s in %r, schedule %r" % (name, what, [t["src"] for t in c["tpls"]], c["schedule"]),
                {"part": "concurrent", "case": c, "race": "race" in name})
    rep.cases += len(cases); rep.traces += decided
    for c in cases: rep.distinct.add(parts.digest([[t["src"] for t in c["tpls"]], c["runners"], c["schedule"]]))
    rep.note(name, cases=len(cases), executions=len(solo), decided=decided)

CONC = dict(stmts=dict(text=1, ref=5, set=4, each=1.2, eval=1, **{"if": 2, "for": .4}), calls=.45, edepth=3, depth=2, nstmts=(2, 5), tpls=(1, 3), failing=.15, builtins=.15,
            caches=[0, 0, 1, 3], conv=.2, panic=.2, types=dict(ptr=3, narrow=3, iface=2, struct=3, sptr=3, slice=4, map=3))
def executions(binary, work, rep):
    race = vt.build(work, race=True)
    n, big = (500, 1) if rep.tier == "quick" else (4000, 3)
    prof = gen.profile(**dict(CONC, runners=[2, 3, 4, 8]))
    play_concurrent(race, work, rep, "free, with the race detector", gen.cases("%s-%d" % (rep.prop, rep.seed), prof, n, "race"))
    scheds = {}
    for procs, gates in ((2, 4), (3, 2)) if rep.tier == "quick" else ((2, 6), (3, 3), (4, 2)):
        scheds[procs], (g, d) = enumerate_("Interleave", work, "interleave", {"PROCS": procs, "GATES": gates})
        rep.states += d; rep.transitions += g
    for procs in scheds:   # random templates under random schedules of the enumerated ones
        prof = gen.profile(**dict(CONC, calls=.6, runners=[procs]))
        cases = gen.cases("%s-%d" % (rep.prop, rep.seed), prof, n, "sched%d" % procs)
        for i, c in enumerate(cases): c["schedule"] = scheds[procs][(i * 7919 + rep.seed) % len(scheds[procs])]
        play_concurrent(binary, work, rep, "schedules of %d" % procs, cases)
        # a few templates under every schedule
        few = [c for c in gen.cases("%s-%d" % (rep.prop, rep.seed), prof, 200, "every%d" % procs) if sum(t["src"].count("(") for t in c["tpls"]) > 6][:6 * big]
        cases = [dict(c, schedule=s, id="%s-%d" % (c["id"], j)) for c in few for j, s in enumerate(scheds[procs])]
        play_concurrent(binary, work, rep, "every schedule of %d" % procs, cases)
