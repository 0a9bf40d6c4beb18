#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough, or: check.py replay FILE

Exit 0: the property held on everything explored. Exit 1: a line "VIOLATION property=.. replay=.." was printed.
Exit 2: no verdict, the tools or the build failed."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "gen")]
sys.dont_write_bytecode = True
import vt, parts, props

FINDINGS = os.path.join(vt.ROOT, "known-findings.txt")
def findings(prop):
    res = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                res[w[2][4:]] = w[3].strip()
    return res

def run(prop, tier):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    rep = parts.Report(prop, tier, seed)
    p = props.PROPS[prop]
    with vt.Work() as work:
        binary = vt.build(work)
        for part in p["parts"]:
            t = time.time()
            part(binary, work, rep)
            print("%s: %.1f s" % (prop, time.time() - t), flush=True)
    known = findings(prop)
    os.makedirs(os.path.join(vt.EVID, "replays"), exist_ok=True)
    rc = 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    new = [x for x in rep.violations if x[0] not in known]
    for key, summary, replay in new[:10]:
        path = os.path.join(vt.EVID, "replays", "%s-%s.json" % (prop, key))
        with open(path, "w") as f: json.dump(dict(replay, property=prop, summary=summary), f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + summary.replace("\n", "\\n")[:600])
        rc = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p["level"],
          "coverage": {"states": rep.states, "transitions": rep.transitions, "traces_validated_against_impl": rep.traces,
                       "evaluations": rep.cases, "distinct_nontrivial": len(rep.distinct),
                       "rule": "an evaluation is one recorded behaviour of the real code (a template with its inputs and steps, a sequence of operations or a schedule); it counts as distinct and non trivial when the specification decided it completely and it differs from the others",
                       "parts": rep.parts, "outside_of_the_specification": dict(rep.unspec.most_common(12)), "samples": rep.samples[:12]},
          "assumptions": p.get("assumptions", []) + ["the Go toolchain and the harness of /verif/harness report what the real code did"],
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(os.path.join(vt.EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: %d behaviours, %d decided, %d states, %d violations, %.1f s" % (prop, tier, rep.cases, rep.traces, rep.states, len(new), time.time() - t0))
    return rc

def replay(path):
    r = json.load(open(path))
    rep = parts.Report(r["property"], "quick", 1)
    with vt.Work() as work:
        binary = vt.build(work)
        parts.REPLAY[r["part"]](binary, work, rep, r)
    for key, summary, _ in rep.violations:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("  " + summary)
    if not rep.violations: print("not reproduced")
    return 1 if rep.violations else 0

if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "replay" else run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except vt.ToolError as e:
        print("no verdict:", e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
