"""What decides each property: the parts of its check."""
import parts, machines

def g(name, n, **prof):
    return lambda binary, work, rep: parts.generated(binary, work, rep, name, prof, n)

ST = lambda **kw: dict(kw, **({"if": kw.pop("iff")} if "iff" in kw else {}), **({"for": kw.pop("fors")} if "fors" in kw else {}), **({"eval": kw.pop("evals")} if "evals" in kw else {}))
def ty(**kw): return dict(dict(int=1, string=1, bool=1, float64=1, narrow=1, ptr=1, slice=1, map=1, struct=1, sptr=1, iface=1, gen=1), **kw)

MC = "model_checking"
PROPS = {
    "C01": dict(level=MC, parts=[g("texts", 2500, stmts=ST(text=8, com=3, raw=3, ref=3, set=1, iff=1, fors=.3, each=.6), nstmts=(2, 9), undef=.2, edepth=1, esc=.4)]),
    "C02": dict(level=MC, parts=[g("references", 3500, stmts=ST(text=2, ref=12, set=2, iff=.5, fors=.2, each=1), nstmts=(3, 8), depth=2, edepth=1, undef=.12, big=.3, types=ty(narrow=3, gen=2, iface=4), strings="all",
                                   forms=[("$", 3), ("$!", 2), ("${}", 2), ("$!{}", 2)], alias=.3)]),
    "C03": dict(level=MC, parts=[g("paths", 3500, stmts=ST(text=1, ref=9, set=3, iff=1, fors=0, each=1), nstmts=(3, 8), depth=2, edepth=1, types=ty(struct=4, sptr=6, gen=6, slice=2, map=2), embed=.3)]),
    "C04": dict(level=MC, parts=[g("expressions", 3500, stmts=ST(text=.3, ref=1, set=6, iff=4, fors=.3, each=.3), nstmts=(2, 5), depth=1, edepth=5, types=ty(int=3, float64=3, narrow=4, string=2, bool=2, slice=.5, map=.5, gen=0), err=.01, calls=.15)]),
    "C05": dict(level=MC, parts=[g("assignments", 3500, stmts=ST(text=.5, ref=2, set=12, iff=1, fors=.2, each=1), nstmts=(3, 9), depth=2, edepth=2, conv=.4, types=ty(gen=3, narrow=4, struct=3, sptr=3), failing=.15, execs=(1, 3), alias=.2)]),
    "C06": dict(level=MC, parts=[g("conditionals", 2500, stmts=ST(text=2, ref=2, set=1, iff=9, fors=.2, each=.5), nstmts=(1, 3), depth=4, edepth=2, calls=.25, failing=.1, types=ty(gen=.5, slice=3, map=2))]),
    "C07": dict(level=MC, parts=[g("loops", 2500, stmts=ST(text=2, ref=2, set=2, iff=1, fors=4, each=5), nstmts=(2, 5), depth=4, edepth=1, types=ty(slice=6, gen=.5, map=2)),
                                 g("blocks", 700, stmts=ST(text=5, ref=4, set=2, iff=.5, fors=.3, each=.3), nstmts=(5, 40), depth=2, edepth=1)]),
    "C08": dict(level=MC, parts=[machines.executions]),
    "C09": dict(level=MC, parts=[machines.model("algorithm", "Pool", ["Procs = {p1, p2, p3}  Size = %d  MaxStates = 4  KeepMark = %s" % x for x in ((0, "FALSE"), (1, "TRUE"), (1, "FALSE"), (2, "FALSE"))], 3),
                                 machines.pools, machines.stress,
                                 g("holders", 1200, pool=[0, 1, 2, 5], failing=.3, calls=.3, tpls=(1, 3), nvars=(2, 5), nstmts=(1, 3), panic=.4)]),
    "C10": dict(level=MC, parts=[g("evaluate", 2200, stmts=ST(text=1, ref=2, set=3, iff=1, fors=.7, each=1, evals=5), nstmts=(2, 5), depth=1, edepth=1, execs=(1, 5), tpls=(1, 3), caches=[0, 0, 1, 1, 2, 3, 8], strings="all")]),
    "C11": dict(level=MC, parts=[g("failures", 3500, stmts=ST(text=2, ref=4, set=3, iff=2, fors=.5, each=1, evals=.5), failing=.5, calls=.4, panic=.5, execs=(1, 5), conv=.3, tpls=(1, 2))]),
    "C12": dict(level=MC, parts=[g("escaping", 3500, stmts=ST(text=3, ref=8, set=1, iff=1, fors=.3, each=2, evals=1), esc=.8, strings="markup", undef=.08, calls=.2, types=ty(string=4, iface=3, gen=2), alias=.2)]),
    "C13": dict(level=MC, parts=[machines.buffers, g("sizes", 2500, stmts=ST(text=4, ref=6, set=1, iff=1, fors=1, each=2), bufs=[0, 0, 1, 2, 3, 5, 8, 13, 64, 100], execs=(1, 4), big=.2)]),
    "C14": dict(level=MC, parts=[g("names", 3500, stmts=ST(text=1, ref=8, set=4, iff=1, fors=0, each=1), nstmts=(3, 9), depth=2, edepth=1, types=ty(gen=10), embed=.6, alias=.6)]),
    "C15": dict(level=MC, parts=[g("calls", 3500, stmts=ST(text=1, ref=6, set=4, iff=2, fors=.3, each=1), calls=.7, edepth=4, depth=2, failing=.1, err=.03, types=ty(struct=3, sptr=3, slice=3, gen=.5))]),
    "C16": dict(level=MC, parts=[machines.blocks, machines.soup, g("nesting", 2500, stmts=ST(text=2, ref=1, set=.5, iff=5, fors=2, each=3), depth=6, nstmts=(1, 3), edepth=0, err=.02)]),
    "C17": dict(level=MC, parts=[g("namespaces", 3500, stmts=ST(text=.5, ref=6, set=5, iff=3, fors=.2, each=1), nstmts=(2, 6), calls=.75, builtins=.9, edepth=3, depth=2, failing=.4, err=.02, types=ty(slice=5, map=5, float64=3, string=3, iface=3, gen=.5))]),
    "C18": dict(level=MC, parts=[g("histories", 2000, stmts=ST(text=1, ref=4, set=4, iff=1, fors=.5, each=1, evals=.7), execs=(2, 8), tpls=(1, 3), failing=.2, caches=[0, 1, 3])]),
    "C19": dict(level=MC, parts=[g("pointers", 3500, stmts=ST(text=.3, ref=1, set=4, iff=6, fors=0, each=.3), nstmts=(2, 6), depth=2, edepth=2, types=dict(int=1, string=1, bool=1, float64=1, narrow=2, ptr=14, slice=1, map=0, struct=0, sptr=1, iface=0), ptrcmp=.6)]),
    "C20": dict(level=MC, parts=[g("indexes", 3500, stmts=ST(text=1, ref=8, set=4, iff=1, fors=0, each=.7), nstmts=(2, 7), depth=2, edepth=3, types=ty(slice=7, map=8, iface=4, struct=1, sptr=1, gen=.5), oob=.06)]),
}

TRACE = "TLA+ specification of the template language (Values, Funcs, Elab, Eval) checked with TLC: every recorded execution of the real code must be a behaviour of the specification (trace validation)"
NOTE = "bounded: randomly generated templates and inputs, of the shapes and sizes of the property's profile in lib/props.py; each is decided completely by the specification"
NOT_APPLICABLE = []
for _p in PROPS.values():
    _p.setdefault("technique", TRACE)
    _p.setdefault("note", NOTE)
