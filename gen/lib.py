"""Types, values, heap and AST of the cases, and the printer of template sources.

The encodings are those of spec/Values.tla and harness/values.go."""
import json, random

INTS = ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"]
def T(k): return {"k": k}
INT, STR, BOOL, F64, F32, IFACE = T("int"), T("string"), T("bool"), T("float64"), T("float32"), T("iface")
def PTR(e): return {"k": "ptr", "e": e}
def SL(e): return {"k": "slice", "e": e}
def MAP(k, e): return {"k": "map", "key": k, "e": e}
def ST(n): return {"k": "struct", "name": n}

# the named types of harness/funcs.go
NAMED = {
    "Sub": [("X", INT), ("Y", STR)],
    "Leaf": [("A", INT), ("B", STR), ("C", BOOL), ("D", F64), ("P", PTR(INT)), ("S", PTR(STR)), ("Sub", PTR(ST("Sub"))), ("L", SL(INT))],
    "Node": [("ID", INT), ("Name", STR), ("Next", PTR(ST("Node"))), ("Leaf", ST("Leaf")), ("LP", PTR(ST("Leaf"))),
             ("Kids", SL(PTR(ST("Node")))), ("Tags", SL(STR)), ("M", MAP(STR, INT))],
}
NAMED_TABLE = {n: [{"n": f, "t": t, "emb": 0, "tag": "", "names": [], "omit": 0, "prefix": ""} for f, t in fs] for n, fs in NAMED.items()}

def vi(n): return {"k": "i", "v": n}
def vbig(n): return {"k": "big", "neg": 1 if n < 0 else 0, "d": str(abs(n))}
def vint(n): return vi(n) if abs(n) < 2**30 else vbig(n)
def vf(n, e=0):
    while e > 0 and n % 2 == 0:
        n //= 2; e -= 1
    if n == 0: e = 0
    return {"k": "f", "n": n, "e": e}
def vb(b): return {"k": "b", "v": 1 if b else 0}
def vs(s): return {"k": "s", "v": s}
def vp(a): return {"k": "p", "a": a}
def vl(a, n): return {"k": "l", "a": a, "n": n}
def vm(a): return {"k": "m", "a": a}
def vst(f): return {"k": "st", "f": f}
def vif(t, v): return {"k": "if", "t": t, "v": v}
VNIL = {"k": "nil"}
NILP, NILL, NILM = vp(0), vl(0, 0), vm(0)

class World:
    """types table + heap of one case"""
    def __init__(self):
        self.types = {k: list(v) for k, v in NAMED_TABLE.items()}
        self.heap = []
    def obj(self, o):
        self.heap.append(o); return len(self.heap)
    def ptr(self, t, v): return vp(self.obj({"k": "val", "t": t, "v": v}))
    def sl(self, t, vals): return vl(self.obj({"k": "arr", "t": t, "e": list(vals)}), len(vals))
    def map(self, t, pairs): return vm(self.obj({"k": "map", "t": t, "es": [list(p) for p in pairs]}))
    def zero(self, t):
        k = t["k"]
        if k in INTS: return vi(0)
        if k in ("float64", "float32"): return vf(0)
        if k == "bool": return vb(0)
        if k == "string": return vs("")
        if k == "ptr": return NILP
        if k == "slice": return NILL
        if k == "map": return NILM
        if k == "iface": return VNIL
        if k == "struct": return vst({f["n"]: self.zero(f["t"]) for f in self.types[t["name"]]})
        raise ValueError(t)

# ---- AST -------------------------------------------------------------------
def text(s): return {"o": "text", "s": s}
def com(s): return {"o": "com", "s": s}
def ref(p, form="$"): return {"o": "ref", "e": p, "form": form}
def sset(to, e): return {"o": "set", "to": to, "e": e}
def sif(br, el=None): return {"o": "if", "br": [{"c": c, "b": b} for c, b in br], "hasel": 0 if el is None else 1, "el": el or []}
def sfor(v, e, c, pv, pop, pe, b): return {"o": "for", "v": v, "e": e, "c": c, "pv": pv, "pop": pop, "pe": pe or li(1), "b": b}
def each(v, in_, b): return {"o": "each", "v": v, "in": in_, "b": b}
def rng(a, z): return {"o": "rng", "a": a, "z": z}
def seval(e): return {"o": "eval", "e": e}
def lit(t, v): return {"o": "lit", "t": t, "v": v}
def li(n): return lit(INT, vint(n))
def ls(s): return lit(STR, vs(s))
def lb(b): return lit(BOOL, vb(b))
def lf(n, e): return lit(F64, vf(n, e))
def path(id, *st): return {"o": "path", "id": id, "st": list(st), "call": 0, "args": []}
def call(id, args, *st): return {"o": "path", "id": id, "st": list(st), "call": 1, "args": list(args)}
def f(n): return {"s": "f", "n": n}
def ix(e): return {"s": "i", "e": e}
def mc(n, *args): return {"s": "c", "n": n, "args": list(args)}
def chain(a, ops):
    return a[0] if not ops else {"o": "chain", "a": list(a), "ops": list(ops)}
def par(e): return {"o": "par", "e": e}
def neg(e): return {"o": "not", "e": e}

# ---- printer -----------------------------------------------------------------
def fmt_float(n, e):
    s = "-" if n < 0 else ""
    n = abs(n)
    ip, fr = n >> e, n & ((1 << e) - 1)
    d = ""
    while fr:
        fr *= 10
        d += str(fr >> e); fr &= (1 << e) - 1
    return s + str(ip) + "." + (d or "0")

class Printer:
    """writes the source of an AST; rnd varies the spelling where it does not matter"""
    def __init__(self, rnd=None): self.r = rnd
    def ws(self, p=0.25):
        if self.r is None or self.r.random() > p: return ""
        return self.r.choice([" ", "  ", "\t", "\n"]) if self.r.random() < 0.5 else " "
    def sp(self):
        if self.r is None: return " "
        return self.r.choice([" ", " ", " ", "  ", "", ""])
    def steps(self, st):
        o = ""
        for s in st:
            if s["s"] == "f": o += "." + s["n"]
            elif s["s"] == "i":
                x = self.expr(s["e"])
                o += "[(" + x + ")]" if x[:4] in ("true", "fals") else "[" + x + "]"  # a bare boolean is no index
            else: o += "." + s["n"] + self.args(s["args"])
        return o
    def args(self, a):
        return "(" + ("," + self.ws(0.5)).join(self.expr(x) for x in a) + ")"
    def path(self, p, form="$"):
        body = p["id"] + (self.args(p["args"]) if p["call"] else "") + self.steps(p["st"])
        if form == "$": return "$" + body
        if form == "$!": return "$!" + body
        if form == "${}": return "${" + body + "}"
        if form == "$!{}": return "$!{" + body + "}"
        raise ValueError(form)
    def lit(self, e):
        v = e["v"]
        if v["k"] == "i": return str(v["v"])
        if v["k"] == "big": return ("-" if v["neg"] else "") + v["d"]
        if v["k"] == "f": return fmt_float(v["n"], v["e"])
        if v["k"] == "b": return "true" if v["v"] else "false"
        if v["k"] == "s": return '"' + v["v"] + '"'
        raise ValueError(e)
    def expr(self, e):
        o = e["o"]
        if o == "lit": return self.lit(e)
        if o == "path": return self.path(e)
        if o == "par": return "(" + self.expr(e["e"]) + ")"
        if o == "not": return "!" + self.expr(e["e"])
        if o == "chain":
            s = self.expr(e["a"][0])
            for op, a in zip(e["ops"], e["a"][1:]):
                s += self.sp() + op + self.sp() + self.expr(a)
            return s
        raise ValueError(e)
    def kw(self, k, last=False):
        return "#" + k if self.r is None or self.r.random() > 0.08 else "#" + k
    def stmts(self, l): return "".join(self.stmt(s) for s in l)
    def stmt(self, s):
        o = s["o"]
        if o == "text": return s["s"]
        if o == "com": return "##" + s["s"] + "\n"
        if o == "raw": return "#[[" + s["s"] + "]]#"
        if o == "ref":
            # an unknown $!{x} is written back as ${x}, tests of the parser rely on it
            txt = self.path(s["e"], s["form"])
            s["src"] = "$" + txt[2:] if s["form"] == "$!{}" else txt
            return txt
        if o == "set": return "#set(" + self.ws() + self.path(s["to"]) + self.sp() + "=" + self.sp() + self.expr(s["e"]) + self.ws() + ")"
        if o == "if":
            out = ""
            for i, b in enumerate(s["br"]):
                out += ("#if" if i == 0 else "#elseif") + "(" + self.ws() + self.expr(b["c"]) + self.ws() + ")" + self.stmts(b["b"])
            if s["hasel"]:
                out += "#else" + self.stmts(s["el"])
            return out + self.end()
        if o == "for":
            post = self.path(s["pv"]) + s["pop"] + (self.expr(s["pe"]) if s["pop"] not in ("++", "--") else "")
            return "#for(" + self.path(s["v"]) + self.sp() + "=" + self.sp() + self.expr(s["e"]) + ";" + self.sp() + self.expr(s["c"]) + ";" + self.sp() + post + ")" + self.stmts(s["b"]) + self.end()
        if o == "each":
            it = s["in"]
            src = "[%d...%d]" % (it["a"], it["z"]) if it["o"] == "rng" else self.path(it)
            return "#foreach(" + self.ws() + "$" + s["v"] + " in " + src + self.ws() + ")" + self.stmts(s["b"]) + self.end()
        if o == "eval": return "#evaluate(" + self.expr(s["e"]) + ")"
        raise ValueError(s)
    def end(self):
        if self.r is not None and self.r.random() < 0.05: return "#{end}"
        return "#end"
