"""Random cases: declared variables with values, templates as syntax trees, steps.

The generator knows types (so that most of what it writes compiles) but nothing of the results: these come from the
specification alone. A profile weights what a property is about."""
import copy, json, random
from lib import *

# signatures, the same as in spec/Funcs.tla
I, S, B, F = INT, STR, BOOL, F64
U8 = T("uint8")
def _l(t): return SL(t)
SIG = {
    "pI": ([I], I), "pS": ([S], S), "pB": ([B], B), "pF": ([F], F), "fssb": ([S, S], B), "fsss": ([S, S], S), "fsi": ([S], I),
    "fssi": ([S, S], I), "fsb": ([S], B), "fssii": ([S, S, I], I), "fsssb": ([S, S, S], B), "fssss": ([S, S, S], S), "fssl": ([S, S], _l(S)),
    "fssib": ([S, S, I], B), "fsis": ([S, I], S), "fsiis": ([S, I, I], S), "fIib": ([_l(I), I], B), "fBbb": ([_l(B), B], B),
    "fFfb": ([_l(F), F], B), "fSsb": ([_l(S), S], B), "fIIb": ([_l(I), _l(I)], B), "fBBb": ([_l(B), _l(B)], B), "fFFb": ([_l(F), _l(F)], B),
    "fSSb": ([_l(S), _l(S)], B), "fIii": ([_l(I), I], I), "fBib": ([_l(B), I], B), "fFif": ([_l(F), I], F), "fSis": ([_l(S), I], S),
    "fIb": ([_l(I)], B), "fBb": ([_l(B)], B), "fFb": ([_l(F)], B), "fSb": ([_l(S)], B), "fIi": ([_l(I)], I), "fBi": ([_l(B)], I),
    "fFi": ([_l(F)], I), "fSi": ([_l(S)], I), "fUub": ([_l(U8), U8], B), "fUUb": ([_l(U8), _l(U8)], B), "fUiu": ([_l(U8), I], U8), "fUb": ([_l(U8)], B),
    "fss": ([S], S), "fii": ([I], I), "fiii": ([I, I], I), "ffff": ([F, F], F), "ff": ([F], F), "fbs": ([B], S), "fis": ([I], S), "ffs": ([F], S),
    "fisbf": ([I, S, B, F], S), "fisbfi": ([I, S, B, F, I], S), "fi8i64s": ([T("int8"), T("int64")], S), "fu16f32s": ([T("uint16"), F32], S),
    "fany": ([IFACE], S), "fany2": ([IFACE, IFACE], S), "eI": ([I], I), "eS": ([S], S), "eB": ([B, S], B),
    "fmk": ([I], PTR(ST("Leaf"))), "fmv": ([I], ST("Leaf")), "fli": ([I], _l(I)), "fz": ([], S), "fvar": ([S, "..."], S),
}
NS = {
    "strings": {"ToLower": ([S], S), "ToUpper": ([S], S), "ReplaceAll": ([S, S, S], S), "HasSuffix": ([S, S], B), "HasPrefix": ([S, S], B), "Index": ([S, S], I), "LastIndex": ([S, S], I),
                "Fields": ([S], _l(S)), "Split": ([S, S], _l(S)), "TrimSpace": ([S], S), "Trim": ([S, S], S), "Length": ([S], I), "In": ([_l(S), S], B)},
    "math": {"Round": ([F], F), "Ceil": ([F], F), "Floor": ([F], F), "Abs": ([F], F), "Sqrt": ([F], F), "Pow": ([F, F], F), "Min": ([F, F], F), "Max": ([F, F], F)},
    "strconv": {"Itoa": ([I], S), "Atoi": ([S], I), "ParseFloat": ([S], F), "ParseBool": ([S], B), "ParseUint": ([S], T("uint64")), "AsFloat": ([IFACE], F)},
    "slices": {"Length": ([IFACE], I), "StringAt": ([_l(S), "at"], S), "IntAt": ([_l(I), "at"], I), "BoolAt": ([_l(B), "at"], B), "FloatAt": ([_l(F), "at"], F), "ReverseStrings": ([_l(S)], _l(S)),
               "ReverseInts": ([_l(I)], _l(I)), "ReverseFloats": ([_l(F)], _l(F))},
    "types": {"IsInt": ([IFACE], B), "IsFloat64": ([IFACE], B), "IsString": ([IFACE], B), "IsBool": ([IFACE], B)},
    "errors": {"Raise": ([S], S), "RegisterError": ([S], S), "AssertInt": ([I], B), "AssertFloat": ([F], B), "AssertString": ([S], B), "AssertBool": ([B], B), "AssertWithMessage": ([B, S], B)},
    "maps": {"Has": (["map", "key"], B), "Get": (["map", "key"], IFACE), "GetInt": (["map", "key"], I), "GetFloat": (["map", "key"], F), "GetBool": (["map", "key"], B), "GetString": (["map", "key"], S)},
    "json": {"Marshal": ([IFACE], S)},
}
MAPS_OF = {"GetInt": "int", "GetFloat": "float64", "GetBool": "bool", "GetString": "string"}
METHODS = {"Sub": {"Val": ([I], I, 0), "Ptr": ([I], I, 1)},
           "Leaf": {"Join": ([S, I], S, 0), "PJoin": ([S], S, 1), "Get": ([], ST("Sub"), 0), "Fail": ([I], I, 1), "Six": ([I] * 5, S, 0), "Var": (["..."], S, 0)},
           "Node": {"Hop": ([I], PTR(ST("Node")), 1)}}
PREC = {"||": 0, "&&": 1, "==": 2, "!=": 2, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5}

def key(t): return json.dumps(t, sort_keys=True)
def teq(a, b): return key(a) == key(b)
def deref(t):
    while t["k"] == "ptr": t = t["e"]
    return t
NUMS = INTS + ["float64", "float32"]
PRIMS = NUMS + ["bool", "string"]

DEFAULT = dict(pool=None, runners=None, 
    nvars=(4, 9), types=dict(int=5, string=4, bool=3, float64=3, narrow=3, ptr=3, slice=4, map=3, struct=3, sptr=4, iface=1, gen=0),
    stmts=dict(text=3, com=0.3, raw=0.2, ref=5, set=3, **{"if": 2, "for": 0.6, "each": 1.2, "eval": 0}),
    nstmts=(2, 6), depth=3, edepth=3, err=0.015, oob=0.03, undef=0.04, calls=0.12, failing=0.05, big=0.04,
    esc=0.15, panic=0.15, bufs=[0, 1, 7, 64, 1024], caches=[0, 0, 1, 3], tpls=(1, 1), execs=(1, 1), forms=[("$", 6), ("$!", 1), ("${}", 2), ("$!{}", 1)],
    strings="plain", ptrcmp=0.05, embed=0.0, alias=0.1, conv=0.15, evals=0, builtins=0.03,
)
def profile(**kw):
    p = copy.deepcopy(DEFAULT)
    for k, v in kw.items():
        if isinstance(v, dict) and isinstance(p.get(k), dict): p[k].update(v)
        else: p[k] = v
    return p

PLAIN = ["", "a", "str", "Bob", "x y", "12", "-7", "0", "007", "true", "false", "1.5", "bad", "badly", "key", "a", "b", "z9", "A-b_c", "+3", "1e3", " 5"]
MARKUP = ["<b>", "a&b", "\"q\"", "it's", "<a href='x'>y</a>", "&amp;", "<<>>", "&", "'", "x<y", "&#39;", "\xc3\xa9", "1<2&3>2", "\xe9\xff", "\xe2\x82\xac<\xe2\x82"]
DIRECTIVE = ["$x", "#if", "$v1", "#end", "##c", "${", "$", "#", "#set($q=1)", "line\nline", "tab\t", "\\", "#[[r]]#"]
TEXTS = [" ", "\n", "abc", "x", "<p>", "</p>", "a.b", ", ", ";", "- ", "(1)", "[z]", "&amp;", "\"q\"", "'", "$ ", "# -", "$5,", "#1 ", "{$}", "\t", "\xe9\xff", "100%",
         "end", "if(", "a=b", "/*c*/", "C:\\d", "}{", "$$ ", "#$ ", "select * from t where a > 1 and b < 2", "0123456789" * 7]
IDSTART = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789.[("

INTS_RANGE = {"int8": (-2**7, 2**7 - 1), "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "int": (-2**63, 2**63 - 1), "int64": (-2**63, 2**63 - 1),
              "uint8": (0, 2**8 - 1), "uint16": (0, 2**16 - 1), "uint32": (0, 2**32 - 1), "uint": (0, 2**64 - 1), "uint64": (0, 2**64 - 1)}
class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.w = World()
        self.decl, self.env, self.texts = [], [], []
        self.protected = set()
        self.counter, self.loop = 0, 0
        self.extra = {}
        self.strs = list(PLAIN)
        if prof["strings"] in ("markup", "all"): self.strs += MARKUP * (3 if prof["strings"] == "markup" else 1)
        if prof["strings"] == "all": self.strs += DIRECTIVE
        self.byType = {}

    # ---- helpers
    def chance(self, p): return self.r.random() < p
    def weighted(self, d):
        items = [(k, w) for k, w in (d.items() if isinstance(d, dict) else d) if w > 0]
        return self.r.choices([k for k, _ in items], [w for _, w in items])[0]
    def fresh(self, prefix="w"):
        self.counter += 1
        return "%s%d" % (prefix, self.counter)

    # ---- types and values
    def prim(self):
        return T(self.weighted({"int": 5, "string": 4, "bool": 3, "float64": 3, "float32": 1, "int64": 1, "uint8": 1, "int8": .5, "int16": .5, "int32": .7, "uint": .5, "uint16": .5, "uint32": .5, "uint64": .5}))
    def rtype(self, depth=2, comp=True):
        k = self.weighted(self.p["types"])
        r = self.r
        if k in ("int", "string", "bool", "float64"): return T(k)
        if k == "narrow": return T(r.choice(["int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32"]))
        if k == "ptr": return PTR(self.prim())
        if k == "iface": return IFACE
        if k == "struct": return ST(r.choice(["Sub", "Leaf", "Node"]))
        if k == "sptr": return PTR(ST(r.choice(["Sub", "Leaf", "Node"])))
        if k == "gen":
            t = ST(self.gentype()); return PTR(t) if self.chance(0.5) else t
        if depth <= 0: return self.prim()
        if k == "slice":
            return SL(self.elem(depth - 1))
        return MAP(self.weighted([(STR, 5)] + [(INT, 3)] + [(T("int64"), .7), (U8, .5), (T("int32"), .5), (T("uint16"), .3), (F64, .4), (BOOL, .3)]) if False else self.mapkey(), self.elem(depth - 1))
    def mapkey(self):
        return T(self.weighted({"string": 5, "int": 3, "int64": .8, "uint8": .5, "int32": .5, "uint16": .3, "float64": .5, "bool": .3, "uint64": .3, "int8": .3}))
    def elem(self, depth):
        r = self.r.random()
        if r < 0.45: return self.prim()
        if r < 0.6: return PTR(ST(self.r.choice(["Sub", "Leaf", "Node"])))
        if r < 0.72: return ST(self.r.choice(["Sub", "Leaf"]))
        if r < 0.78: return IFACE
        if r < 0.84: return PTR(self.prim())
        return self.rtype(depth)
    def gentype(self, depth=2, used=None):
        """a generated struct type: tags, several names, omitted fields, embedded structs with prefix"""
        name = "G%d" % (len([k for k in self.w.types if k.startswith("G")]) + 1)
        used = set() if used is None else used
        self.w.types[name] = None
        fs, r = [], self.r
        n = r.randint(1, 5)
        def newname(pool):
            for _ in range(30):
                c = r.choice(pool) + (str(r.randint(1, 3)) if self.chance(0.4) else "")
                if c not in used:
                    used.add(c); return c
            self.counter += 1
            c = "Z%d" % self.counter
            used.add(c); return c
        for _ in range(n):
            fn = newname(["Id", "Name", "Val", "Next", "Ptr", "Cnt", "Foo", "Bar", "Qty", "Sum"])
            kind = self.weighted({"plain": 4, "names": 2.5, "omit": .8, "emb": 1.2 if depth > 0 else 0})
            if kind == "emb":
                inner_used = set()
                self.counter += 1
                fn = "Em%d" % self.counter   # a name of its own, like that of a type
                prefix = self.r.choice(["", "", "P_", "X", "Em"])
                if prefix:
                    self.counter += 1
                    prefix += str(self.counter)
                en = self.gentype(depth - 1, inner_used if prefix else used)
                if prefix: used |= {prefix + x for x in inner_used}
                t = PTR(ST(en)) if self.chance(0.4) else ST(en)
                fs.append({"n": fn, "t": t, "emb": 1, "tag": 'velty:"prefix=%s"' % prefix if prefix else "", "names": [], "omit": 0, "prefix": prefix})
                continue
            t = self.weighted([(lambda: self.prim(), 5), (lambda: PTR(self.prim()), 1), (lambda: SL(self.prim()), 1), (lambda: ST("Sub"), .7), (lambda: PTR(ST("Leaf")), .7),
                               (lambda: MAP(STR, INT), .5)] + ([(lambda: ST(self.gentype(0)), 1), (lambda: PTR(ST(self.gentype(0))), 1)] if depth > 0 else []))()
            if kind == "plain": fs.append({"n": fn, "t": t, "emb": 0, "tag": "", "names": [], "omit": 0, "prefix": ""})
            elif kind == "omit": fs.append({"n": fn, "t": t, "emb": 0, "tag": 'velty:"-"', "names": [], "omit": 1, "prefix": ""})
            else:
                names = [newname(["alpha", "ID", "NAME", "key", "First", "cnt"]) for _ in range(r.choice([1, 1, 2, 3]))]
                tag = ('velty:"names=%s"' % "|".join(names)) if len(names) > 1 or self.chance(0.5) else 'velty:"name=%s"' % names[0]
                fs.append({"n": fn, "t": t, "emb": 0, "tag": tag, "names": names, "omit": 0, "prefix": ""})
        self.w.types[name] = fs
        return name

    def rint(self, k="int"):
        r = self.r
        lo, hi = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767), "uint16": (0, 65535), "uint32": (0, 2**32 - 1), "int32": (-2**31, 2**31 - 1),
                  "uint": (0, 2**64 - 1), "uint64": (0, 2**64 - 1)}.get(k, (-2**63, 2**63 - 1))
        if self.chance(self.p["big"]):
            return r.choice([x for x in [lo, hi, hi - 1, 2**31, -2**31, 2**32, 2**53, 99999, 100000, 999999999, 1000000, 65536, -65537, -100000, 123456789, 2**30 - 1] if lo <= x <= hi])
        if self.chance(0.7): n = r.randint(-3, 12)
        else: n = r.choice([99, 100, 101, 127, 128, 200, 255, 256, 999, 1000, -10, -99, -128])
        return min(max(n, lo), hi)
    def rstr(self): return self.r.choice(self.strs)
    def rfloat(self):
        if self.chance(.1): return self.r.choice([(1, 14), (-5, 18), (1, 20), (3, 24), (1048577, 20), (-12345, 13)])
        return self.r.choice([(0, 0), (1, 0), (3, 1), (5, 1), (-3, 1), (1, 2), (7, 2), (1, 3), (10, 0), (-2, 0), (25, 3), (1, 1), (100, 0), (12345, 4), (3, 5), (-1, 1), (2, 0), (3, 0)])
    def value(self, t, depth=3):
        k, r = t["k"], self.r
        if k in INTS: return vint(self.rint(k))
        if k in ("float64", "float32"): return vf(*self.rfloat())
        if k == "bool": return vb(self.chance(0.5))
        if k == "string": return vs(self.rstr())
        pool = self.byType.setdefault(key(t), [])
        if k == "ptr":
            if self.chance(0.25 if depth > 0 else 0.8): return NILP
            if pool and self.chance(0.25): return r.choice(pool)
            v = self.w.ptr(t["e"], self.value(t["e"], depth - 1)); pool.append(v); return v
        if k == "slice":
            if self.chance(0.08 if depth > 0 else 0.6): return NILL
            if pool and self.chance(0.15): return r.choice(pool)
            v = self.w.sl(t["e"], [self.value(t["e"], depth - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4]))])
            if self.chance(.25): v = vl(v["a"], r.randint(0, v["n"]))   # with capacity left
            pool.append(v); return v
        if k == "map":
            if self.chance(0.08 if depth > 0 else 0.6): return NILM
            if pool and self.chance(0.15): return r.choice(pool)
            es, seen = [], set()
            for _ in range(r.choice([0, 1, 2, 3])):
                kv = self.mapkeyvalue(t["key"])
                if key(kv) in seen: continue
                seen.add(key(kv)); es.append((kv, self.value(t["e"], depth - 1)))
            v = self.w.map(t, es); pool.append(v); return v
        if k == "iface":
            if self.chance(0.15): return VNIL
            it = self.weighted([(INT, 3), (STR, 3), (BOOL, 1), (F64, 1), (SL(INT), 1), (SL(STR), 1), (MAP(STR, INT), 1), (MAP(STR, IFACE) if depth > 1 else STR, .7),
                                (SL(IFACE) if depth > 1 else INT, .7), (ST("Sub"), .7), (T("int64"), .5), (U8, .3)]) if False else self.r.choice(
                [INT, INT, STR, STR, BOOL, F64, SL(INT), SL(STR), MAP(STR, INT), SL(IFACE) if depth > 1 else INT, MAP(STR, IFACE) if depth > 1 else STR, ST("Sub"), T("int64"), U8])
            return vif(it, self.value(it, depth - 1))
        if k == "struct":
            return vst({f["n"]: self.value(f["t"], depth - 1) for f in self.w.types[t["name"]]})
        raise ValueError(t)
    def mapkeyvalue(self, kt):
        k = kt["k"]
        if k == "string": return vs(self.r.choice(["a", "b", "c", "key", "1", "", "x y"]))
        if k == "bool": return vb(self.chance(0.5))
        if k in ("float64", "float32"): return vf(*self.r.choice([(1, 0), (2, 0), (3, 1), (0, 0)]))
        if k not in ("int8", "uint8", "int16", "uint16") and self.chance(.2):
            wide = [2**30, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**40, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1, -2**31, -2**32, -2**63, 2**32 + 7]
            lo, hi = {"int32": (-2**31, 2**31 - 1), "uint32": (0, 2**32 - 1), "uint": (0, 2**64 - 1), "uint64": (0, 2**64 - 1)}.get(k, (-2**63, 2**63 - 1))
            return vint(self.r.choice([x for x in wide if lo <= x <= hi]))
        return vi(self.r.choice([0, 1, 2, 3, 5, 7, 10, 100]))

    # ---- declared variables
    def declare(self, t, name=None, alias=None):
        n = name or "v%d" % (len(self.decl) + 1)
        v = self.value(t)
        self.decl.append({"n": n, "t": t, "v": v, "alias": alias or [], "emb": 0})
        for x in [n] + (alias or []): self.env.append({"id": x, "t": t, "v": v})
        return n
    def visible(self, tn, v):
        """(name, type, value) of the fields a path can name"""
        out = []
        for f in self.w.types[tn]:
            fv = v["f"].get(f["n"]) if v and v["k"] == "st" else None
            if f["omit"]: continue
            if f["emb"]:
                it = f["t"]; iv = fv
                if it["k"] == "ptr":
                    it = it["e"]; iv = self.follow(iv)
                out += [(f["prefix"] + n, t2, v2) for n, t2, v2 in self.visible(it["name"], iv)]
            elif f["names"]: out += [(n, f["t"], fv) for n in f["names"]]
            else: out.append((f["n"], f["t"], fv))
        return out
    def follow(self, v):
        if v is None or v.get("k") != "p" or v["a"] == 0: return None
        return self.w.heap[v["a"] - 1]["v"]
    def setup(self):
        p, r = self.p, self.r
        if self.chance(p["embed"]):
            used = set()
            tn = self.gentype(2, used)
            t = ST(tn)
            v = self.value(t)
            self.decl.append({"n": "", "t": t, "v": v, "alias": [], "emb": 1})
            for n, ft, fv in self.visible(tn, v): self.env.append({"id": n, "t": ft, "v": fv})
        for t in [INT, STR, BOOL, F64]: self.declare(t)
        for _ in range(r.randint(*p["nvars"])):
            self.declare(self.rtype(), None, [self.fresh("al") for _ in range(r.choice([1, 2]))] if self.chance(p["alias"]) else None)

    # ---- paths
    def index(self, n, depth):
        """an index expression, mostly within n"""
        r = self.r
        hi = max(0, (n or 1) - 1)
        if self.chance(self.p["oob"]): return li(r.choice([-1, (n or 0), (n or 0) + 1, 1000]))
        if n == 0: return li(0)
        i = r.randint(0, hi)
        c = r.random()
        if c < 0.5 or depth <= 0: return li(i)
        if c < 0.7:
            j = r.randint(0, 3)
            return chain([li(i + j), li(j)], ["-"]) if self.chance(0.5) else chain([li(i - j), li(j)], ["+"])
        if c < 0.85:
            for e in self.r.sample(self.env, min(4, len(self.env))):
                if e["v"] is not None and e["t"]["k"] in INTS and e["v"]["k"] == "i" and 0 <= e["v"]["v"] <= hi: return path(e["id"])
            return li(i)
        if c < 0.9: return ls(str(i))
        if c < 0.94: return lf(i, 0)
        if c < 0.97: return lb(i == 1) if i < 2 else li(i)
        return self.path_to(lambda t: t["k"] in INTS or (t["k"] == "ptr" and t["e"]["k"] in INTS), depth - 1) or li(i)
    def mapindex(self, t, v, depth):
        keys = [kv[0] for kv in self.w.heap[v["a"] - 1]["es"]] if v and v["k"] == "m" and v["a"] else []
        kv = self.r.choice(keys) if keys and self.chance(0.75) else self.mapkeyvalue(t["key"])
        k = t["key"]["k"]
        c = self.r.random() if depth > -2 else .5
        if k == "string":
            if depth <= -2: return ls(kv["v"] if "\"" not in kv["v"] else "a")
            if "\"" in kv["v"] or c < 0.25:
                e = self.path_to(lambda x: x["k"] == "string" or (x["k"] == "ptr" and x["e"]["k"] == "string"), depth - 1)
                if e: return e
            if c < 0.32 and kv["v"]: return chain([ls(kv["v"][:1]), ls(kv["v"][1:])], ["+"])
            if c < 0.37: return self.expr_num(depth - 1)[0]
            return ls(kv["v"])
        if k == "bool": return lb(kv["v"] == 1) if c < 0.7 else self.expr(lambda t: t["k"] == "bool", depth - 1)[0]
        if k in ("float64", "float32"): return lf(kv["n"], kv["e"]) if c < 0.8 else li(kv["n"])
        if kv["k"] == "big" or c < .1:   # held by a variable of some width
            n = int(kv["d"]) * (-1 if kv["neg"] else 1) if kv["k"] == "big" else kv["v"]
            c = self.r.random()
            if kv["k"] == "big" and c < .2 and -2**63 <= n < 2**63: return li(n)
            kinds = [x for x in INTS if INTS_RANGE[x][0] <= n <= INTS_RANGE[x][1]]
            name = "k%d" % (len(self.decl) + 1)
            self.decl.append({"n": name, "t": T(self.r.choice(kinds)), "v": kv, "alias": [], "emb": 0})
            self.env.append({"id": name, "t": self.decl[-1]["t"], "v": kv}); self.protected.add(name)
            return path(name)
        if c < 0.55: return li(kv["v"])
        if c < 0.6: return li(kv["v"] + self.r.choice([256, -256, 65536, -1, -70000]))
        if c < 0.75:
            e = self.path_to(lambda x: x["k"] in INTS or (x["k"] == "ptr" and x["e"]["k"] in INTS), depth - 1)
            if e: return e
        if c < 0.85: return chain([li(kv["v"] - 1), li(1)], ["+"])
        if c < 0.9: return lf(kv["v"], 0)
        if c < 0.93: return ls(str(kv["v"]))
        return li(kv["v"])
    def walk(self, ok, depth, mc_ok=True, target=False):
        r = self.r
        e = r.choice(self.env)
        t, v, st = e["t"], e["v"], []
        for _ in range(5):
            if ok(t) and (not target or st or e["id"] not in self.protected) and self.chance(0.65): return e["id"], st, t, v
            d = deref(t)
            dv = v
            tt = t
            while tt["k"] == "ptr":
                dv = self.follow(dv); tt = tt["e"]
            afterCall = bool(st) and st[-1]["s"] == "c"
            if d["k"] == "struct":
                ms = METHODS.get(d["name"], {})
                if mc_ok and ms and depth > -2 and self.chance(self.p["calls"]) and (t["k"] == "struct" or t["k"] == "ptr"):
                    n = r.choice(list(ms))
                    sig, out, pm = ms[n]
                    if (pm and t["k"] != "ptr" and not self.chance(self.p["err"])) or (t["k"] == "ptr" and dv is None and not (d["name"] == "Sub" and n == "Ptr")): continue
                    st.append(mc(n, *self.args(sig, depth - 1))); t, v = out, None
                    continue
                if afterCall and not self.chance(self.p["err"]): return None
                fs = self.visible(d["name"], dv)
                if not fs: return None
                if self.chance(self.p["err"]): st.append(f("Nope")); t, v = INT, None; continue
                n, t, v = r.choice(fs)
                st.append(f(n))
            elif t["k"] == "slice":
                n = v["n"] if v and v["k"] == "l" else None
                if n == 0 and not self.chance(0.05): return None
                ix_e = self.index(n, depth - 1)
                st.append(ix(ix_e))
                v = self.w.heap[v["a"] - 1]["e"][ix_e["v"]["v"]] if n and ix_e["o"] == "lit" and ix_e["t"] == INT and ix_e["v"]["k"] == "i" and 0 <= ix_e["v"]["v"] < n else None
                t = t["e"]
            elif t["k"] == "map":
                st.append(ix(self.mapindex(t, v, depth - 1))); t, v = t["e"], None
            elif t["k"] == "iface" and v and v["k"] == "if" and v["t"]["k"] in ("slice", "map"):
                if v["t"]["k"] == "slice":
                    if v["v"]["n"] == 0: return None
                    st.append(ix(self.index(v["v"]["n"], depth - 1)))
                else: st.append(ix(self.mapindex(v["t"], v["v"], depth - 1)))
                v = None
            else: break
        if ok(t) and (not target or st or e["id"] not in self.protected): return e["id"], st, t, v
        return None
    def path_to(self, ok, depth, mc_ok=True):
        r = self.path_typed(ok, depth, mc_ok)
        return r and r[0]
    def path_typed(self, ok, depth, mc_ok=True, target=False):
        for _ in range(14):
            x = self.walk(ok, depth, mc_ok and depth > -2, target)
            if x: return path(x[0], *x[1]), x[2]
        return None

    # ---- calls
    def args(self, sig, depth):
        r, out = self.r, []
        for t in sig:
            if t == "...":
                out += [self.arg(INT, depth) for _ in range(r.choice([0, 0, 1, 2, 3]))]
            else: out.append(self.arg(t, depth))
        if self.chance(self.p["err"] * 1.5):
            if out and self.chance(0.5): out.pop()
            else: out.append(li(1))
        return out
    def arg(self, t, depth):
        k = t["k"]
        if self.chance(self.p["err"]): return self.anyexpr(depth)[0]
        if k in NUMS:
            if self.chance(0.7): return self.expr(lambda x: x["k"] == k, depth, k)[0] if k in ("int", "float64") else (self.path_to(lambda x: x["k"] == k, depth) or li(self.r.randint(0, 9)))
            return self.expr_num(depth)[0]
        if k == "iface": return self.anyexpr(depth)[0]
        if k in ("string", "bool"): return self.expr(lambda x: x["k"] == k, depth, k)[0]
        return self.path_to(lambda x: teq(x, t), depth) or self.anyexpr(depth)[0]
    def builtin(self, ok, depth):
        """a call of a function of a namespace, or HasKey of a map, IndexBy of a slice"""
        r = self.r
        all_ = [(ns, n) for ns in NS for n in NS[ns] if ok(NS[ns][n][1]) and (ns != "errors" or self.chance(0.5)) and (ns, n) != ("errors", "Raise")]
        all_ += [("", "HasKey")] * 4 if ok(B) else []
        all_ += [("", "IndexBy")] * 2 if ok(IFACE) else []
        if not all_: return None
        ns, n = r.choice(all_)
        if ns == "":
            if n == "HasKey":
                x = self.path_typed(lambda t: t["k"] == "map", 0)
                if not x or x[0]["st"] and x[0]["st"][-1]["s"] == "c": return None
                a = [self.mapindex(x[1], None, depth - 1)] if not self.chance(self.p["err"]) else self.args([IFACE], 0)
                return path(x[0]["id"], *x[0]["st"], mc(n, *a)), B
            x = self.path_typed(lambda t: t["k"] == "slice" and deref(t["e"])["k"] == "struct", 0)
            if not x or x[0]["st"] and x[0]["st"][-1]["s"] == "c": return None
            fs = self.w.types[deref(x[1]["e"])["name"]]
            fl = r.choice([fl for fl in fs if fl["t"]["k"] in PRIMS] or fs)
            return path(x[0]["id"], *x[0]["st"], mc(n, ls(r.choice([fl["n"]] + fl["names"]) if self.chance(0.9) else "Nope"))), IFACE
        sig, out = NS[ns][n]
        if n == "Raise" and not self.chance(self.p["failing"]): return None
        a = []
        for i, t in enumerate(sig):
            if t == "at": a.append(self.index(2, 0) if not self.chance(.2) else self.arg(I, depth - 1))
            elif t == "map":
                want = MAPS_OF.get(n)
                e = self.path_typed(lambda t: t["k"] == "map" and (want is None or t["e"]["k"] in (want, "iface") or self.chance(.1)), 0)
                if not e: return None
                a.append(e[0]); mt = e[1]
            elif t == "key": a.append(self.mapindex(mt, None, depth - 1) if not self.chance(.05) else self.anyexpr(0)[0])
            elif t == S and n in ("Atoi", "ParseFloat", "ParseBool", "ParseUint") and self.chance(.6):
                a.append(ls(r.choice(["1", "12", "-7", "0", "+3", "1.5", "-2.25", "0.1", ".5", "3.", "true", "F", "T", "false", "", "x", "1 2", "12a", "1e3", "007", "--1", "99999", "1,5"])))
            elif t == S and ns == "strings" and self.chance(.5): a.append(ls(r.choice(["a", "b", " ", "", "ab", "x y", " a b ", "Ab", "o", "-", "aXbXc", "aa", "aaa", "A-b_c", "tab\t", "ZZ"])))
            elif t == F and self.chance(.5): a.append(lf(*r.choice([(1, 1), (3, 1), (-3, 1), (5, 1), (-1, 1), (7, 2), (9, 2), (1, 2), (4, 0), (2, 0), (-25, 3), (16, 0)])))
            else: a.append(self.arg(t, depth - 1))
        if self.chance(self.p["err"]): a = a[:-1] if self.chance(.5) else a + [li(1)]
        return path(ns, mc(n if not self.chance(self.p["err"] / 4) else "Nope", *a)), out
    def callx(self, ok, depth):
        if self.chance(self.p["builtins"]):
            x = self.builtin(ok, depth)
            if x: return x
        names = [n for n in SIG if ok(SIG[n][1]) and (n[0] != "e" or self.chance(0.6)) and n not in self.p.get("nofuncs", ())]
        if not names: return None
        # functions whose arguments can be built
        for _ in range(6):
            n = self.r.choice(names)
            sig, out = SIG[n]
            if n[0] == "e" or n == "fvar" or all(t == "..." or t["k"] in PRIMS + ["iface"] or self.path_to(lambda x: teq(x, t), 0) for t in sig):
                a = self.args(sig, depth - 1)
                if n == "eI" and a and self.chance(self.p["failing"]): a[0] = li(-self.r.randint(1, 9))
                if n in ("eS", "eB") and a and self.chance(self.p["failing"]): a[-1] = ls(self.r.choice(["bad", "bad news"]))
                return call(n, a), out
        return None

    # ---- expressions: trees of (op, left, right) flattened with the parentheses that are needed
    def flat(self, n):
        if n[0] == "leaf": return [n[1]], []
        _, op, l, rr = n
        def side(c, right):
            if c[0] == "leaf": return [c[1]], []
            need = PREC[c[1]] <= PREC[op] if right else PREC[c[1]] < PREC[op]
            if need or self.chance(0.08):
                a, o = self.flat(c)
                return [par(chain(a, o))], []
            return self.flat(c)
        la, lo = side(l, False)
        ra, ro = side(rr, True)
        return la + ra, lo + [op] + ro
    def tree(self, n):
        a, o = self.flat(n)
        e = chain(a, o)
        return par(e) if self.chance(0.04) and o else e
    def num(self, depth):
        """tree with a numeric value and whether it is a float"""
        r = self.r
        c = r.random()
        if depth <= 0 or c < 0.35:
            e, t = self.leaf_num(depth)
            return ("leaf", e), t
        op = r.choice("+-*+-*/")
        l, lt = self.num(depth - 1)
        if op == "/" and self.chance(0.93):
            rr, rt = ("leaf", li(r.choice([1, 2, 2, 3, 4, 5, 7, -2]))), INT
            if lt["k"] == "float64": rr = ("leaf", li(r.choice([1, 2, 4, 8, -2])))
        else: rr, rt = self.num(depth - 1)
        return ("bin", op, l, rr), (F64 if "float64" in (lt["k"], rt["k"]) else INT)
    def leaf_num(self, depth):
        r = self.r
        c = r.random()
        if c < 0.35: return (li(self.rint()), INT) if self.chance(0.75) else (lf(*self.rfloat()), F64)
        if c < 0.35 + self.p["calls"] and depth > 0:
            x = self.callx(lambda t: t["k"] in ("int", "float64", "uint8"), depth)
            if x: return x[0], F64 if x[1]["k"] == "float64" else INT
        x = self.path_typed(lambda t: t["k"] in NUMS, depth)
        if x: return x[0], F64 if x[1]["k"] in ("float64", "float32") else INT
        return li(self.rint()), INT
    def expr_num(self, depth):
        n, t = self.num(min(depth, self.p["edepth"]))
        return self.tree(n), t
    def strtree(self, depth):
        r = self.r
        c = r.random()
        if depth <= 0 or c < 0.6: return ("leaf", self.leaf_str(depth))
        if self.chance(0.6): return ("bin", "+", self.strtree(depth - 1), self.strtree(depth - 1))
        n, _ = self.num(depth - 1)
        return ("bin", "+", n, self.strtree(depth - 1)) if self.chance(0.5) else ("bin", "+", self.strtree(depth - 1), n)
    def leaf_str(self, depth):
        c = self.r.random()
        if c < 0.3:
            s = self.rstr()
            if "\"" not in s and "\\" not in s and "$" not in s and "#" not in s: return ls(s)
        if c < 0.4 + self.p["calls"] and depth > 0:
            x = self.callx(lambda t: t["k"] == "string", depth)
            if x: return x[0]
        return self.path_to(lambda t: t["k"] == "string", depth) or ls("lit")
    def booltree(self, depth):
        r = self.r
        if self.chance(self.p["ptrcmp"]): return self.ptrcmp(depth)
        c = r.random()
        if depth <= 0 or c < 0.3: return ("leaf", self.leaf_bool(depth))
        if c < 0.55:
            return ("bin", r.choice(["&&", "||"]), self.booltree(depth - 1), self.booltree(depth - 1))
        if c < 0.8: return ("bin", r.choice(["==", "!=", "<", "<=", ">", ">="]), self.num(depth - 1)[0], self.num(depth - 1)[0])
        if c < 0.87: return ("bin", r.choice(["==", "!="]), self.strtree(depth - 1), self.strtree(depth - 1))
        if c < 0.91: return ("bin", r.choice(["==", "!="]), self.booltree(depth - 1), self.booltree(depth - 1))
        return self.ptrcmp(depth)
    def ptrcmp(self, depth):
        r = self.r
        a = self.path_typed(lambda t: t["k"] == "ptr" and t["e"]["k"] in PRIMS, depth, False)
        if not a: return ("leaf", self.leaf_bool(depth))
        k = a[1]["e"]["k"]
        ops = ["==", "!="] if k in ("string", "bool") else ["==", "!=", "<", "<=", ">", ">="]
        c = r.random()
        b = None
        if c < 0.5: b = self.path_to(lambda t: teq(t, a[1]), depth, False)
        if b is None:
            if k == "string": b = self.leaf_str(0)
            elif k == "bool": b = self.leaf_bool(0)
            else: b = self.leaf_num(0)[0]
        l, rr = ("leaf", a[0]), ("leaf", b)
        return ("bin", r.choice(ops), l, rr) if self.chance(0.6) else ("bin", r.choice(ops), rr, l)
    def leaf_bool(self, depth):
        c = self.r.random()
        if c < 0.15: return lb(self.chance(0.5))
        if c < 0.2 + self.p["calls"] and depth > 0:
            x = self.callx(lambda t: t["k"] == "bool", depth)
            if x: return x[0]
        if c < 0.45 and depth > 0:
            x = self.path_to(lambda t: t["k"] == "bool", depth)
            if x and self.chance(0.6): return neg(x)
            a, o = self.flat(self.booltree(depth - 1))
            return neg(par(chain(a, o)))
        return self.path_to(lambda t: t["k"] == "bool", depth) or lb(True)
    def expr(self, ok, depth, k=None):
        depth = min(depth, self.p["edepth"])
        if self.chance(self.p["err"]): return self.illtyped(depth), INT
        if ok(INT) and ok(F64): n, t = self.num(depth); return self.tree(n), t
        if ok(STR): return self.tree(self.strtree(depth)), STR
        if ok(BOOL): return self.tree(self.booltree(depth)), BOOL
        if ok(INT):
            for _ in range(8):
                n, t = self.num(depth)
                if t["k"] == "int": return self.tree(n), INT
            return li(self.rint()), INT
        if ok(F64):
            for _ in range(8):
                n, t = self.num(depth)
                if t["k"] == "float64": return self.tree(n), F64
            return lf(*self.rfloat()), F64
        x = self.path_typed(ok, depth)
        return x if x else (li(1), INT)
    def anyexpr(self, depth):
        c = self.r.random()
        if c < 0.25: return self.expr_num(depth)
        if c < 0.45: return self.tree(self.strtree(min(depth, self.p["edepth"]))), STR
        if c < 0.65: return self.tree(self.booltree(min(depth, self.p["edepth"]))), BOOL
        x = self.path_typed(lambda t: True, depth)
        return x if x else (li(1), INT)
    def illtyped(self, depth):
        a, _ = self.anyexpr(depth - 1)
        b, _ = self.anyexpr(depth - 1)
        c = self.r.random()
        if c < 0.1: return path("nope%d" % self.r.randint(1, 9))
        mk = lambda e: par(e) if e["o"] == "chain" else e
        if c < 0.2 and mk(a)["o"] in ("path", "par"): return neg(mk(a))
        return chain([mk(a), mk(b)], [self.r.choice(list(PREC))])

    # ---- statements
    def block(self, depth, n=None):
        out = []
        for _ in range(self.r.randint(*self.p["nstmts"]) if n is None else n):
            w = dict(self.p["stmts"])
            if depth <= 0: w.update({"if": 0, "for": 0, "each": 0})
            s = getattr(self, "s_" + self.weighted(w))(depth)
            if s is None: continue
            for x in (s if isinstance(s, list) else [s]):
                out.append(x)
        return self.fix(out)
    def fix(self, out):
        """keeps literal text apart from what precedes it"""
        res = []
        for s in out:
            if s["o"] == "text":
                prev = res[-1] if res else None
                t = s["s"]
                if prev is not None and prev["o"] == "text":
                    prev["s"] += (" " if prev["s"][-1:] in "$#" else "") + t; continue
                if prev is not None and prev["o"] == "ref" and prev["form"] in ("$", "$!") and t[:1] in IDSTART: s = text(" " + t)
            res.append(s)
        return res
    def s_text(self, depth): return text(self.r.choice(TEXTS))
    def s_com(self, depth): return com(self.r.choice([" comment", "", " $v1 #if #end", "#", " #set($v1 = 1)", " \xe9 \" '"]))
    def s_raw(self, depth): return raw_(self.r.choice(["raw $v1", "#if(x) #end", "", "#set($q = 1)", "a # b $ c", "]]", "<b>'&"]))
    def s_ref(self, depth):
        form = self.weighted(self.p["forms"])
        c = self.r.random()
        if c < self.p["undef"]:
            return ref(path("u%d" % self.r.randint(1, 5), *([f("X")] if self.chance(0.3) else [])), form)
        if c < self.p["undef"] + self.p["calls"]:
            x = self.callx(lambda t: True, self.p["edepth"])
            if x:
                p, t = x
                if t["k"] == "ptr" and self.chance(0.5): return None
                return ref(p, form)
        p = self.path_to(lambda t: True, self.p["edepth"])
        return p and ref(p, form)
    def define(self, id, t):
        for e in self.env:
            if e["id"] == id: e["v"] = None; return
        self.env.append({"id": id, "t": t, "v": None})
    def paths(self, e):
        """the number of paths in an expression, twice for a function that can repeat its argument"""
        if isinstance(e, list): return sum(self.paths(x) for x in e)
        if not isinstance(e, dict): return 0
        n = (2 if e.get("id") in ("strings", "json") else 1) if e.get("o") == "path" else 0
        return n + sum(self.paths(x) for x in e.values())
    def s_set(self, depth):
        """an assignment; in a loop no text that can double with every iteration"""
        s = self.s_assign(depth)
        if s and self.loop and not self.numeric(s["e"]) and self.paths(s["e"]) > 1: return None
        return s
    def numeric(self, e):
        """without any string in it: such a value does not grow"""
        if isinstance(e, list): return all(self.numeric(x) for x in e)
        if not isinstance(e, dict): return True
        if e.get("o") == "lit": return e["t"]["k"] != "string"
        if e.get("o") == "path" and e["call"] and not e["st"] and e["id"] in SIG: return SIG[e["id"]][1]["k"] in NUMS + ["bool"]
        if e.get("o") == "path":
            x = next((x for x in self.env if x["id"] == e["id"]), None)
            if x is None or x["t"]["k"] in ("string", "iface", "map", "slice", "ptr", "struct"): return False
        return all(self.numeric(x) for x in e.values())
    def s_assign(self, depth):
        r = self.r
        c = r.random()
        if c < 0.4:
            known = [e for e in self.env if e["id"].startswith("w")]
            e, t = self.anyexpr(self.p["edepth"])
            if known and self.chance(0.3):
                k = r.choice(known)
                if k["id"] in self.protected: return None
                e, t2 = self.source(k["t"])
                k["v"] = None
                return sset(path(k["id"]), e)
            n = self.fresh()
            s = sset(path(n), e)
            self.env.append({"id": n, "t": t if e["o"] != "chain" or t["k"] in PRIMS else t, "v": None})
            return s
        x = self.path_typed(lambda t: t["k"] in PRIMS or self.chance(0.3), 1, False, True)
        if not x: return None
        p, t = x
        if p["st"] and ("Node" in key(t) or "iface" in key(t)): return None   # no cycles
        e, _ = self.source(t)
        for en in self.env:
            if en["id"] == p["id"] and not p["st"]: en["v"] = None
        return sset(p, e)
    def source(self, t):
        k = t["k"]
        if k in PRIMS and self.chance(self.p["conv"]):
            x = self.path_typed(lambda x: x["k"] in PRIMS or (x["k"] == "ptr" and x["e"]["k"] in PRIMS), 1) if self.chance(0.5) else None
            return x or self.anyexpr(self.p["edepth"])
        if k in NUMS: return self.expr_num(self.p["edepth"])
        if k in ("string", "bool"): return self.expr(lambda x: x["k"] == k, self.p["edepth"])
        x = self.path_typed(lambda x: teq(x, t), 1)
        return x or (self.path_typed(lambda x: True, 1) or (li(1), INT))
    def cond(self):
        if self.chance(0.7): return self.expr(lambda x: x["k"] == "bool", self.p["edepth"])[0]
        x = self.path_to(lambda t: not (t["k"] == "ptr" and t["e"]["k"] == "ptr"), self.p["edepth"])
        if x and self.chance(0.85): return x
        return self.anyexpr(self.p["edepth"])[0]
    def s_if(self, depth):
        n = self.weighted({1: 5, 2: 3, 3: 1.5, 4: .5})
        br = []
        for _ in range(n):
            c = self.cond()
            br.append((c, self.block(depth - 1, self.r.choice([0, 1, 1, 2, 2, 3]))))
        el = self.block(depth - 1, self.r.choice([0, 1, 2])) if self.chance(0.5) else None
        if el and el[0]["o"] == "text" and el[0]["s"].startswith("if("): el[0]["s"] = " " + el[0]["s"]
        return sif(br, el)
    def s_for(self, depth):
        r = self.r
        n = self.fresh("j")
        up = self.chance(0.7)
        a, z = r.randint(-2, 3), r.choice([0, 1, 2, 3, 3, 4])
        step = r.choice([1, 1, 1, 2])
        self.env.append({"id": n, "t": INT, "v": None})
        self.protected.add(n)
        if up:
            c = chain([path(n), li(a + z * step)], [r.choice(["<", "<", "<=", "!="])]); pop, pe = ("++", None) if step == 1 and self.chance(0.7) else ("+=", li(step))
        else:
            c = chain([path(n), li(a - z * step)], [r.choice([">", ">", ">=", "!="])]); pop, pe = ("--", None) if step == 1 and self.chance(0.7) else ("-=", li(step))
        if self.chance(0.15): c = chain([c["a"][0], c["a"][1], self.leaf_bool(0)], [c["ops"][0], "&&"])
        if self.chance(0.07) and a >= 1: c = chain([path(n), li(a * 8)], ["<"]); pop, pe = "*=", li(2)
        self.loop += 1
        b = self.block(depth - 1, r.choice([0, 1, 2, 3]))
        self.loop -= 1
        return sfor(path(n), li(a), c, path(n), pop, pe, b)
    def s_each(self, depth):
        r = self.r
        if self.chance(0.25):
            a = r.randint(-3, 4); z = a + r.randint(-4, 4)
            it, et, item = rng(a, z), INT, None
        else:
            x = self.path_typed(lambda t: t["k"] == "slice", 1)
            if not x:
                return None if self.chance(0.9) else each(self.fresh("e"), path("u1"), [])
            it, et = x[0], x[1]["e"]
        known = [e["id"] for e in self.env if e["id"].startswith("e") and teq(e["t"], et)]
        n = r.choice(known) if known and self.chance(0.3) else self.fresh("e")
        self.define(n, et)
        self.loop += 1
        b = self.block(depth - 1, r.choice([1, 2, 3]))
        self.loop -= 1
        if self.chance(0.6): b = self.fix([ref(path(n)), text(",")] + b)
        return each(n, it, b)
    def s_eval(self, depth):
        r = self.r
        known = [d for d in self.decl if d["n"].startswith("t")]
        if known and self.chance(0.4): n = r.choice(known)["n"]
        else:
            c = r.random()
            st, src, ast = "ok", "", []
            if c < 0.1:
                st, src = "cerr", r.choice(["#if($v1)x", "a#end", "#foreach($q in $v1", "#if(", "#else", "#elseif($v1)", "#set($v1 = $nope)", "#if($v3 == )x#end"][:7])
                if src in ("#foreach($q in $v1", "#if(", "#set($v1 = $nope)"): src = "b#end"
            else:
                env, prot = copy.deepcopy(self.env), set(self.protected)
                save, self.p = self.p, dict(self.p, err=self.p["err"] * 2, nstmts=(1, 3))
                self.loop += 1
                ast = self.block(min(1, depth))
                self.loop -= 1
                self.env, self.protected, self.p = env, prot, save
                src = Printer(self.r).stmts(ast)
            n = "t%d" % (sum(d["n"].startswith("t") for d in self.decl) + 1)
            self.texts.append({"src": src, "st": st, "ast": ast})
            v = vs(src)
            self.decl.append({"n": n, "t": STR, "v": v, "alias": [], "emb": 0})
            self.env.append({"id": n, "t": STR, "v": v})
            self.protected.add(n)
        c = r.random()
        if c < 0.8: return seval(path(n))
        if c < 0.9: return seval(call("pS", [path(n)]))
        return seval(chain([path(n), ls("")], ["+"]))

    # ---- a case
    def case(self, id):
        p, r = self.p, self.r
        self.setup()
        tpls = []
        pr = Printer(self.r)
        for _ in range(r.randint(*p["tpls"])):
            ast = self.block(p["depth"])
            tpls.append({"src": pr.stmts(ast), "ast": ast})
        steps = self.steps(len(tpls))
        if p["runners"]: self.extra = {"kind": "conc", "runners": self.runners(r.choice(p["runners"]), len(tpls)), "schedule": []}
        return {**self.extra, "id": id, "types": self.w.types, "decl": self.decl, "heap": self.w.heap, "tpls": tpls, "steps": steps, "texts": self.texts,
                "esc": int(self.chance(p["esc"])), "panic": int(self.chance(p["panic"])), "buf": r.choice(p["bufs"]), "cache": r.choice(p["caches"]), "pool": r.choice(p["pool"] or [0]), "dup": r.choice([1, 1, 2, 3, 4]) if p["pool"] else 1}
    def variant(self):
        """other values of the declared variables, with a heap of their own; texts to evaluate stay"""
        w, by, self.w, self.byType = self.w, self.byType, World(), {}
        self.w.types = w.types
        decl = [d if d["n"].startswith("t") else dict(d, v=self.value(d["t"])) for d in self.decl]
        heap, self.w, self.byType = self.w.heap, w, by
        return {"decl": decl, "heap": heap}
    def runners(self, n, tpls):
        out = []
        for _ in range(n):
            v = self.variant()
            steps = [{"op": "new", "s": 1}]
            for _ in range(self.r.randint(1, 3)):
                c = self.r.random()
                if c < .15: steps += self.set_step(1)
                elif c < .3: steps.append({"op": "reset", "s": 1})
                steps.append({"op": "exec", "s": 1, "t": self.r.randint(1, tpls)})
            out.append(dict(v, steps=steps))
        return out
    def set_step(self, s):
        ds = [d for d in self.decl if not d["emb"] and d["t"]["k"] in ("int", "string", "bool", "float64") and not d["n"].startswith("t")]
        if not ds: return []
        d = self.r.choice(ds)
        return [{"op": "set", "s": s, "set": [{"n": d["n"], "t": d["t"], "v": self.value(d["t"]), "alias": [], "emb": 0}]}]
    def pool_steps(self, n):
        """a history of holders of the states of a pool"""
        r, out, held, h = self.r, [], [], 0
        for _ in range(r.randint(4, 16)):
            c = r.random()
            if not held or (len(held) < 4 and c < .3):
                h += 1; held.append(h); out.append({"op": "get", "s": h})
                if self.chance(.5): out.append({"op": "set", "s": h, "set": [d for d in self.decl if not d["emb"]]})
            elif c < .55: out.append({"op": "put", "s": held.pop(r.randrange(len(held)))})
            elif c < .58: out.append({"op": "gc", "s": 1})
            elif c < .65: out.append({"op": "reset", "s": r.choice(held)})
            elif c < .75: out += self.set_step(r.choice(held))
            else: out.append({"op": "exec", "t": r.randint(1, n), "s": r.choice(held)})
        return out
    def steps(self, n):
        r = self.r
        if self.p["pool"]: return self.pool_steps(n)
        out, states = [{"op": "new", "s": 1}], [1]
        k = r.randint(*self.p["execs"])
        while k > 0:
            c = r.random()
            s = r.choice(states)
            if c < 0.55 or len(out) == 1: out.append({"op": "exec", "t": r.randint(1, n), "s": s}); k -= 1
            elif c < 0.75: out.append({"op": "reset", "s": s})
            elif c < 0.87: states.append(len(states) + 1); out.append({"op": "new", "s": len(states)})
            else:
                out += self.set_step(s)
        return out

def raw_(s): return {"o": "raw", "s": s}

def cases(seed, prof, n, tag="g"):
    out = []
    for i in range(n):
        name = "%s-%s-%d" % (tag, seed, i)
        for again in range(5):   # nested too deeply: another one
            try: out.append(Gen(name + "'" * again, prof).case(name)); break
            except RecursionError: pass
    return out
