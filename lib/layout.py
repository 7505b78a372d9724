"""Column layouts: abstract evaluation of the functions that describe a result.

Values are linear expressions over the widths of the inputs, the columns that
are being looped over and members; comparisons of such expressions split the
evaluation into the cases less / equal / greater. A loop is read once for an
arbitrary element; what it appends is kept together with the cases of that
element.
"""
from base import walk, strip, short, const_int, show

MAXP = 400


class Unreadable(Exception):
    pass


# ---------------------------------------------------------------- linear expressions
def lin(c=0, **kw):
    return {1: c} if c else {}


def atom(a):
    return {a: 1}


def add(x, y, s=1):
    r = dict(x)
    for k, v in y.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def isconst(x):
    return not x or list(x) == [1]


def key(x):
    """(canonical form, sign) of an expression up to its sign."""
    it = sorted(x.items(), key=lambda p: repr(p[0]))
    s = 1
    for k, v in it:
        if k != 1:
            s = 1 if v > 0 else -1
            break
    return tuple((k, v * s) for k, v in it), s


def text(x):
    if not isinstance(x, dict):
        return str(x)
    out = []
    for k, v in sorted(x.items(), key=lambda p: (p[0] == 1, repr(p[0]))):
        t = str(abs(v)) if k == 1 else ("" if abs(v) == 1 else "%d*" % abs(v)) + name(k)
        out.append(("-" if v < 0 else "+" if out else "") + t)
    return " ".join(out) or "0"


def name(a):
    if a[0] == "W":
        return "width(%s)" % a[1]
    if a[0] == "N":
        return "size(%s)" % a[1]
    if a[0] == "m":
        return a[1]
    if a[0] == "c":
        return "column of %s" % a[1] if isinstance(a[1], str) else "i"
    if a[0] == "cnt":
        return "count(%s[%s] %s %s)" % (a[1], a[2], {"lt": "<", "gt": ">", "eq": "=="}[a[3]], "column")
    if a[0] == "carried":
        return "position in the order of iteration"
    return str(a[1] if len(a) > 1 else a)


# ---------------------------------------------------------------- states
class St:
    def __init__(self):
        self.v, self.rel, self.b = {}, {}, {}       # variables, relations, boolean facts
        self.cols, self.types, self.vocab = None, [], []
        self.maps, self.end, self.ret = {}, None, None
        self.mem = {}
        self.trail = []

    def fork(self):
        s = St()
        s.v, s.rel, s.b = dict(self.v), dict(self.rel), dict(self.b)
        s.cols, s.types, s.vocab = self.cols, list(self.types), list(self.vocab)
        s.maps = {k: (b, list(w)) for k, (b, w) in self.maps.items()}
        s.end, s.ret, s.mem, s.trail = self.end, self.ret, dict(self.mem), list(self.trail)
        return s

    def simp(self, x):
        """Applies the equalities that hold on this path (widths only)."""
        for k, r in self.rel.items():
            if r != "eq":
                continue
            d = dict(k)
            for a, c in d.items():
                if a != 1 and a[0] in ("W", "N") and c == 1 and a in x and len(d) <= 2 and all(b == 1 or b == a for b in d):
                    f = x[a]
                    x = add(x, d, -f)
                    break
        return x


class Ev:
    """Evaluates methods of one operation class."""

    def __init__(self, prog, cls):
        self.prog, self.cls, self.n, self.depth = prog, cls, 0, 0
        self.family = {cls} | set(prog.bases(cls))

    def fresh(self):
        self.n += 1
        return self.n

    # ---- entry points
    def run(self, f, args=(), base=None, selfv=("self",)):
        s = base.fork() if base else St()
        s.end = s.ret = None
        return self.call(f, list(args), s, selfv)

    def call(self, f, args, s, selfv=("self",)):
        if self.depth > 6:
            raise Unreadable("nesting of calls")
        self.depth += 1
        try:
            keep = s.v
            s = s.fork()
            s.v = {"self": selfv}
            for p, a in zip(f["params"], args):
                s.v[p["id"]] = a
            out = []
            for r in self.stmt(f["body"], [s]):
                r.v = dict(keep)
                if r.end == "ret" or r.end is None:
                    r.end = None
                out.append(r)
            return out
        finally:
            self.depth -= 1

    # ---- statements
    def stmt(self, x, live):
        if x is None:
            return live
        k = x["k"]
        done = [s for s in live if s.end]
        run = [s for s in live if not s.end]
        if not run:
            return live
        if len(live) > MAXP:
            raise Unreadable("number of cases")
        if k == "blk":
            for y in x["s"]:
                run = self.stmt(y, run)
            return done + run
        if k in ("case", "default", "label"):
            return done + self.stmt(x.get("s"), run)
        if k == "nop" or k == "log":
            return live
        if k in ("if", "switch", "for", "while", "do", "rfor") and not self.relevant(x):
            return live
        if k == "if":
            if x.get("init"):
                run = self.stmt(x["init"], run)
            if x.get("var"):
                run = self.stmt(dict(k="decl", d=[x["var"]]), run)
            out = []
            for s in run:
                for s2, c in self.truth(x["c"], s):
                    if s2.end:
                        out.append(s2)
                    else:
                        out += self.stmt(x["x"] if c else x.get("y"), [s2])
            return done + out
        if k == "switch":
            return done + self.switch(x, run)
        if k in ("for", "while", "do", "rfor"):
            out = []
            for s in run:
                out += self.loop(x, s)
            return done + out
        if k == "decl":
            for d in x["d"]:
                if d.get("k") != "var":
                    continue
                nxt = []
                for s in run:
                    if d.get("init") is None:
                        s.v[d["id"]] = ("new", self.fresh())
                        nxt.append(s)
                        continue
                    for s2, v in self.val(d["init"], s):
                        if v is not None and v[0] == "map" and "&" not in d.get("t", "").split("<")[0] + d.get("t", "")[-3:]:
                            i = self.fresh()
                            s2.maps[i] = (v[1], [])
                            v = ("lmap", i)
                        s2.v[d["id"]] = v
                        nxt.append(s2)
                run = nxt
            return done + run
        if k == "ret":
            out = []
            for s in run:
                for s2, v in (self.val(x["e"], s) if x.get("e") else [(s, None)]):
                    if not s2.end:
                        s2.end, s2.ret = "ret", v
                        if v is not None and v[0] in ("lmap", "new") and v[1] in s2.maps:
                            s2.ret = ("mapval",) + tuple(s2.maps[v[1]])
                    out.append(s2)
            return done + out
        if k in ("break", "cont"):
            for s in run:
                s.end = k
            return live
        if k == "try":
            return done + self.stmt(x["body"], run)
        if k == "throw":
            for s in run:
                s.end = "throw"
            return live
        out = []
        for s in run:
            out += [s2 for s2, _ in self.val(x, s)]
        return done + out

    def switch(self, x, run):
        items = []
        for y in (x["body"]["s"] if x["body"]["k"] == "blk" else [x["body"]]):
            while y is not None and y["k"] in ("case", "default"):
                items.append((y.get("cv") if y["k"] == "case" else "default", None))
                y = y.get("s")
            items.append((None, y))
        out = []
        for s in run:
            ks = "sw:" + self.ctext(x["c"], s)
            for i, (lab, _) in enumerate(items):
                if lab is None:
                    continue
                if ks in s.b and s.b[ks] != lab:
                    continue
                s2 = s.fork()
                s2.b[ks] = lab
                ps = [s2]
                for _, y in items[i:]:
                    if y is not None:
                        ps = self.stmt(y, ps)
                for p in ps:
                    if p.end == "break":
                        p.end = None
                out += ps
        return out

    def ctext(self, e, s):
        """Text of an expression in which locals are replaced by what they stand for."""
        e = strip(e)
        if e is not None and e["k"] == "ref" and "id" in e and e["id"] in s.v:
            v = s.v[e["id"]]
            if v is not None and v[0] in ("tree", "res", "opaque"):
                return str(v[1])
        if e is not None and e["k"] == "ref" and "id" in e:
            return "%s#%s" % (show(e), e["id"])
        if e is not None and e["k"] == "call" and not e.get("op"):
            o = e.get("o")
            if short(e) in ("get_if", "holds_alternative", "get", "dynamic_pointer_cast"):
                return short(e) + "<" + e.get("t", "") + ">"
            return (self.ctext(o, s) + "." if o is not None and strip(o)["k"] != "this" else "") + short(e) + \
                "(" + ",".join(self.ctext(a, s) for a in e["a"]) + ")"
        if e is not None and e["k"] == "call" and e.get("op") in ("->", "*"):
            return self.ctext(e["a"][0] if e["a"] else e["o"], s)
        if e is not None and e["k"] == "un" and e["op"] in ("*", "&"):
            return self.ctext(e["x"], s)
        return show(e)

    # ---- conditions
    def compare(self, a, b, op, s):
        """[(state, truth)] of a comparison of two linear expressions."""
        d = s.simp(add(a, b, -1))
        tr = {"<": ("lt",), "<=": ("lt", "eq"), ">": ("gt",), ">=": ("gt", "eq"), "==": ("eq",), "!=": ("lt", "gt")}[op]
        if isconst(d):
            c = d.get(1, 0)
            r = "lt" if c < 0 else "gt" if c > 0 else "eq"
            return [(s, r in tr)]
        k, sg = key(d)
        flip = {"lt": "gt", "gt": "lt", "eq": "eq"}
        if k in s.rel:
            r = s.rel[k] if sg > 0 else flip[s.rel[k]]
            return [(s, r in tr)]
        opts = ["lt", "eq", "gt"]
        out = []
        nonneg = all(v > 0 for q, v in k if q != 1)
        for o in opts:
            c = dict(k).get(1, 0)
            if o == "lt" and nonneg and c >= 0:
                continue            # unsigned
            s2 = s.fork()
            s2.rel[k] = o
            s2.trail.append((k, o))
            r = o if sg > 0 else flip[o]
            out.append((s2, r in tr))
        return out

    def truth(self, e, s):
        e = strip(e)
        k = e["k"]
        if k == "un" and e["op"] == "!":
            return [(s2, not c) for s2, c in self.truth(e["x"], s)]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for s2, c in self.truth(e["x"], s):
                if c == (e["op"] == "||"):
                    out.append((s2, c))
                else:
                    out += self.truth(e["y"], s2)
            return out
        op = e.get("op")
        if k in ("bin", "call") and op in ("<", "<=", ">", ">=", "==", "!="):
            x, y = (e["x"], e["y"]) if k == "bin" else (e["a"][0], e["a"][1]) if len(e["a"]) == 2 else (e.get("o"), e["a"][0])
            out = []
            for s1, a in self.val(x, s):
                for s2, b in self.val(y, s1):
                    if a is not None and b is not None and a[0] == "lin" and b[0] == "lin":
                        out += self.compare(a[1], b[1], op, s2)
                    elif a is not None and b is not None and a[0] == "bool" and b[0] == "bool":
                        out.append((s2, (a[1] == b[1]) == (op == "==")))
                    elif a is not None and b is not None and a[0] == b[0] == "found":
                        out.append((s2, (a == b) == (op == "==")))
                    elif a is not None and b is not None and {a[0], b[0]} == {"find", "end"}:
                        f = a if a[0] == "find" else b
                        kk = "in:%s:%s" % (f[1], f[2])
                        for s3, c in self.fact(kk, s2):
                            out.append((s3, c == (op == "!=")))
                    else:
                        neg = op == "!="
                        kk = "cmp:%s:%s" % tuple(sorted((self.ctext(x, s2), self.ctext(y, s2))))
                        for s3, c in self.fact(kk, s2):
                            out.append((s3, c != neg))
            return out
        out = []
        for s2, v in self.val(e, s):
            if v is not None and v[0] == "bool":
                out.append((s2, v[1]))
            elif v is not None and v[0] == "lin" and isconst(v[1]):
                out.append((s2, bool(v[1].get(1, 0))))
            elif s2.end:
                out.append((s2, True))
            else:
                out += self.fact("b:" + self.ctext(e, s2), s2)
        return out

    def fact(self, kk, s):
        if kk in s.b:
            return [(s, s.b[kk])]
        a, b = s.fork(), s.fork()
        a.b[kk], b.b[kk] = True, False
        return [(a, True), (b, False)]

    # ---- expressions
    def vals(self, es, s):
        out = [(s, [])]
        for e in es:
            out = [(s2, vs + [v]) for s1, vs in out for s2, v in self.val(e, s1)]
        return out

    def val(self, e, s):
        """[(state, value)]"""
        e = strip(e)
        if e is None or s.end:
            return [(s, None)]
        c = const_int(e)
        if c is not None:
            if e["k"] == "bool":
                return [(s, ("bool", bool(c)))]
            if e["k"] == "ref" and e.get("dk") in ("enum", "ec") or e["k"] == "ref" and "::" in str(e.get("q", "")):
                return [(s, ("enum", e.get("n"), c))]
            return [(s, ("enum", e["n"], c) if e["k"] == "ref" and "n" in e else ("lin", lin(c)))]
        k = e["k"]
        if k == "ref" and "id" in e:
            return [(s, s.v.get(e["id"], ("opaque", show(e))))]
        if k == "this":
            return [(s, s.v.get("self", ("self",)))]
        if k == "un":
            if e["op"] in ("&", "*"):
                return self.val(e["x"], s)
            if e["op"] in ("++", "--", "p++", "p--"):
                return self.step(e["x"], 1 if "+" in e["op"] else -1, e["op"].startswith("p"), s)
            if e["op"] == "!":
                return [(s2, ("bool", b)) for s2, b in self.truth(e, s)]
            return [(s2, None) for s2, _ in self.val(e["x"], s)]
        if k == "mem":
            return self.member(e, s)
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||", "<", "<=", ">", ">=", "==", "!="):
                return [(s2, ("bool", b)) for s2, b in self.truth(e, s)]
            if op in ("+", "-"):
                out = []
                for s2, (a, b) in self.vals([e["x"], e["y"]], s):
                    ok = a is not None and b is not None and a[0] == b[0] == "lin"
                    out.append((s2, ("lin", s2.simp(add(a[1], b[1], 1 if op == "+" else -1))) if ok else None))
                return out
            if op == "=":
                return self.assign(e["x"], e["y"], s)
            if op in ("+=", "-="):
                out = []
                for s2, v in self.val(e["y"], s):
                    if v is not None and v[0] == "lin":
                        out += self.step(e["x"], v[1] if op == "+=" else add({}, v[1], -1), False, s2)
                    else:
                        self.store(e["x"], None, s2)
                        out.append((s2, None))
                return out
            if op == ",":
                return [(s2, vs[1]) for s2, vs in self.vals([e["x"], e["y"]], s)]
            return [(s2, None) for s2, _ in self.vals([e["x"], e["y"]], s)]
        if k == "cond":
            out = []
            for s2, c in self.truth(e["c"], s):
                out += self.val(e["x"] if c else e["y"], s2)
            return out
        if k in ("list", "ctor"):
            a = [x for x in e.get("a", []) if x["k"] != "defarg"]
            if k == "ctor" and not a:
                return [(s, ("new", self.fresh()))]
            out = []
            for s2, vs in self.vals(a, s):
                if len(vs) == 1 and vs[0] is not None:
                    out.append((s2, vs[0]))
                elif len(vs) == 2 and any(t in e.get("t", "pair") for t in ("pair", "tuple")):
                    out.append((s2, ("pair", vs[0], vs[1])))
                else:
                    out.append((s2, ("tuple", tuple(vs)) if k == "list" else None))
            return out
        if k == "throw":
            s.end = "throw"
            return [(s, None)]
        if k == "call":
            return self.callexpr(e, s)
        if k == "sub":
            return self.index(e["b"], e["i"], e, s)
        if k == "lambda":
            return [(s, ("lam", e))]
        return [(s, None)]

    def step(self, tgt, d, post, s):
        d = d if isinstance(d, dict) else lin(d)
        out = []
        for s2, v in self.val(tgt, s):
            if v is not None and v[0] == "lin":
                n = ("lin", add(v[1], d))
            elif v is not None and v[0] in ("iter", "new", "opaque"):
                n = v
            else:
                n = None
            self.store(tgt, n, s2)
            out.append((s2, v if post else n))
        return out

    def store(self, tgt, v, s):
        t = strip(tgt)
        while t["k"] == "un" and t["op"] == "*":
            t = strip(t["x"])
        if t["k"] == "ref" and "id" in t:
            s.v[t["id"]] = v
        elif t["k"] == "mem":
            r = self.member(t, s, raw=True)
            if r is not None and r[0] == "m":
                s.mem[r[1]] = v

    def assign(self, tgt, src, s):
        t = strip(tgt)
        out = []
        for s2, v in self.val(src, s):
            if s2.end:
                out.append((s2, None))
                continue
            if t["k"] == "mem":
                for s3, r in self.member(t, s2):
                    self.setmem(t, r, v, s3)
                    out.append((s3, v))
                continue
            if t["k"] in ("call", "sub") and (t.get("op") == "[]" or t["k"] == "sub" or short(t) == "at"):
                ba, ix = (t["a"][0], t["a"][1]) if t["k"] == "call" and t.get("op") else \
                    (t["o"], t["a"][0]) if t["k"] == "call" else (t["b"], t["i"])
                for s3, (b, i) in self.vals([ba, ix], s2):
                    self.put(b, i, v, s3, t)
                    out.append((s3, v))
                continue
            if t["k"] == "un" and t["op"] == "*" or t["k"] == "call" and t.get("op") == "*":
                inner = strip(t["x"] if t["k"] == "un" else t["a"][0] if t["a"] else t["o"])
                for s3, b in self.val(inner, s2):
                    if b is not None and b[0] == "ovocab" and v is not None and v[0] == "vocab":
                        s3.vocab.append(v[1])
                    out.append((s3, v))
                continue
            if t["k"] == "ref" and "id" in t:
                old = s2.v.get(t["id"])
                if v is not None and v[0] == "map":
                    i = self.fresh()
                    s2.maps[i] = (v[1], [])
                    v = ("lmap", i)
                s2.v[t["id"]] = v
            out.append((s2, v))
        return out

    def setmem(self, t, r, v, s):
        if r is None:
            return
        if r[0] == "otypes":
            if v is not None and v[0] == "types":
                s.types = [("all", v[1])]
            else:
                s.types = [("?",)]
        elif r[0] == "ovocab":
            s.vocab = [v[1]] if v is not None and v[0] == "vocab" else s.vocab
        elif r[0] == "lin" and len(r[1]) == 1 and list(r[1])[0] != 1 and list(r[1])[0][0] == "m":
            s.mem[list(r[1])[0][1]] = v
        elif r[0] == "opaque" or r[0] == "bool":
            s.mem[t["n"]] = v
        elif r[0] == "tree":
            s.mem[t["n"]] = v

    def put(self, b, i, v, s, node):
        """b[i] = v"""
        if b is None:
            return
        if b[0] in ("new", "lmap", "mmap"):
            m = b[1]
            if m not in s.maps:
                s.maps[m] = (None, [])
            s.maps[m][1].append((i, v, dict(s.rel), node.get("l"), dict(s.b)))
        elif b[0] == "otypes":
            s.types.append(("at", i, v))

    def member(self, e, s, raw=False):
        base = e.get("b")
        n = e["n"]
        if base is None or strip(base)["k"] == "this":
            return self.own(n, e, s, raw)
        if raw:
            for s2, b in self.val(base, s):
                return ("m", n) if b is not None and b[0] == "self" else None
        out = []
        for s2, b in self.val(base, s):
            v = None
            if b is not None:
                if b[0] == "self":
                    out += self.own(n, e, s2, False)
                    continue
                if b[0] == "out":
                    v = {"_data": ("odata",), "_resultTypes": ("otypes",), "_localVocab": ("ovocab",)}.get(n)
                elif b[0] == "res":
                    v = {"_data": ("data", b[1]), "_resultTypes": ("types", b[1]), "_localVocab": ("vocab", b[1])}.get(n)
                elif b[0] == "entry":
                    v = ("var", b[1]) if n == "first" else ("lin", atom(("c", b[1], b[2]))) if n == "second" else None
                elif b[0] == "pair":
                    v = b[1] if n == "first" else b[2]
                elif b[0] == "find":
                    v = ("var?", b[2]) if n == "first" else ("lin", atom(("col", b[1], repr(b[2])))) if n == "second" else None
                elif b[0] == "opaque":
                    v = ("opaque", b[1] + "." + n)
            out.append((s2, v))
        return out

    def own(self, n, e, s, raw):
        if raw:
            return ("m", n)
        if n in s.mem:
            return [(s, s.mem[n])]
        t = e.get("t", "")
        if "QueryExecutionTree" in t and "vector" not in t and "array" not in t:
            return [(s, ("tree", n))]
        if "flat_hash_map" in t or "HashMap" in t or "unordered_map" in t:
            return [(s, ("mmap", n))]
        if t.replace("const ", "").strip(" &") in ("unsigned long", "int", "unsigned int", "long", "size_t", "unsigned short"):
            return [(s, ("lin", atom(("m", n))))]
        return [(s, ("opaque", n))]

    def index(self, ba, ix, e, s):
        out = []
        for s2, (b, i) in self.vals([ba, ix], s):
            v = None
            if b is not None:
                ic = i[1].get(1, 0) if i is not None and i[0] == "lin" and isconst(i[1]) else None
                if b[0] == "types" and i is not None and i[0] == "lin":
                    v = ("type", b[1], i[1])
                elif b[0] == "tree":
                    v = ("tree", "%s[%s]" % (b[1], ic if ic is not None else show(ix)))
                elif b[0] == "opaque" and "QueryExecutionTree" in e.get("t", ""):
                    v = ("tree", "%s[%s]" % (b[1], ic if ic is not None else show(ix)))
                elif b[0] == "opaque":
                    if i is not None and i[0] == "lin" and len(i[1]) == 1 and list(i[1])[0] != 1 and list(i[1])[0][0] == "c" and \
                            isinstance(list(i[1])[0][1], tuple) and list(i[1])[0][1] == ("N", b[1]):
                        v = ("elem", b[1], list(i[1])[0][2])
                    else:
                        v = ("opaque", "%s[%s]" % (b[1], text(i[1]) if i is not None and i[0] == "lin" else show(ix)))
                elif b[0] == "elem" and ic is not None:
                    v = ("lin", atom(("J", b[1], ic, b[2])))
                elif b[0] == "tuple" and ic is not None and ic < len(b[1]):
                    v = b[1][ic]
                elif b[0] in ("map", "mmap") and i is not None:
                    v = ("lin", atom(("col", b[1], repr(i))))
                elif b[0] == "otypes":
                    v = ("otype", i)
            out.append((s2, v))
        return out

    def callexpr(self, e, s):
        op, nm = e.get("op"), short(e)
        if op in ("->", "*") :
            return self.val(e["a"][0] if e["a"] else e["o"], s)
        if op == "=":
            return self.assign(e["a"][0] if len(e["a"]) == 2 else e["o"], e["a"][-1], s)
        if op in ("++", "--", "p++", "p--"):
            return self.step(e["a"][0] if e["a"] else e["o"], 1 if "+" in op else -1, len(e["a"]) > 1, s)
        if op == "[]":
            return self.index(e["a"][0] if len(e["a"]) == 2 else e["o"], e["a"][-1], e, s)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return [(s2, ("bool", b)) for s2, b in self.truth(e, s)]
        if op == "+":
            out = []
            for s2, vs in self.vals(e["a"], s):
                out.append((s2, ("opaque", "+".join(str(v[1]) if v is not None and len(v) > 1 else show(x) for v, x in zip(vs, e["a"])))))
            return out
        if op == "()":
            out = []
            for s2, vs in self.vals(e["a"], s):
                if vs and vs[0] is not None and vs[0][0] == "lam":
                    out += self.lam(vs[0][1], vs[1:], s2)
                else:
                    out.append((s2, None))
            return out
        if op:
            return [(s2, None) for s2, _ in self.vals(e["a"], s)]
        if nm in ("make_pair", "make_tuple", "pair") and len(e["a"]) == 2:
            return [(s2, ("pair", vs[0], vs[1])) for s2, vs in self.vals(e["a"], s)]
        o = e.get("o")
        args = [a for a in e["a"] if a["k"] != "defarg"]
        out = []
        for s1, b in (self.val(o, s) if o is not None else [(s, None)]):
            if s1.end:
                out.append((s1, None))
                continue
            if nm in ("any_of", "find_if", "count_if", "all_of", "none_of") and len(args) == 3 and o is None:
                out += self.anyof(e, nm, args, s1)
                continue
            for s2, vs in self.vals(args, s1):
                if s2.end:
                    out.append((s2, None))
                    continue
                out += self.known(e, nm, b, vs, args, s2)
        return out

    def lam(self, l, args, s):
        f = l.get("f") or l
        ps = f.get("params", [])
        if self.depth > 6 or not f.get("body"):
            return [(s, None)]
        self.depth += 1
        try:
            keep = s.v
            s = s.fork()
            s.v = dict(s.v)
            for p, a in zip(ps, args):
                s.v[p["id"]] = a
            out = []
            for r in self.stmt(f["body"], [s]):
                v = r.ret if r.end == "ret" else None
                r.end = None if r.end in ("ret", None) else r.end
                r.v = dict((q, r.v.get(q, x)) for q, x in keep.items())
                r.ret = None
                out.append((r, v))
            return out
        finally:
            self.depth -= 1

    def anyof(self, e, nm, args, s):
        out = []
        for s2, vs in self.vals(args, s):
            if vs[0] is not None and vs[0][0] == "begin" and vs[2] is not None and vs[2][0] == "lam":
                i = self.fresh()
                el = ("elem", vs[0][1], i)
                body = lambda st: self.lam(vs[2][1], [el], st)
                hit = []
                for r, v in body(s2.fork()):
                    if v is not None and v[0] == "bool" and v[1] == (nm != "all_of"):
                        hit.append(r)
                x = self.jmatch(hit, i, s2)
                if x is None:
                    raise Unreadable("search by a condition")
                for s3, c in self.fact(x, s2):
                    out.append((s3, ("bool", c if nm == "any_of" else not c)))
            else:
                out.append((s2, None))
        return out

    def jmatch(self, hits, i, s):
        """Key of the fact 'an element equals x' if the paths are exactly the equal case."""
        if len(hits) != 1:
            return None
        new = [(k, r) for k, r in hits[0].rel.items() if k not in s.rel]
        if len(new) != 1 or new[0][1] != "eq":
            return None
        return self.inkey(new[0][0], i)

    def inkey(self, k, i):
        d = dict(k)
        js = [a for a in d if a != 1 and a[0] == "J" and a[3] == i]
        if len(js) != 1 or abs(d[js[0]]) != 1:
            return None
        j = js[0]
        rest = {a: -c * d[j] for a, c in d.items() if a != j}
        return ("in", j[1], j[2], tuple(sorted(rest.items(), key=repr)))

    def known(self, e, nm, b, vs, args, s):
        """Call of a function with evaluated object and arguments."""
        bt = b[0] if b is not None else None
        if bt == "tree":
            if nm == "getResultWidth":
                return [(s, ("lin", s.simp(atom(("W", b[1])))))]
            if nm == "getResult":
                return [(s, ("res", b[1]))]
            if nm == "getVariableColumns":
                return [(s, ("map", b[1]))]
            if nm == "getVariableColumn" and vs:
                return [(s, ("lin", atom(("col", b[1], repr(vs[0])))))]
            if nm in ("get",):
                return [(s, b)]
            return [(s, ("opaque", "%s.%s" % (b[1], nm)))]
        if bt == "res":
            if nm == "getResultType" and vs and vs[0] is not None and vs[0][0] == "lin":
                return [(s, ("type", b[1], vs[0][1]))]
            if nm in ("width", "cols"):
                return [(s, ("lin", s.simp(atom(("W", b[1])))))]
            if nm == "get":
                return [(s, b)]
            if nm == "size":
                return [(s, ("lin", atom(("rows", b[1]))))]
            return [(s, None)]
        if bt == "data":
            if nm == "cols":
                return [(s, ("lin", s.simp(atom(("W", b[1])))))]
            if nm == "size":
                return [(s, ("lin", atom(("rows", b[1]))))]
            return [(s, None)]
        if bt == "types":
            if nm == "size":
                return [(s, ("lin", s.simp(atom(("W", b[1])))))]
            if nm in ("begin", "cbegin"):
                return [(s, ("tbegin", b[1]))]
            if nm in ("end", "cend"):
                return [(s, ("tend", b[1]))]
            if nm in ("at",) and vs and vs[0][0] == "lin":
                return [(s, ("type", b[1], vs[0][1]))]
            return [(s, None)]
        if bt == "odata":
            if nm == "setCols":
                s.cols = vs[0][1] if vs[0] is not None and vs[0][0] == "lin" else "?"
            if nm == "cols":
                return [(s, ("lin", s.cols) if isinstance(s.cols, dict) else None)]
            return [(s, None)]
        if bt == "out":
            if nm == "width":
                return [(s, ("lin", s.cols) if isinstance(s.cols, dict) else None)]
            for v in vs:
                if v is not None and v[0] == "res":
                    s.vocab.append(v[1])
            return [(s, None)]
        if bt == "otypes":
            self.settypes(nm, vs, s)
            if nm in ("begin", "end", "cbegin", "cend"):
                return [(s, ("oit", nm))]
            if nm == "size":
                return [(s, ("lin", self.total(s.types, s)) if self.total(s.types, s) is not None else None)]
            return [(s, None)]
        if bt in ("map", "mmap"):
            if nm in ("begin", "cbegin"):
                return [(s, ("mbegin", b))]
            if nm in ("end", "cend"):
                return [(s, ("end", b))]
            if nm in ("find",):
                return [(s, ("find", b[1], vs[0]))]
            if nm in ("at",):
                return [(s, ("lin", atom(("col", b[1], repr(vs[0])))))]
            if nm == "size":
                return [(s, ("lin", atom(("V", b[1]))))]
            if nm in ("count", "contains"):
                return [(s2, ("bool", c)) for s2, c in self.fact("in:%s:%s" % (b[1], vs[0]), s)]
        if bt in ("new", "lmap", "mmap"):
            if nm in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                if len(vs) == 1 and vs[0] is not None and vs[0][0] in ("pair", "tuple"):
                    p = vs[0][1:] if vs[0][0] == "pair" else vs[0][1]
                    if len(p) == 2:
                        self.put(b, p[0], p[1], s, e)
                elif len(vs) == 2:
                    self.put(b, vs[0], vs[1], s, e)
                return [(s, None)]
            if nm == "size":
                m = s.maps.get(b[1])
                if m and m[0] is not None and not m[1]:
                    return [(s, ("lin", atom(("V", m[0]))))]
                return [(s, ("lin", atom(("V", b[1]))))]
            if nm in ("find",):
                return [(s, ("find", "local", vs[0]))]
            if nm in ("end", "cend"):
                return [(s, ("end", b))]
            if nm in ("count", "contains"):
                return [(s2, ("bool", c)) for s2, c in self.fact("in:local:%s" % (vs[0],), s)]
            if nm in ("begin", "cbegin"):
                return [(s, ("mbegin", b))]
            return [(s, None)]
        if bt == "opaque":
            if nm == "size":
                return [(s, ("lin", atom(("N", b[1]))))]
            if nm in ("begin", "cbegin"):
                return [(s, ("begin", b[1]))]
            if nm in ("end", "cend"):
                return [(s, ("endof", b[1]))]
            if nm == "empty":
                return [(s2, ("bool", c)) for s2, c in self.compare(atom(("N", b[1])), {}, "==", s)]
        # functions of the operation itself and helpers of the repository
        f = self.prog.fn(e["fk"]) if e.get("fk") else None
        if nm in ("make_shared", "make_unique") and "<" + self.cls + ">" in e.get("t", "").replace("class ", ""):
            return [(s, ("self",))]
        if nm == "make_shared" or nm == "make_unique":
            return [(s, ("opaque", "new"))]
        if f is not None and f.get("body") and f["file"].startswith("src/"):
            own = f.get("cls") in self.family or bt == "self"
            if f.get("cls") and f["cls"] not in self.family:
                own = False
            helper = not f.get("cls") or f.get("cls") in self.family
            interesting = any(v is not None and v[0] in ("out", "otypes", "ovocab", "tree", "res", "map", "lmap", "new", "lin") for v in vs)
            if nm in ("getRuntimeInfo", "getDescriptor", "getIndex", "getEngine", "getExecutionContext", "asString", "checkTimeout"):
                return [(s, ("opaque", nm))]
            data = any(v is not None and v[0] in ("odata", "data") for v in vs)
            if f.get("rt") == "void" and not self.relevant1(f["body"], {f["key"]}) and not any(v is not None and v[0] in ("lmap", "new", "mmap") for v in vs):
                return [(s, None)]
            if (own or helper and interesting) and not data:
                res = []
                keep = s.v
                for r in self.call(f, vs, s, b if bt == "self" else s.v.get("self", ("self",))):
                    v = r.ret
                    r.ret = None
                    if v is None and f.get("rt", "") == "void":
                        v = None
                    if v is not None and v[0] == "mapval":
                        i = self.fresh()
                        r.maps[i] = (v[1], list(v[2]))
                        v = ("lmap", i)
                    if v is None and own and not args and f.get("rt") != "void":
                        v = ("lin", atom(("call", nm))) if "long" in f.get("rt", "") else ("opaque", nm)
                    res.append((r, v))
                return res
        if e.get("t", "").replace("const ", "") in ("unsigned long", "size_t", "int") and not args:
            return [(s, ("lin", atom(("call", (str(b[1]) + "." if b is not None and len(b) > 1 else "") + nm))))]
        return [(s, ("opaque", self.ctext(e, s)))]

    def settypes(self, nm, vs, s):
        T = lambda v: ("one", v[1], v[2]) if v is not None and v[0] == "type" else ("const", v[1]) if v is not None and v[0] == "enum" else ("val",)
        if nm in ("push_back", "emplace_back"):
            s.types.append(T(vs[0] if vs else None))
        elif nm == "insert":
            if len(vs) == 3 and vs[1] is not None and vs[1][0] == "tbegin" and vs[2] is not None and vs[2][0] == "tend" and vs[1][1] == vs[2][1]:
                seg = ("all", vs[1][1])
            elif len(vs) == 3 and vs[1] is not None and vs[1][0] == "lin":
                seg = ("rep", T(vs[2]), vs[1][1])
            else:
                seg = ("?",)
            if vs and vs[0] is not None and vs[0][0] == "oit" and "begin" in vs[0][1] and s.types:
                s.types.insert(0, seg)
            else:
                s.types.append(seg)
        elif nm in ("resize", "assign"):
            if nm == "assign" and len(vs) == 2 and vs[0] is not None and vs[0][0] == "tbegin":
                s.types = [("all", vs[0][1])]
            elif vs and vs[0] is not None and vs[0][0] == "lin":
                have = self.total(s.types, s) if nm == "resize" else {}
                rest = add(vs[0][1], have, -1) if have is not None else None
                if nm == "assign":
                    s.types = []
                if rest is None:
                    s.types.append(("?",))
                elif rest:
                    s.types.append(("rep", T(vs[1]) if len(vs) > 1 else ("const", "KB"), rest))
            else:
                s.types.append(("?",))
        elif nm == "clear":
            s.types = []

    def total(self, types, s):
        """Number of columns described by a list of segments."""
        n = {}
        for t in types:
            w = self.width(t, s)
            if w is None:
                return None
            n = add(n, w)
        return s.simp(n)

    def width(self, t, s):
        if t[0] in ("one", "const", "val"):
            return lin(1)
        if t[0] == "all":
            return s.simp(atom(("W", t[1])))
        if t[0] == "rep":
            return t[2]
        if t[0] == "at":
            return {}
        if t[0] == "each":
            return atom(("N", t[1]))
        if t[0] == "loop":
            n = add(t[2], t[1], -1)
            for rels, facts, pushes in t[3]:
                if len(pushes) == 1:
                    continue
                if pushes:
                    return None
                x = self.excluded(t[4], rels, facts)
                if x is None:
                    return None
                n = add(n, x, -1)
            return n
        return None

    def excluded(self, c, rels, facts):
        """Number of columns c of a loop for which the given case holds."""
        if len(rels) == 1 and not [f for f, v in facts.items() if isinstance(f, tuple)]:
            (k, r), = rels.items()
            d = dict(k)
            if d.get(c) in (1, -1):
                return lin(1) if r == "eq" else atom(("cntcol", key(d)[0], r))
        ins = [f for f, v in facts.items() if isinstance(f, tuple) and f[0] == "in" and v and dict(f[3]) == {c: 1}]
        if len(ins) == 1 and not rels:
            return atom(("N", ins[0][1]))
        return None

    def relevant(self, x, seen=None):
        """Whether a statement can change the layout, a local value or the way taken."""
        if seen is None and "_rel" in x:
            return x["_rel"]
        r = self.relevant1(x, seen or set())
        if seen is None:
            x["_rel"] = r
        return r

    def relevant1(self, x, seen):
        inside = {d["id"] for n in walk(x) if n["k"] == "var" for d in [n] if "id" in d}
        for n in walk(x, into_lambdas=False):
            k = n["k"]
            if k == "ret" and not seen:
                return True
            if k in ("break", "cont") and not seen and x["k"] in ("if",):
                return True
            if k == "call" and n.get("o") is not None and strip(n["o"])["k"] == "mem" and strip(n["o"])["n"] == "_resultTypes" and \
                    short(n) in ("push_back", "emplace_back", "insert", "resize", "assign", "clear", "pop_back", "erase", "swap"):
                return True
            t = None
            if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = strip(n["x"])
            elif k == "un" and ("++" in n["op"] or "--" in n["op"]):
                t = strip(n["x"])
            elif k == "call" and n.get("op") in ("=", "+=", "-=", "++", "--") and (n["a"] or n.get("o")):
                t = strip(n["a"][0] if n["a"] else n["o"])
            if t is not None and any(m["k"] == "mem" and m["n"] in ("_resultTypes", "_localVocab") for m in walk(t)):
                return True
            if t is not None and not seen:
                if t["k"] == "ref" and "id" in t and t["id"] not in inside:
                    return True
                if t["k"] == "mem" and (t.get("b") is None or strip(t["b"])["k"] == "this"):
                    return True
                if t["k"] == "call" and "hash_map" in t.get("fn", ""):
                    return True
            if k == "call" and not n.get("op"):
                nm = short(n)
                if nm == "setCols":
                    return True
                if nm in ("insert", "emplace", "try_emplace", "insert_or_assign") and "hash" in n.get("fn", ""):
                    return True
                f = self.prog.fn(n["fk"]) if n.get("fk") else None
                if f is not None and f.get("body") and f["file"].startswith("src/") and f["key"] not in seen and len(seen) < 8:
                    if any("ResultTable" in p.get("t", "") and "const" not in p.get("t", "") for p in f["params"]) or f.get("cls") == "ResultTable":
                        if self.relevant1(f["body"], seen | {f["key"]}):
                            return True
        return False

    # ---- loops
    def loop(self, x, s):
        k = x["k"]
        body = x["body"]
        if k == "rfor":
            out = []
            for s2, r in self.val(x["range"], s):
                out += self.over(x["var"], r, body, s2, x)
            return out
        if k == "for":
            runs = self.stmt(x["init"], [s]) if x.get("init") else [s]
            out = []
            for s2 in runs:
                out += self.forloop(x, s2)
            return out
        # while / do: no effect on the layout is expected
        return self.opaqueloop(x, s)

    def touches(self, x):
        """Whether a loop changes types, columns or a map of columns."""
        for n in walk(x):
            if n["k"] == "mem" and n["n"] in ("_resultTypes", "_localVocab"):
                return True
            if n["k"] == "call" and ("setCols" == short(n)):
                return True
            if n["k"] == "bin" and n["op"] == "=" and strip(n["x"])["k"] == "call" and strip(n["x"]).get("op") == "[]" and \
                    "hash_map" in strip(n["x"]).get("fn", ""):
                return True
            if n["k"] == "call" and short(n) in ("insert", "emplace") and ("hash" in n.get("fn", "")):
                return True
        return False

    def opaqueloop(self, x, s):
        if self.touches(x):
            raise Unreadable("loop at line %s" % x.get("l"))
        for n in walk(x):
            t = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = strip(n["x"])
            elif n["k"] == "un" and ("++" in n["op"] or "--" in n["op"]):
                t = strip(n["x"])
            if t is not None and t["k"] == "ref" and "id" in t:
                s.v[t["id"]] = None
        return [s]

    def forloop(self, x, s):
        c = strip(x["c"]) if x.get("c") else None
        var = None
        if x.get("init") and x["init"]["k"] == "decl":
            var = x["init"]["d"][0]
        if var is None or c is None:
            return self.opaqueloop(x, s)
        v0 = s.v.get(var["id"])
        op = c.get("op")
        a = (c["x"], c["y"]) if c["k"] == "bin" else (c["a"][0], c["a"][1]) if c["k"] == "call" and len(c["a"]) == 2 else \
            (c.get("o"), c["a"][0]) if c["k"] == "call" and c["a"] else None
        if a is None or op not in ("<", "!=", "<="):
            return self.opaqueloop(x, s)
        lhs = strip(a[0])
        if not (lhs["k"] == "ref" and lhs.get("id") == var["id"]):
            return self.opaqueloop(x, s)
        inc = strip(x["inc"]) if x.get("inc") else None
        if inc is None or not (inc.get("op") in ("++", "p++")):
            return self.opaqueloop(x, s)
        if v0 is not None and v0[0] == "mbegin":
            return self.over(var, v0[1], x["body"], s, x)
        if v0 is not None and v0[0] == "begin":
            return self.over(var, ("opaque", v0[1]), x["body"], s, x)
        if v0 is None or v0[0] != "lin":
            return self.opaqueloop(x, s)
        out = []
        for s2, hi in self.val(a[1], s):
            if hi is None or hi[0] != "lin":
                out += self.opaqueloop(x, s2)
                continue
            h = add(hi[1], lin(1)) if op == "<=" else hi[1]
            i = self.fresh()
            n = h if not v0[1] else None
            if n is not None and len(n) == 1 and list(n)[0] != 1 and list(n)[0][0] == "N" and n[list(n)[0]] == 1:
                m = list(n)[0][1]
                ca = ("c", ("N", m), i)
                out += self.elements(var, ("lin", atom(ca)), m, x["body"], s2, i, x)
            else:
                ca = ("c", ("i",), i)
                out += self.columns(var, ca, v0[1], h, x["body"], s2)
        return out

    def over(self, var, r, body, s, x):
        """Loop over the entries of a map or the elements of a member."""
        i = self.fresh()
        if r is not None and r[0] in ("map", "mmap") or r is not None and r[0] == "lmap" and s.maps[r[1]][0] is not None and not s.maps[r[1]][1]:
            child = r[1] if r[0] != "lmap" else s.maps[r[1]][0]
            v = ("entry", child, i)
            if var.get("b") or var.get("binds"):
                pass
            return self.columns(var, ("c", child, i), None, None, body, s, v)
        if r is not None and r[0] == "opaque":
            return self.elements(var, ("elem", r[1], i), r[1], body, s, i, x)
        return self.opaqueloop(x, s)

    def assigned(self, body, s):
        out = set()
        for n in walk(body):
            t = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = strip(n["x"])
            elif n["k"] == "un" and ("++" in n["op"] or "--" in n["op"]):
                t = strip(n["x"])
            if t is not None and t["k"] == "ref" and "id" in t and t["id"] in s.v:
                out.add(t["id"])
        return out

    def columns(self, var, ca, lo, hi, body, s, v=None):
        """Loop over columns (by index, or over the variables of an input)."""
        carried = {}
        for vid in self.assigned(body, s):
            o = s.v.get(vid)
            if vid != var["id"] and o is not None and o[0] == "lin":
                carried[vid] = o[1]
        s0 = s.fork()
        for vid in carried:
            s0.v[vid] = ("lin", atom(("carried", repr(ca), vid, 0 if ca[1] == ("i",) else 1)))
        s0.v[var["id"]] = v or ("lin", atom(ca))
        for j, bd in enumerate(var.get("binds", []) or []):
            s0.v[bd["id"]] = (("var", ca[1]) if j == 0 else ("lin", atom(ca))) if v else None
        s0.types, nt = [], list(s.types)
        before = {m: len(w) for m, (b, w) in s0.maps.items()}
        bm = dict(s0.mem)
        res = [r for r in self.stmt(body, [s0])]
        ok = [r for r in res if r.end in (None, "cont")]
        leave = [r for r in res if r.end in ("ret", "throw")]
        if [r for r in res if r.end == "break"]:
            if any(r.types for r in res) or any(len(w) > before.get(m, 0) for r in res for m, (b, w) in r.maps.items()):
                raise Unreadable("break in a loop over columns")
            ok += [r for r in res if r.end == "break"]
        out = s.fork()
        cases = []
        for r in ok:
            rels = {k: q for k, q in r.rel.items() if k not in s.rel}
            facts = {k: q for k, q in r.b.items() if k not in s.b}
            cases.append((rels, facts, r.types))
            for m, (b, w) in r.maps.items():
                new = w[before.get(m, 0):]
                if m not in out.maps:
                    out.maps[m] = (b, [])
                for t in new:
                    out.maps[m][1].append(t)
            for mm, mv in r.mem.items():
                if mv != bm.get(mm) and mv is not None and mv[0] == "lin":
                    d = add(mv[1], bm[mm][1] if bm.get(mm) is not None else atom(("m", mm)), -1)
                    out.mem.setdefault(mm, bm.get(mm))
                    out.trail.append(("member", mm, d, rels, facts, ca))
        if any(p for _, _, p in cases):
            if lo is None:
                raise Unreadable("types set in the order of a map")
            out.types = nt + [("loop", lo, hi, cases, ca)]
        else:
            out.types = nt
        for vid in carried:
            ds = {repr(add(r.v[vid][1], atom(("carried", repr(ca), vid, 0 if ca[1] == ("i",) else 1)), -1)) if r.v.get(vid) is not None and r.v[vid][0] == "lin" else None for r in ok}
            if ds == {"{}"}:
                out.v[vid] = s.v[vid]
            else:
                out.v[vid] = None
        for r in leave:
            if r.end == "throw":
                return [out]
        return [out] + leave if leave else [out]

    def elements(self, var, v, m, body, s, i, x):
        """Loop over the elements of a member: the cases of one element against a column."""
        s0 = s.fork()
        s0.v[var["id"]] = v
        for j, bd in enumerate(var.get("binds", []) or []):
            s0.v[bd["id"]] = ("lin", atom(("J", m, j, i)))
        carried = {vid: s.v[vid] for vid in self.assigned(body, s)}
        types0 = list(s.types)
        s0.types = []
        before = {q: len(w) for q, (b, w) in s0.maps.items()}
        res = self.stmt(body, [s0])
        pushed = any(r.types for r in res)
        written = any(len(w) > before.get(q, 0) for r in res for q, (b, w) in r.maps.items())
        if pushed or written:
            s0 = s.fork()
            s0.v[var["id"]] = v
            for j, bd in enumerate(var.get("binds", []) or []):
                s0.v[bd["id"]] = ("lin", atom(("J", m, j, i)))
            s0.types = []
            for vid, o in carried.items():
                if o is not None and o[0] == "lin":
                    s0.v[vid] = ("lin", add(o[1], atom(("ctr", m, vid))))
            res = self.stmt(body, [s0])
            return self.memberloop(var, m, res, s, carried, before, types0, i)
        base = s.fork()
        hits = {}
        for r in res:
            if r.end == "throw":
                continue
            new = [(k, q) for k, q in r.rel.items() if k not in s.rel]
            if not new:
                continue
            jk = [(self.inkey(k, i), q, k) for k, q in new]
            jk = [t for t in jk if t[0] is not None]
            if len(jk) != 1 or len(new) != 1:
                if any(r.v.get(q) != o for q, o in carried.items()) or r.end == "ret":
                    mixed = len(jk) == len(new) and len({t[0][2] for t in jk}) > 1
                    for q, o in carried.items():
                        if r.v.get(q) != o:
                            base.v[q] = ("lin", add(o[1], atom(("mixed", m)))) if mixed and o is not None and o[0] == "lin" else None
                    if r.end == "ret":
                        raise Unreadable("search in a loop")
                continue
            f, q, k = jk[0]
            d = dict(k)
            j = [a for a in d if a != 1 and a[0] == "J" and a[3] == i][0]
            if d[j] < 0:
                q = {"lt": "gt", "gt": "lt", "eq": "eq"}[q]
            hits.setdefault((f, q), []).append(r)
        eqs = {f: rs[0] for (f, q), rs in hits.items() if q == "eq" and len(rs) == 1}
        # changes of numbers in the cases 'less' and 'greater'
        for (f, q), rs in hits.items():
            if q == "eq":
                continue
            for vid, o in carried.items():
                n = rs[0].v.get(vid)
                if n == o:
                    continue
                if n is not None and o is not None and n[0] == o[0] == "lin" and isconst(add(n[1], o[1], -1)) and base.v.get(vid) is not None:
                    dlt = add(n[1], o[1], -1).get(1, 0)
                    base.v[vid] = ("lin", add(base.v[vid][1], {("cnt", f[1], f[2], q, f[3]): dlt}))
                elif n is not None and n[0] == "bool":
                    base.v[vid] = None
                else:
                    base.v[vid] = None
        states = [base]
        for f, r in eqs.items():
            nxt = []
            for st in states:
                eff = r.end == "ret" or any(r.v.get(q) != o for q, o in carried.items())
                if not eff:
                    nxt.append(st)
                    continue
                for s2, c in self.fact(f, st):
                    if c:
                        for q, o in carried.items():
                            n = r.v.get(q)
                            if n != o:
                                if n is not None and n[0] == "lin" and o is not None and o[0] == "lin":
                                    s2.v[q] = ("lin", add(s2.v[q][1], add(n[1], o[1], -1))) if s2.v.get(q) is not None else None
                                else:
                                    s2.v[q] = n
                        if r.end == "ret":
                            s2.end, s2.ret = "ret", r.ret
                    nxt.append(s2)
            states = nxt
        for st in states:
            st.types = list(types0)
        return states

    def memberloop(self, var, m, res, s, carried, before, types0, i):
        """A loop over a member that appends types or sets columns, once per element."""
        out = s.fork()
        cases = []
        for r in res:
            if r.end not in (None, "cont", "throw"):
                raise Unreadable("break in a loop over %s" % m)
            if r.end == "throw":
                continue
            facts = {k: q for k, q in r.b.items() if k not in s.b}
            rels = {k: q for k, q in r.rel.items() if k not in s.rel}
            cases.append((rels, facts, r.types))
            for q, (b, w) in r.maps.items():
                if q not in out.maps:
                    out.maps[q] = (b, [])
                for t in w[before.get(q, 0):]:
                    out.maps[q][1].append(t)
        if any(p for _, _, p in cases):
            if all(len(p) == 1 for _, _, p in cases):
                out.types = types0 + [("each", m, cases, i)]
            else:
                out.types = types0 + [("?",)]
        else:
            out.types = types0
        for vid, o in carried.items():
            out.v[vid] = ("lin", add(o[1], atom(("ctrend", m, vid)))) if o is not None and o[0] == "lin" else None
        return [out]
