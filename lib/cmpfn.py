"""Case analysis of comparison functions.

A comparison only looks at its two arguments through a number of keys (a member, a position, the result of a function of one argument). The axioms of an order speak about at
most three elements, so it suffices to know the outcome for every arrangement of at most three values per key. `Table` reads the outcome of the function for every such
arrangement from its syntax tree; nothing is compiled or run."""
import itertools, re
from base import walk, strip, short, show, const_int, AnalysisError

SIGN = {"compare", "strcmp", "strncmp", "memcmp", "compareUTF8", "strcoll", "casecmp", "strcasecmp", "Compare"}
TUPLES = {"tie", "make_tuple", "make_pair", "forward_as_tuple"}
ROUNDS = 2


class Need(Exception):
    def __init__(self, key, dom, ext):
        self.key, self.dom, self.ext = key, dom, ext


class Unknown(AnalysisError):
    pass


class Mixed(Exception):
    """The two arguments are compared at different positions."""
    def __init__(self, l, r, node):
        self.l, self.r, self.node = l, r, node


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def sgn(x):
    return (x > 0) - (x < 0)


class Ev:
    def __init__(self, prog, model, ext, hetero):
        self.prog, self.model, self.ext, self.hetero = prog, model, ext, hetero
        self.depth = 0
        self.mark = ""

    # -- model
    def val(self, s, key, dom=3):
        m = self.model[s]
        if key not in m:
            raise Need(key, dom, False)
        return m[key]

    def extv(self, key, dom=2):
        if key not in self.ext:
            raise Need(key, dom, True)
        return self.ext[key]

    # -- statements
    def run(self, body, env):
        try:
            self.st(body, env)
        except Ret as r:
            return r.v
        return ("v",)

    def st(self, s, env):
        if s is None:
            return
        k = s["k"]
        if k == "blk":
            for x in s["s"]:
                self.st(x, env)
        elif k == "ret":
            raise Ret(self.ev(s["e"], env) if s.get("e") else ("v",))
        elif k == "decl":
            for d in s["d"]:
                if d["k"] == "var":
                    env[d["id"]] = self.ev(d["init"], env) if d.get("init") is not None else ("x", d["n"])
        elif k == "if":
            if s.get("init"):
                self.st(s["init"], env)
            if s.get("cvar"):
                self.st(s["cvar"], env)
            c = bool(s["cv"]) if "cv" in s else self.truth(self.ev(s["c"], env), s["c"], env)
            self.st(s["x"] if c else s.get("y"), env)
        elif k in ("for", "while", "rfor", "do"):
            self.loop(s, env)
        elif k == "break":
            raise Brk()
        elif k == "cont":
            raise Cont()
        elif k in ("nop", "log", "case", "default"):
            if s.get("s"):
                self.st(s["s"], env)
        elif k == "switch":
            v = self.ev(s["c"], env)
            if v[0] not in ("i", "b"):
                raise Unknown("a switch in a comparison")
            flat = []

            def go(x):
                if x is None:
                    return
                if x["k"] in ("case", "default"):
                    flat.append(("case", x.get("cv") if x["k"] == "case" else None))
                    go(x.get("s"))
                else:
                    flat.append(("st", x))
            for x in (s["body"]["s"] if s["body"]["k"] == "blk" else [s["body"]]):
                go(x)
            at = [i for i, x in enumerate(flat) if x == ("case", int(v[1]))] or [i for i, x in enumerate(flat) if x == ("case", None)]
            if at:
                try:
                    for kind, x in flat[at[0]:]:
                        if kind == "st":
                            self.st(x, env)
                except Brk:
                    pass
        else:
            self.ev(s, env)

    def loop(self, s, env):
        """Two rounds stand for any number: each round compares keys of its own."""
        old = self.mark
        if s.get("init"):
            self.st(s["init"], env)
        var = set()
        if s["k"] == "rfor":
            var = {s["var"]["id"]} if s.get("var") and "id" in s["var"] else set()
        else:
            for x in (s.get("init"), s.get("inc"), s.get("body")):
                for n in walk(x or {"k": "nop"}):
                    if n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--"):
                        var.add(strip(n["x"]).get("id"))
                    elif n["k"] == "call" and n.get("op") in ("++", "--") and n["a"]:
                        var.add(strip(n["a"][0]).get("id"))
                    elif n["k"] == "bin" and n["op"] in ("+=", "-="):
                        var.add(strip(n["x"]).get("id"))
        try:
            for r in range(ROUNDS):
                self.mark = "%s#%d" % (old, r)
                for v in var:
                    b = env.get(v)
                    if b and b[0] == "k":
                        env[v] = ("k", b[1], b[2].split("#")[0] + self.mark, None)
                    else:
                        env[v] = ("x", "i%s" % self.mark)
                try:
                    self.st(s["body"], env)
                except Cont:
                    pass
        except Brk:
            pass
        self.mark = old

    # -- expressions: ("b", bool) ("i", int) ("k", side, key, type) ("x", text) ("t", [values]) ("v",)
    def truth(self, v, e, env):
        if v[0] == "b":
            return v[1]
        if v[0] == "i":
            return v[1] != 0
        if v[0] == "k":
            return self.val(v[1], v[2], 2 if "bool" in (v[3] or "") else 3) != 0
        if v[0] == "x":
            return bool(self.extv(v[1]))
        raise Unknown("the truth of %s" % show(e))

    def txt(self, v):
        if v[0] == "k":
            return v[2]
        if v[0] in ("b", "i"):
            return str(v[1])
        if v[0] == "x":
            return v[1]
        if v[0] == "t":
            return "(%s)" % ", ".join(self.txt(x) for x in v[1])
        return "?"

    def sides(self, vs):
        out = set()
        for v in vs:
            if v[0] == "k":
                out.add(v[1])
            elif v[0] == "t":
                out |= self.sides(v[1])
        return out

    def cmp3(self, x, y, node):
        """Sign of x - y, or None if a side is not an argument."""
        if x[0] == "t" and y[0] == "t" and len(x[1]) == len(y[1]):
            for a, b in zip(x[1], y[1]):
                c = self.cmp3(a, b, node)
                if c:
                    return c
            return 0
        if x[0] in ("i", "b") and y[0] in ("i", "b"):
            return sgn(int(x[1]) - int(y[1]))
        if x[0] == "k" and y[0] == "k":
            if x[1] == y[1]:
                k = "%s ? %s" % (x[2], y[2])
                return self.val(x[1], k) - 1 if x[2] != y[2] else 0
            if x[2] != y[2]:
                if not self.hetero:
                    raise Mixed(x[2], y[2], node)
                k = "|".join([x[2], y[2]] if x[1] == 0 else [y[2], x[2]])
                return sgn(self.val(x[1], k) - self.val(y[1], k))
            d = 2 if "bool" in (x[3] or "") else 3
            return sgn(self.val(x[1], x[2], d) - self.val(y[1], y[2], d))
        for a, b, f in ((x, y, 1), (y, x, -1)):
            if a[0] == "k":
                if b[0] in ("i", "b"):
                    d = 2 if "bool" in (a[3] or "") else 3
                    c = int(b[1])
                    v = self.val(a[1], a[2], d)
                    # values 0, 1, 2 stand for below, at and above any other constant
                    return f * sgn(v - c if c in (0, 1) else v - 1)
                return f * (self.val(a[1], "%s ? %s" % (a[2], self.txt(b))) - 1)
        k = "%s ? %s" % (self.txt(x), self.txt(y))
        return self.extv(k, 3) - 1

    def rel(self, op, x, y, node):
        c = self.cmp3(x, y, node)
        return {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]

    def ev(self, e, env):
        e = strip(e)
        k = e["k"]
        c = const_int(e) if k != "mem" else None
        if c is not None and k not in ("call",):
            return ("b", bool(c)) if k == "bool" else ("i", c)
        if k == "ref":
            if e.get("id") in env:
                return env[e["id"]]
            return ("x", e["n"])
        if k == "this":
            return env.get("this", ("x", "this"))
        if k == "mem":
            b = self.ev(e["b"], env) if e.get("b") else env.get("this", ("x", "this"))
            if b[0] == "k":
                return ("k", b[1], "%s.%s" % (b[2], e["n"]), e.get("t"))
            return ("x", "%s.%s" % (self.txt(b), e["n"]))
        if k == "bin":
            op = e["op"]
            if op == "&&":
                return ("b", self.truth(self.ev(e["x"], env), e["x"], env) and self.truth(self.ev(e["y"], env), e["y"], env))
            if op == "||":
                return ("b", self.truth(self.ev(e["x"], env), e["x"], env) or self.truth(self.ev(e["y"], env), e["y"], env))
            if op == "," :
                self.ev(e["x"], env)
                return self.ev(e["y"], env)
            x, y = self.ev(e["x"], env), self.ev(e["y"], env)
            if op in ("==", "!=") and {x[0], y[0]} == {"b", "x"}:
                return ("b", (self.truth(x, e["x"], env) == self.truth(y, e["y"], env)) == (op == "=="))
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return ("b", self.rel(op, x, y, e))
            if op == "<=>":
                return ("i", self.cmp3(x, y, e))
            if op == "=":
                t = strip(e["x"])
                if t["k"] == "ref" and "id" in t:
                    env[t["id"]] = y
                return y
            ss = self.sides([x, y])
            if op == "-" and len(ss) == 2:
                c = self.cmp3(x, y, e)
                if re.search(r"unsigned|size_t", e.get("t", "")) and c:
                    c = 1
                return ("i", c)
            if op == "^" and len(ss) <= 1 and x[0] in "b" or op == "^" and y[0] == "b":
                return ("b", self.truth(x, e["x"], env) != self.truth(y, e["y"], env))
            if op in ("&", "|") and "bool" in e.get("t", "") or op in ("&", "|") and x[0] == "b" and y[0] == "b":
                a, b = self.truth(x, e["x"], env), self.truth(y, e["y"], env)
                return ("b", a and b if op == "&" else a or b)
            return self.compound([x, y], "(%s %s %s)" % (self.txt(x), op, self.txt(y)), e)
        if k == "un":
            op = e["op"]
            if op in ("++", "--", "p++", "p--"):
                return self.ev(e["x"], env)
            v = self.ev(e["x"], env)
            if op == "!":
                return ("b", not self.truth(v, e["x"], env))
            if op in ("*", "&", "+"):
                return v
            if op == "-" and v[0] == "i":
                return ("i", -v[1])
            return self.compound([v], "%s%s" % (op, self.txt(v)), e)
        if k == "cond":
            return self.ev(e["x"] if self.truth(self.ev(e["c"], env), e["c"], env) else e["y"], env)
        if k == "sub":
            b, i = self.ev(e["b"], env), self.ev(e["i"], env)
            return self.compound([b, i], "%s[%s]" % (self.txt(b), self.txt(i)), e)
        if k in ("ctor", "list"):
            vs = [self.ev(a, env) for a in e.get("a", []) if a["k"] != "defarg"]
            if len(vs) == 1:
                return vs[0]
            if re.search(r"std::(pair|tuple)<", e.get("t", "")):
                return ("t", vs)
            return self.compound(vs, "{%s}" % ", ".join(self.txt(v) for v in vs), e)
        if k == "call":
            return self.call(e, env)
        if k == "lambda":
            return ("x", "lambda")
        if k == "log":
            return ("v",)
        if k == "str":
            return ("x", repr(e.get("v")))
        return ("x", show(e))

    def compound(self, vs, text, e):
        ss = self.sides(vs)
        if len(ss) == 2:
            raise Unknown("%s depends on both arguments" % text)
        if ss:
            return ("k", ss.pop(), text, e.get("t"))
        return ("x", text)

    def call(self, e, env):
        op, nm, fn = e.get("op"), short(e), e.get("fn", "") or ""
        args = [a for a in e["a"]]
        if op in ("<", ">", "<=", ">=", "==", "!=") and len(args) == 2:
            x, y = self.ev(args[0], env), self.ev(args[1], env)
            r = self.inline(e, env)
            if r is not None:
                return r
            return ("b", self.rel(op, x, y, e))
        if op in ("*", "->") and len(args) == 1 or nm in ("get", "value", "c_str", "data", "begin") and e.get("o") is not None and not args and not op:
            return self.ev(args[0] if args else e["o"], env)
        if op == "=" and len(args) == 2:
            t = strip(args[0])
            v = self.ev(args[1], env)
            if t["k"] == "ref" and "id" in t:
                env[t["id"]] = v
            return v
        vs = [self.ev(a, env) for a in args]
        o = self.ev(e["o"], env) if e.get("o") is not None else None
        if nm in TUPLES:
            return ("t", vs)
        if op == "<=>" and len(vs) == 2:
            return ("i", self.cmp3(vs[0], vs[1], e))
        ss = self.sides(vs + ([o] if o else []))
        if not ss and vs and all(v[0] in ("i", "b") for v in vs):
            r = self.inline(e, env, vs, o)
            if r is not None:
                return r
        if len(ss) < 2:
            if op == "()" and vs and vs[0][0] == "x":
                vs = vs[:1] + vs[1:]
            t = re.search(r"\bget<(\d+)", e.get("fk", "") or "")
            name = "get<%s>" % t.group(1) if nm == "get" and t else nm
            text = "%s[%s]" % (self.txt(vs[0]), self.txt(vs[1])) if op == "[]" and len(vs) == 2 else \
                "%s%s(%s)" % (self.txt(o) + "." if o and o[0] == "k" else "", name, ", ".join(self.txt(v) for v in vs))
            if nm.startswith("operator ") and o is not None:
                return o
            return self.compound(vs + ([o] if o else []), text, e)
        r = self.inline(e, env, vs, o)
        if r is not None:
            return r
        both = [v for v in ([o] if o and o[0] == "k" else []) + vs if v[0] in ("k", "t")]
        if len(both) == 2:
            c = self.cmp3(both[0], both[1], e)
            if nm in SIGN or "int" in e.get("t", "") and "bool" not in e.get("t", ""):
                return ("i", c)
            if "std::greater" in fn:
                return ("b", c >= 0 if "greater_equal" in fn else c > 0)
            if "std::less_equal" in fn:
                return ("b", c <= 0)
            if "std::equal_to" in fn or nm == "equal":
                return ("b", c == 0)
            return ("b", c < 0)
        raise Unknown("%s depends on both arguments" % show(e))

    def inline(self, e, env, vs=None, o=None):
        if self.depth > 6:
            return None
        for t in self.prog.targets(e)[:1]:
            f = self.prog.fn(t)
            if not f.get("body") or not f["file"].startswith("src/"):
                return None
            vs = [self.ev(a, env) for a in e["a"]] if vs is None else list(vs)
            o = self.ev(e["o"], env) if o is None and e.get("o") is not None else o
            if e.get("op") and len(vs) == len(f["params"]) + 1:
                o, vs = vs[0], vs[1:]
            if len(vs) > len(f["params"]):
                return None
            new = {p["id"]: v for p, v in zip(f["params"], vs)}
            if o is not None:
                new["this"] = o
            elif "this" in env:
                new["this"] = env["this"]
            self.depth += 1
            try:
                return self.run(f["body"], new)
            finally:
                self.depth -= 1
        return None


class Table:
    """outcome(a, b) of a comparison for all elements with at most three values per key."""

    def __init__(self, prog, body, params, this=None, hetero=False, kind="bool"):
        self.prog, self.body, self.params, self.this, self.hetero, self.kind = prog, body, params, this, hetero, kind
        self.keys, self.ext = {}, {}
        while True:
            try:
                self.fill()
                return
            except Need as n:
                (self.ext if n.ext else self.keys)[n.key] = n.dom
                if len(self.keys) > 7 or len(self.ext) > 7:
                    raise Unknown("more than seven keys")

    def elements(self):
        ks = sorted(self.keys)
        n3 = sum(1 for k in ks if self.keys[k] == 3)
        dom = [range(2 if n3 > 4 else self.keys[k]) for k in ks]
        return [dict(zip(ks, v)) for v in itertools.product(*dom)]

    def fill(self):
        self.els = self.elements()
        es = sorted(self.ext)
        self.tabs = []
        for vals in itertools.product(*[range(self.ext[e]) for e in es]):
            ext = dict(zip(es, vals))
            self.tabs.append((ext, [[self.one(a, b, ext) for b in self.els] for a in self.els]))

    def one(self, a, b, ext):
        ev = Ev(self.prog, (a, b), ext, self.hetero)
        env = {}
        if self.this is not None:
            env["this"] = ("k", 0, "@", None)
            env[self.params[0]["id"]] = ("k", 1, "@", self.params[0].get("t"))
        else:
            env[self.params[0]["id"]] = ("k", 0, "@", self.params[0].get("t"))
            env[self.params[1]["id"]] = ("k", 1, "@", self.params[1].get("t"))
        v = ev.run(self.body, env)
        if self.kind == "int":
            if v[0] in ("i", "b"):
                return sgn(int(v[1]))
            if v[0] == "k":
                raise Unknown("the result of a comparison depends on one argument only")
            raise Unknown("the result of a comparison: %s" % ev.txt(v))
        return ev.truth(v, self.body, env)

    def name(self, a):
        return "{%s}" % ", ".join("%s=%d" % (k.replace("@.", "").replace("@", "it"), a[k]) for k in sorted(a))


def strict(tab):
    """None, or why the relation is not a strict weak order."""
    for ext, t in tab.tabs:
        cond = " if " + ", ".join("%s is %s" % (k, bool(v) if tab.ext[k] == 2 else "<=>"[v]) for k, v in sorted(ext.items())) if ext else ""
        n = len(tab.els)
        for i in range(n):
            if t[i][i]:
                return "irreflexive", "an element is 'less' than an equal one: %s%s" % (tab.name(tab.els[i]), cond)
        for i in range(n):
            for j in range(i):
                if t[i][j] and t[j][i]:
                    return "asymmetric", "each of two elements is 'less' than the other: %s and %s%s" % (tab.name(tab.els[i]), tab.name(tab.els[j]), cond)
        row = [sum(1 << j for j in range(n) if t[i][j]) for i in range(n)]
        inc = [sum(1 << j for j in range(n) if not t[i][j] and not t[j][i]) for i in range(n)]
        for rel, what in ((row, "'less'"), (inc, "'neither less nor greater'")):
            for i in range(n):
                for j in range(n):
                    if rel[i] >> j & 1 and rel[j] & ~rel[i]:
                        c = (rel[j] & ~rel[i]).bit_length() - 1
                        return "transitive", "%s does not carry over: %s, %s, %s%s" % (what, tab.name(tab.els[i]), tab.name(tab.els[j]), tab.name(tab.els[c]), cond)
        # keys that are looked at must matter
    return None


def three_way(tab):
    for ext, t in tab.tabs:
        cond = " if " + ", ".join("%s is %s" % (k, bool(v) if tab.ext[k] == 2 else "<=>"[v]) for k, v in sorted(ext.items())) if ext else ""
        n = len(tab.els)
        for i in range(n):
            if t[i][i]:
                return "irreflexive", "equal elements do not compare equal: %s%s" % (tab.name(tab.els[i]), cond)
            for j in range(i):
                if t[i][j] != -t[j][i]:
                    return "antisymmetric", "comparing %s with %s gives %d, the other way round %d%s" % (tab.name(tab.els[i]), tab.name(tab.els[j]), t[i][j], t[j][i], cond)
        row = [sum(1 << j for j in range(n) if t[i][j] < 0) for i in range(n)]
        for i in range(n):
            for j in range(n):
                if row[i] >> j & 1 and row[j] & ~row[i]:
                    return "transitive", "'less' does not carry over from %s and %s%s" % (tab.name(tab.els[i]), tab.name(tab.els[j]), cond)
    return None


def unused(tab):
    """Keys that can be looked at but never change the outcome."""
    out = []
    for k in sorted(tab.keys):
        idx = {tuple(sorted(a.items())): i for i, a in enumerate(tab.els)}
        hit = False
        for ext, t in tab.tabs:
            for i, a in enumerate(tab.els):
                if a[k] != 0:
                    continue
                for v in range(1, 3):
                    b = dict(a)
                    b[k] = v
                    j = idx.get(tuple(sorted(b.items())))
                    if j is not None and (t[i] != t[j] or any(r[i] != r[j] for r in t)):
                        hit = True
        if not hit:
            out.append(k)
    return out
