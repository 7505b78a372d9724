"""Composition of texts: an abstract interpretation of the functions that put strings together.

The abstract value of a string or string stream is the sequence of its parts: literal text, the length of another
text, a number, a character, or an opaque text of which only its origin is known. Branches are followed both ways
(a condition is decided only if it compares known characters), what a loop changes is opaque."""
from base import walk, strip, short, show, loc
import re

STR = re.compile(r"\bstd::(basic_)?string\b|basic_string<|string_view|basic_o?stringstream|basic_ostream|std::o(string)?stream")
ARITH = re.compile(r"^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|size_t|off_t|uint\d+_t|int\d+_t|unsigned)( long| int)*( &)?$")
GROW = ("append", "push_back", "write", "put")
SAME = ("c_str", "data", "str", "operator basic_string_view", "to_string", "basic_string", "basic_string_view", "string", "string_view")


def tg(prog, c):
    """functions with a body a call may run"""
    return [g for g in (prog.fn(k) for k in prog.targets(c)) if g is not None]


def lit(s):
    return ("s", (("l", s),) if s else ())


def norm(parts):
    out = []
    for p in parts:
        if p[0] == "l" and out and out[-1][0] == "l":
            out[-1] = ("l", out[-1][1] + p[1])
        elif p[0] != "l" or p[1]:
            out.append(p)
    return tuple(out)


def cat(a, b):
    return ("s", norm(a[1] + b[1]))


class Env:
    __slots__ = ("v", "guards", "dead")

    def __init__(self, v=None, guards=()):
        self.v, self.guards = dict(v or {}), guards

    def copy(self):
        return Env(self.v, self.guards)

    def key(self):
        return (frozenset(self.v.items()), self.guards)


class Frame:
    def __init__(self, f, binding, caller=None):
        self.f, self.bind, self.caller = f, binding, caller


class Texts:
    CAP = 192

    def __init__(self, prog, into, on_send=None, on_emit=None, probe=None, opaque=None):
        self.prog, self.into, self.on_send, self.on_emit = prog, into, on_send, on_emit
        self.probe = probe          # (value of the probed parameter, character)
        self.records = []           # (variable, appended parts) of a probed loop body
        self.nfr = 0
        self.opaque = opaque
        self.depth = 0
        self.visited = set()

    # ---------------------------------------------------------------- places
    def place(self, fr, e):
        e = strip(e)
        if e is None:
            return None
        if e["k"] == "ref" and e.get("id") is not None:
            g = fr
            while g is not None:
                if (g.f["key"], e["id"]) in g.bind:
                    return g.bind[(g.f["key"], e["id"])]
                g = g.caller if g.f.get("_lambda") else None
            h = fr
            while h.f.get("_lambda") and h.caller is not None and e["id"] not in h.f["_own"]:
                h = h.caller
            return (h.n, e["id"])
        if e["k"] == "mem" and e.get("b") is not None and strip(e["b"])["k"] == "this":
            return ("this", e["n"])
        if e["k"] == "un" and e["op"] in ("*", "&"):
            return self.place(fr, e["x"])
        if e["k"] == "call" and e.get("op") in ("<<", "+=") and e.get("a"):
            return self.place(fr, e["a"][0])
        if e["k"] == "call" and short(e) in GROW and e.get("o") is not None:
            return self.place(fr, e["o"])
        return None

    def atom(self, f, n, what=None, info=()):
        return ("s", (("a", what or show(n), loc(f, n), tuple(info)),))

    # ---------------------------------------------------------------- expressions
    def ev(self, fr, env, e):
        """abstract value; may change env (assignments, appends)"""
        e = strip(e)
        if e is None:
            return ("?",)
        k = e["k"]
        f = fr.f
        if k == "str":
            return lit(e["v"])
        if k in ("char", "int", "bool"):
            try:
                return ("c", int(e["v"]))
            except (TypeError, ValueError):
                return ("?",)
        if k == "ref":
            if e.get("dk") not in ("var", "parm") and isinstance(e.get("v"), int):
                return ("c", e["v"])
            p = self.place(fr, e)
            if p in env.v:
                return env.v[p]
            if STR.search(e.get("t") or ""):
                if e.get("dk") == "global":
                    g = self.prog.global_(e.get("g")) if e.get("g") else None
                    i = strip(g["init"]) if g and g.get("init") else None
                    if i is not None and i["k"] == "ctor" and i["a"]:
                        i = strip(i["a"][0])
                    if i is not None and i["k"] == "str":
                        return lit(i["v"])
                return self.atom(f, e)
            return ("?",)
        if k in ("mem", "sub", "this", "null", "sizeof"):
            p = self.place(fr, e)
            if p in env.v:
                return env.v[p]
            if k == "sub":
                b = self.ev(fr, env, e["b"])
                self.ev(fr, env, e["i"])
                if self.probe and b == self.probe[0]:
                    return ("c", self.probe[1])
            return self.atom(f, e) if STR.search(e.get("t") or "") else ("?",)
        if k == "lambda":
            return ("lam", e["key"], fr.n)
        if k == "cond":
            c = self.truth(fr, env, e["c"])
            if c is not None:
                return self.ev(fr, env, e["x"] if c else e["y"])
            e1, e2 = env.copy(), env.copy()
            a, b = self.ev(fr, e1, e["x"]), self.ev(fr, e2, e["y"])
            self.weaken(fr, env, e)
            if a == b:
                return a
            if a[0] == "s" or b[0] == "s":
                return ("alt", (a, b))
            return ("?",)
        if k == "bin":
            if e["op"] == "=" or (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">=")):
                v = self.ev(fr, env, e["y"])
                p = self.place(fr, e["x"])
                if p is not None:
                    env.v[p] = v if e["op"] == "=" else ("?",)
                return v
            a, b = self.ev(fr, env, e["x"]), self.ev(fr, env, e["y"])
            if a[0] == "c" and b[0] == "c" and e["op"] in ("==", "!=", "<", ">", "<=", ">="):
                return ("c", int({"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[e["op"]]))
            if e["op"] in ("+", "-") and "len" in (a[0], b[0]):
                return ("num", "%s %s %s" % (a[0], e["op"], b[0]))
            return ("?",)
        if k == "un":
            v = self.ev(fr, env, e["x"])
            if e["op"] == "!" and v[0] == "c":
                return ("c", int(not v[1]))
            if e["op"] == "*" and v[0] == "it" and self.probe and v[1] == self.probe[0]:
                return ("c", self.probe[1])
            if e["op"] in ("++", "--", "p++", "p--"):
                p = self.place(fr, e["x"])
                if p is not None and v[0] != "it":
                    env.v[p] = ("?",)
                return v
            if e["op"] in ("*", "&"):
                return v
            return ("?",)
        if k == "ctor":
            if STR.search(e["t"]):
                a = [x for x in e["a"] if x["k"] != "defarg"]
                vs = [self.ev(fr, env, x) for x in a]
                if not a:
                    return ("s", ())
                if len(a) == 1 and vs[0][0] in ("s", "alt"):
                    return vs[0]
                if len(a) == 2 and vs[1][0] == "c" and vs[0][0] == "c" and vs[0][1] < 64:
                    return lit(chr(vs[1][1] & 255) * vs[0][1])
                if "ios_base" in " ".join(str(x.get("t")) for x in a) and vs[0][0] == "s":
                    return vs[0]
                if len(a) == 1 and "stream" in e["t"]:
                    return ("s", ())
                return self.atom(f, e)
            for x in e["a"]:
                self.ev(fr, env, x)
            return self.atom(f, e) if STR.search(e["t"]) else ("?",)
        if k == "call":
            return self.call(fr, env, e)
        if k == "throw":
            return ("?",)
        for x in walk(e):
            if x is not e and x["k"] in ("call", "bin") and x["k"] != "lambda":
                self.weaken(fr, env, x)
        return self.atom(f, e) if STR.search(e.get("t") or "") else ("?",)

    def weaken(self, fr, env, n):
        """everything assigned or appended to below n is opaque; a text that is only appended to keeps its beginning"""
        changed = {}
        for x in walk(n, into_lambdas=True):
            t, grow = [], False
            if x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                t = [x["x"]]
            elif x["k"] == "un" and x["op"] in ("++", "--", "p++", "p--"):
                t = [x["x"]]
            elif x["k"] == "call" and x.get("op") in ("=", "+=", "<<", ">>"):
                t, grow = ([x["a"][0]] if x["a"] else []), x["op"] in ("+=", "<<")
            elif x["k"] == "call":
                if x.get("o") is not None and not x.get("cm"):
                    t, grow = [x["o"]], short(x) in GROW
                rest = [a for a, pk in zip(x["a"], x.get("pk") or "") if pk in "rpm"]
                if rest:
                    t, grow = t + rest, False
            for a in t:
                p = self.place(fr, a)
                if p is not None and p in env.v and env.v[p][0] != "lam":
                    c = changed.setdefault(p, [True, x, a])
                    c[0] = c[0] and grow
        for p, (grow, x, a) in changed.items():
            v = env.v[p]
            if v[0] not in ("s", "alt"):
                env.v[p] = ("?",)
                continue
            new = self.atom(fr.f, x, "changed: " + show(a))
            env.v[p] = cat(v, new) if grow and v[0] == "s" else new

    def parts(self, fr, v, n, t=None):
        """value -> parts when it is put into a text"""
        if v[0] == "s":
            return v[1]
        if v[0] == "c":
            tt = (n.get("t") or "") if n is not None else ""
            if (n is not None and strip(n)["k"] == "char") or re.match(r"^(const )?char( &)?$", tt):
                return (("l", chr(v[1] & 255)),)
            return (("l", str(v[1])),)
        if v[0] == "len":
            return (("len", v[1]),)
        if v[0] == "num":
            return (("num", v[1]),)
        if v[0] == "alt":
            return (("alt", tuple(norm(self.parts(fr, x, n)) for x in v[1])),)
        tt = (strip(n).get("t") or "") if n is not None else ""
        if ARITH.match(tt.replace("std::", "")) or (n is not None and strip(n)["k"] in ("int", "float", "bool")):
            return (("ch" if re.match(r"^(const )?char( &)?$", tt) else "num", show(n)),)
        return (("a", show(n), loc(fr.f, n), ()),)

    def append(self, fr, env, target, v, n, arg):
        p = self.place(fr, target)
        if p is None:
            if self.on_emit:
                self.on_emit(fr, None, self.parts(fr, v, arg), n, env)
            return
        old = env.v.get(p)
        if old is None or old[0] != "s":
            old = self.atom(fr.f, target)
        new = self.parts(fr, v, arg)
        if self.on_emit:
            self.on_emit(fr, p, new, n, env)
        env.v[p] = ("s", norm(old[1] + new))

    def call(self, fr, env, e):
        f = fr.f
        op, nm, args = e.get("op"), short(e), e.get("a") or []
        t = e.get("t") or ""
        if op == "<<" and args and ("ostream" in t or "stream" in (strip(args[0]).get("t") or "")):
            self.ev(fr, env, args[0])
            if len(args) > 1:
                a = strip(args[1])
                if a["k"] == "ref" and a.get("n") in ("endl", "flush", "ends"):
                    if a["n"] == "endl":
                        self.append(fr, env, args[0], lit("\n"), e, a)
                    return self.here(fr, env, args[0], e)
                v = self.ev(fr, env, args[1])
                self.append(fr, env, args[0], v, e, args[1])
            return self.here(fr, env, args[0], e)
        if nm == "operator<<" and e.get("o") is not None and args:
            self.ev(fr, env, e["o"])
            self.append(fr, env, e["o"], self.ev(fr, env, args[0]), e, args[0])
            return self.here(fr, env, e["o"], e)
        if op == "+=" and len(args) == 2 and STR.search(t or strip(args[0]).get("t") or ""):
            self.append(fr, env, args[0], self.ev(fr, env, args[1]), e, args[1])
            return self.here(fr, env, args[0], e)
        if op == "=" and len(args) == 2:
            v = self.ev(fr, env, args[1])
            p = self.place(fr, args[0])
            if p is not None:
                if STR.search(t or strip(args[0]).get("t") or ""):
                    v = v if v[0] in ("s", "alt") else ("s", norm(self.parts(fr, v, args[1])))
                env.v[p] = v
            return v
        if op == "+" and len(args) == 2 and STR.search(t):
            a, b = self.ev(fr, env, args[0]), self.ev(fr, env, args[1])
            return ("s", norm(self.parts(fr, a, args[0]) + self.parts(fr, b, args[1])))
        if op in ("==", "!=") and len(args) == 2:
            a, b = self.ev(fr, env, args[0]), self.ev(fr, env, args[1])
            return ("?",)
        if op == "*" and args:
            v = self.ev(fr, env, args[0])
            if v[0] == "it" and self.probe and v[1] == self.probe[0]:
                return ("c", self.probe[1])
            return v if v[0] == "s" else (self.atom(f, e) if STR.search(t) else ("?",))
        if op == "[]" and args:
            b = self.ev(fr, env, args[0])
            for x in args[1:]:
                self.ev(fr, env, x)
            if self.probe and b == self.probe[0]:
                return ("c", self.probe[1])
            return self.atom(f, e) if STR.search(t) else ("?",)
        obj = e.get("o")
        ov = self.ev(fr, env, obj) if obj is not None else None
        if obj is not None and ov and ov[0] in ("s", "alt"):
            if nm in ("size", "length") and not args:
                return ("len", ov[1]) if ov[0] == "s" else ("?",)
            if nm in SAME and not [a for a in args if a["k"] != "defarg"]:
                return ov
            if nm == "str" and args:
                p = self.place(fr, obj)
                v = self.ev(fr, env, args[0])
                if p is not None:
                    env.v[p] = v if v[0] == "s" else self.atom(f, e)
                return ("?",)
            if nm in ("clear",):
                p = self.place(fr, obj)
                if p is not None and "stream" not in (strip(obj).get("t") or ""):
                    env.v[p] = ("s", ())
                return ("?",)
            if nm in ("imbue", "setf", "width", "fill"):
                p = self.place(fr, obj)
                if p is not None and ov[0] == "s":
                    env.v[p] = ("s", norm(ov[1] + (("imbue", loc(f, e)),)))
                return ("?",)
            if nm in ("begin", "cbegin"):
                return ("it", ov)
            if nm in ("at", "operator[]") and self.probe and ov == self.probe[0]:
                return ("c", self.probe[1])
            if nm in GROW and args:
                real = [a for a in args if a["k"] != "defarg"]
                vs = [self.ev(fr, env, a) for a in real]
                v, a = vs[0], real[0]
                if len(real) == 2 and not (vs[0][0] == "s" and vs[1][0] == "len" and vs[1][1] == vs[0][1]):
                    if vs[0][0] == "c" and vs[1][0] == "c" and vs[0][1] < 16:
                        v, a = lit(chr(vs[1][1] & 255) * vs[0][1]), None
                    else:
                        v = self.atom(f, e)
                self.append(fr, env, obj, v, e, a)
                return self.here(fr, env, obj, e)
            if nm in ("reserve", "flush", "good", "fail", "empty", "rdbuf", "precision"):
                return ("?",)
            if nm in ("insert", "replace", "erase", "resize", "pop_back", "assign", "swap", "substr") or not e.get("cm"):
                for a in args:
                    self.ev(fr, env, a)
                if nm == "substr":
                    return self.atom(f, e)
                p = self.place(fr, obj)
                if p is not None:
                    env.v[p] = self.atom(f, e)
                return self.here(fr, env, obj, e)
        # calls of local lambdas
        if op == "()" and args:
            lv = self.ev(fr, env, args[0])
            if lv[0] == "lam":
                return self.enter_lambda(fr, env, e, lv, args[1:])
        if nm == "to_string" and len(args) == 1:
            v = self.ev(fr, env, args[0])
            return ("s", self.parts(fr, v, args[0]) if v[0] in ("len", "num") else (("num", show(args[0])),))
        vals = [self.ev(fr, env, a) for a in args]
        if self.on_send is not None and self.on_send(self, fr, env, e, vals):
            return ("?",)
        for g in tg(self.prog, e):
            if g.get("body") and self.depth < 7 and self.into(g) and len(tg(self.prog, e)) == 1:
                return self.enter(fr, env, e, g, args, vals)
        # unknown function: what it may change is opaque, with the characters it was given
        info = [v[1] for v in vals if v[0] == "c"]
        for a, v, pk in zip(args, vals, (e.get("pk") or "") + "v" * len(args)):
            if pk in "rpm" or (pk == "?" and v[0] == "s"):
                p = self.place(fr, a)
                if p is not None and v[0] in ("s", "alt") and p in env.v:
                    old = env.v[p] if env.v[p][0] == "s" else self.atom(f, a)
                    env.v[p] = ("s", norm(old[1] + (("a", e.get("fk") or nm, loc(f, e), ("call",) + tuple(info)),)))
        if STR.search(t):
            return ("s", (("a", e.get("fk") or nm, loc(f, e), ("ret",) + tuple(info)),))
        return ("?",)

    def here(self, fr, env, e, n):
        p = self.place(fr, e)
        return env.v.get(p, ("?",)) if p is not None else ("?",)

    def truth(self, fr, env, c):
        v = self.ev(fr, env, c)
        return bool(v[1]) if v[0] == "c" else None

    # ---------------------------------------------------------------- calls
    def newframe(self, f, bind, caller=None):
        fr = Frame(f, bind, caller)
        self.nfr += 1
        fr.n = "%s@%d" % (f["key"], self.depth)
        return fr

    def enter(self, fr, env, e, g, args, vals):
        self.visited.add(g["key"])
        self.collect(g)
        bind = {}
        fr2 = self.newframe(g, bind)
        loc_env = env
        for q, a, v in zip(g["params"], args, vals):
            ref = "&" in (q.get("t") or "") and not (q.get("t") or "").startswith("const ")
            p = self.place(fr, a) if ref or "*" in (q.get("t") or "") else None
            if p is not None and ref:
                bind[(g["key"], q["id"])] = p
            else:
                loc_env.v[(fr2.n, q["id"])] = v
        return self.body(fr2, env, g["body"], e, fr)

    def enter_lambda(self, fr, env, e, lv, args):
        lam = self.lams.get(lv[1])
        if lam is None or self.depth >= 7:
            return self.atom(fr.f, e) if STR.search(e.get("t") or "") else ("?",)
        own = {q["id"] for q in lam["params"] if q.get("id") is not None} | {x["id"] for x in walk(lam["body"]) if x["k"] == "var"}
        f2 = {"key": lam["key"], "file": fr.f["file"], "params": lam["params"], "body": lam["body"], "_lambda": 1, "_own": own, "l": lam.get("l"), "n": "lambda", "qn": "lambda"}
        fr2 = self.newframe(f2, {}, fr)
        for q, a in zip(lam["params"], args):
            env.v[(fr2.n, q["id"])] = self.ev(fr, env, a)
        return self.body(fr2, env, lam["body"], e, fr)

    def body(self, fr2, env, body, e, fr):
        self.depth += 1
        try:
            outs, rets = self.run(fr2, [env.copy()], body)
        finally:
            self.depth -= 1
        vals, envs = [], [x[0] for x in rets] + outs
        vals = [x[1] for x in rets] or [("?",)]
        # the states after the call are joined: what differs is opaque
        if envs:
            base = envs[0].copy()
            for k in list(base.v):
                if isinstance(k[0], str) and k[0] == fr2.n:
                    del base.v[k]
                elif any(x.v.get(k) != base.v[k] for x in envs[1:]):
                    vv = {x.v.get(k) for x in envs}
                    base.v[k] = ("alt", tuple(sorted(vv, key=repr))) if None not in vv and len(vv) <= 6 else self.atom(fr.f, e)
            env.v = base.v
        vals = sorted(set(vals), key=repr)
        if len(vals) == 1:
            return vals[0]
        flat = []
        for v in vals:
            flat += list(v[1]) if v[0] == "alt" else [v]
        return ("alt", tuple(flat)) if len(flat) <= 12 else self.atom(fr.f, e)

    # ---------------------------------------------------------------- statements
    def run(self, fr, envs, s):
        """-> (environments that go on, [(environment, returned value)])"""
        outs, rets, _ = self.st(fr, envs, s)
        return outs, rets

    def dedup(self, envs):
        seen, out = set(), []
        for x in envs:
            k = x.key()
            if k not in seen:
                seen.add(k)
                out.append(x)
        if len(out) > self.CAP:
            raise OverflowError
        return out

    def st(self, fr, envs, s):
        """-> (go on, returned, left by break or continue)"""
        if s is None or not envs:
            return envs, [], []
        k = s["k"]
        if k == "blk":
            rets, brk = [], []
            for x in s["s"]:
                envs, r, b = self.st(fr, envs, x)
                rets += r
                brk += b
                envs = self.dedup(envs)
                if not envs:
                    break
            return envs, rets, brk
        if k == "decl":
            for env in envs:
                for d in s["d"]:
                    if d["k"] == "var":
                        self.declare(fr, env, d)
            return self.split(envs), [], []
        if k == "ret":
            out = []
            for env in self.split(envs):
                v = self.ev(fr, env, s["e"]) if s.get("e") else ("?",)
                out.append((env, v))
            return [], out, []
        if k in ("break", "cont"):
            return [], [], envs
        if k == "throw":
            return [], [], []
        if k == "log":
            return envs, [], []
        if k == "if":
            outs, rets, brk = [], [], []
            for env in self.split(envs):
                if s.get("init"):
                    self.st(fr, [env], s["init"])
                if s.get("cvar"):
                    self.declare(fr, env, s["cvar"])
                c = s["cv"] if isinstance(s.get("cv"), bool) else self.truth(fr, env, s["c"])
                for side, want in ((s.get("x"), True), (s.get("y"), False)):
                    if c is not None and c != want:
                        continue
                    e2 = env.copy()
                    if c is None:
                        e2.guards = e2.guards + ((id(s["c"]), want),)
                        self.conds[id(s["c"])] = (fr.f, s["c"])
                    o, r, b = self.st(fr, [e2], side) if side is not None else ([e2], [], [])
                    for x in o:
                        if x.guards != env.guards and not self.keep_guards:
                            x.guards = env.guards
                    outs, rets, brk = outs + o, rets + r, brk + b
            return self.dedup(outs), rets, brk
        if k == "switch":
            return self.switch(fr, envs, s)
        if k in ("for", "while", "do", "rfor"):
            return self.loop(fr, envs, s)
        if k == "try":
            start = [e.copy() for e in envs]
            outs, rets, brk = self.st(fr, envs, s["body"])
            for h in s.get("h") or []:
                hs = [e.copy() for e in start]
                for e in hs:
                    self.weaken(fr, e, s["body"])
                o, r, b = self.st(fr, self.dedup(hs), h.get("body") or h.get("s") or h)
                outs, rets, brk = outs + o, rets + r, brk + b
            return self.dedup(outs), rets, brk
        if k in ("case", "default"):
            return self.st(fr, envs, s.get("s"))
        if k == "nop":
            return envs, [], []
        if k == "catch":
            return self.st(fr, envs, s.get("body"))
        for env in envs:
            self.ev(fr, env, s)
        return self.split(envs), [], []

    def split(self, envs):
        """a variable with alternative texts becomes one environment for each"""
        out = []
        for env in envs:
            todo = [env]
            for _ in range(4):
                nxt, again = [], False
                for e in todo:
                    p = next((p for p, v in e.v.items() if v[0] == "alt"), None)
                    if p is None:
                        nxt.append(e)
                        continue
                    again = True
                    for x in e.v[p][1]:
                        c = e.copy()
                        c.v[p] = x
                        nxt.append(c)
                todo = nxt
                if not again or len(todo) > self.CAP:
                    break
            out += todo
        return self.dedup(out)

    def declare(self, fr, env, d):
        t = d.get("t") or ""
        if d.get("init") is None:
            v = ("s", ()) if STR.search(t) else ("?",)
        elif "&" in t and not t.startswith("const ") and self.place(fr, d["init"]) is not None:
            fr.bind[(fr.f["key"], d["id"])] = self.place(fr, d["init"])
            return
        else:
            v = self.ev(fr, env, d["init"])
            if STR.search(t) and v[0] not in ("s", "alt", "lam"):
                v = ("s", norm(self.parts(fr, v, d["init"])))
        env.v[(fr.n, d["id"])] = v

    def switch(self, fr, envs, s):
        body = s["body"]
        stm = body["s"] if body["k"] == "blk" else [body]
        labels = []
        for i, x in enumerate(stm):
            y = x
            while y is not None and y["k"] in ("case", "default"):
                labels.append((i, y.get("cv") if y["k"] == "case" else None))
                y = y.get("s")
        outs, rets = [], []
        for env in self.split(envs):
            v = self.ev(fr, env, s["c"])
            starts = set()
            if v[0] == "c":
                starts = {i for i, cv in labels if cv == v[1]} or {i for i, cv in labels if cv is None}
            else:
                starts = {i for i, cv in labels}
            if (v[0] != "c" and not any(cv is None for _, cv in labels)) or not starts:
                outs.append(env.copy())
            for i in starts:
                cur, end = [env.copy()], []
                for x in stm[i:]:
                    cur, r, b = self.st(fr, cur, x)
                    rets += r
                    end += b
                    if not cur:
                        break
                outs += cur + end
        return self.dedup(outs), rets, []

    def loop(self, fr, envs, s):
        k = s["k"]
        outs, rets = [], []
        for env in self.split(envs):
            if s.get("init"):
                self.st(fr, [env], s["init"])
            zero = env.copy()
            rng = self.ev(fr, env, s["range"]) if k == "rfor" else None
            if self.probe:
                # what one pass appends for the probed character
                e1 = env.copy()
                for p in list(e1.v):
                    if e1.v[p][0] == "s" and e1.v[p] != self.probe[0]:
                        e1.v[p] = ("s", (("mark", str(p)),))
                if k == "rfor":
                    e1.v[(fr.n, s["var"]["id"])] = ("c", self.probe[1]) if rng == self.probe[0] else ("?",)
                o, r, b = self.st(fr, [e1], s["body"])
                for x in o + b + [y[0] for y in r]:
                    for p, v in x.v.items():
                        if v[0] == "s" and v[1] and v[1][0][0] == "mark":
                            self.records.append((p, v[1][1:], s.get("l")))
                        elif v[0] == "s" and e1.v.get(p, ("",))[0] == "s" and e1.v[p] != v:
                            self.records.append((p, v[1], s.get("l")))
            e2 = env.copy()
            self.weaken(fr, e2, s)
            if k == "rfor":
                e2.v[(fr.n, s["var"]["id"])] = self.atom(fr.f, s, "element of " + show(s["range"])) if STR.search(s["var"].get("t") or "") else ("?",)
            elif s.get("c"):
                self.ev(fr, e2, s["c"])
            pr, self.probe = self.probe, None
            o, r, b = self.st(fr, [e2], s["body"])
            self.probe = pr
            rets += r
            after = env.copy()
            self.weaken(fr, after, s)
            outs.append(after)
            if k != "do":
                outs.append(zero)
        return self.dedup(outs), rets, []

    # ---------------------------------------------------------------- entry
    def function(self, f, values=None, keep_guards=False):
        self.lams = {}
        self.conds = {}
        self.keep_guards = keep_guards
        self.collect(f)
        fr = self.newframe(f, {})
        env = Env()
        for i, q in enumerate(f["params"]):
            v = (values or {}).get(i)
            if v is None:
                v = self.atom(f, {"k": "ref", "n": q.get("n") or "", "l": f["l"]}, "parameter " + (q.get("n") or "")) if STR.search(q.get("t") or "") else ("?",)
            env.v[(fr.n, q["id"])] = v
        return self.run(fr, [env], f["body"])

    def collect(self, f):
        for x in walk(f["body"]):
            if x["k"] == "lambda":
                self.lams[x["key"]] = x
