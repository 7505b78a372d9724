"""Reachable statements of a function for fixed values of some members (case analysis on the syntax tree)."""
from base import walk, strip, short, const_int, children


class Path:
    def __init__(self, events=(), guards=()):
        self.events, self.guards, self.ret, self.end = list(events), list(guards), None, None

    def fork(self):
        p = Path(self.events, self.guards)
        p.ret, p.end = self.ret, self.end
        return p


class Env:
    """Bindings of parameters and locals to expressions of the caller."""

    def __init__(self, binds=None, up=None):
        self.b, self.up, self.changed = binds or {}, up, ()

    def get(self, vid):
        return self.b.get(vid)


class Spec:
    """Case analysis of a method for consts: {member name: value} of its object."""

    def __init__(self, prog, cls, consts, inline=None, limit=256, calls=None):
        self.prog, self.cls, self.consts, self.limit = prog, cls, consts, limit
        self.calls = calls or {}          # short name of an accessor -> value
        self.family = {cls} | set(prog.bases(cls)) if cls else set()
        self.inline = inline or (lambda f: f.get("cls") in self.family)

    # ---- values
    def const(self, e, env, depth=0):
        e = strip(e)
        if e is None or depth > 8:
            return None
        c = const_int(e)
        if c is not None:
            return c
        k = e["k"]
        if k == "ref" and "v" in e and isinstance(e["v"], int):
            return e["v"]
        if k == "ref" and "id" in e:
            b = env.get(e["id"])
            return self.const(b[0], b[1], depth + 1) if b else None
        if k == "mem" and e["n"] in self.consts and (not e.get("b") or strip(e["b"])["k"] == "this"):
            return self.consts[e["n"]]
        if k == "un" and e["op"] == "!":
            v = self.const(e["x"], env, depth + 1)
            return None if v is None else int(not v)
        if k == "bin":
            a, b = self.const(e["x"], env, depth + 1), self.const(e["y"], env, depth + 1)
            op = e["op"]
            if op == "&&":
                if a == 0 or b == 0:
                    return 0
                return None if a is None or b is None else 1
            if op == "||":
                if a or b:
                    return 1
                return None if a is None or b is None else 0
            if a is None or b is None:
                return None
            f = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}
            return int(f[op]) if op in f else None
        if k == "cond":
            c = self.const(e["c"], env, depth + 1)
            return None if c is None else self.const(e["x"] if c else e["y"], env, depth + 1)
        if k == "call" and not e.get("op"):
            if short(e) in self.calls:
                return self.calls[short(e)]
            f = self.prog.fn(e.get("fk")) if e.get("fk") else None
            if f and f.get("body") and self.own(e) and self.inline(f):
                vals = set()
                for p in self.paths(f, Env({q["id"]: (a, env) for q, a in zip(f["params"], e["a"])}, env), depth + 1):
                    if p.end == "throw":
                        continue
                    vals.add(self.const(p.ret[0], p.ret[1], depth + 1) if p.ret else None)
                if len(vals) == 1:
                    return vals.pop()
        return None

    def own(self, call):
        o = call.get("o")
        return o is None or strip(o)["k"] == "this"

    def resolve(self, e, env, depth=0):
        """(node, env) an expression stands for, through parameters and locals."""
        e = strip(e)
        while depth < 12:
            depth += 1
            if e["k"] == "ref" and "id" in e and env.get(e["id"]):
                e, env = env.get(e["id"])
                e = strip(e)
                continue
            if e["k"] == "cond":
                c = self.const(e["c"], env)
                if c is not None:
                    e = strip(e["x"] if c else e["y"])
                    continue
            if e["k"] == "un" and e["op"] in ("&", "*"):
                e = strip(e["x"])
                continue
            if e["k"] == "call" and not e.get("op") and e.get("fk") and self.own(e) and not e["a"]:
                f = self.prog.fn(e["fk"])
                if f and f.get("body") and self.inline(f):
                    rs = [p.ret for p in self.paths(f, Env({}, env), 4) if p.ret]
                    if len(rs) == 1:
                        e, env = strip(rs[0][0]), rs[0][1]
                        continue
            break
        return e, env

    # ---- paths
    def paths(self, f, env=None, depth=0):
        env = Env(dict(env.b) if env else {})
        env.changed = changed(f)
        out = []
        live = self.block(f["body"], [Path()], env, depth, out)
        return [p for p in out] + live

    def block(self, s, live, env, depth, done):
        """Runs a statement for all live paths; finished ones go to done."""
        if s is None or not live:
            return live
        k = s["k"]
        if k == "blk":
            for x in s["s"]:
                live = self.block(x, live, env, depth, done)
                if not any(p.end is None for p in live):
                    break
            return live
        run = [p for p in live if p.end is None]
        rest = [p for p in live if p.end is not None]
        if not run:
            return live
        if k in ("case", "default", "label"):
            return rest + self.block(s.get("s"), run, env, depth, done)
        if k == "if":
            for x in (s.get("init"),):
                if x:
                    run = self.block(x, run, env, depth, done)
            run = self.expr(s["c"], run, env, depth)
            c = self.const(s["c"], env)
            if c is not None:
                return rest + self.block(s["x"] if c else s.get("y"), run, env, depth, done)
            other = [p.fork() for p in run][:self.limit]
            for p in run:
                p.guards.append((s["c"], True, env))
            for p in other:
                p.guards.append((s["c"], False, env))
            return rest + self.cut(self.block(s["x"], run, env, depth, done) + self.block(s.get("y"), other, env, depth, done))
        if k == "switch":
            run = self.expr(s["c"], run, env, depth)
            v = self.const(s["c"], env)
            items = self.flat(s["body"])
            starts = [i for i, (lab, _) in enumerate(items) if lab is not None and lab != "default" and (v is None or lab == v)]
            if v is not None and not starts or v is None:
                starts += [i for i, (lab, _) in enumerate(items) if lab == "default"]
            res = []
            if v is not None:
                starts = starts[:1]
            for i in starts:
                ps = [p.fork() for p in run] if len(starts) > 1 else run
                for lab, st in items[i:]:
                    if st is not None:
                        ps = self.block(st, ps, env, depth, done)
                res += ps
            if not starts:
                res = run
            for p in res:
                if p.end == "break":
                    p.end = None
            return rest + self.cut(res)
        if k in ("for", "while", "do", "rfor"):
            if s.get("init"):
                run = self.block(s["init"], run, env, depth, done)
            for x in ("c", "range"):
                if s.get(x):
                    run = self.expr(s[x], run, env, depth)
            if k == "rfor":
                for p in run:
                    p.events.append((dict(k="loopvar", var=s["var"], range=s["range"], l=s.get("l", 0)), env))
            run = self.block(s["body"], run, env, depth, done)
            for p in run:
                if p.end in ("break", "cont"):
                    p.end = None
            if s.get("inc"):
                run = self.expr(s["inc"], run, env, depth)
            return rest + run
        if k == "decl":
            for d in s["d"]:
                if d.get("k") == "var" and d.get("init") is not None:
                    run = self.expr(d["init"], run, env, depth)
                    if d["id"] not in env.changed:
                        env.b[d["id"]] = (d["init"], env)
                for p in run:
                    p.events.append((d, env))
            return rest + run
        if k == "ret":
            if s.get("e"):
                run = self.expr(s["e"], run, env, depth)
            for p in run:
                p.end, p.ret = "ret", (s["e"], env) if s.get("e") else None
            return rest + run
        if k in ("break", "cont"):
            for p in run:
                p.end = k
            return rest + run
        if k == "try":
            return rest + self.block(s["body"], run, env, depth, done)
        if k == "nop":
            return live
        return rest + self.expr(s, run, env, depth)

    def flat(self, body):
        """[(label or None, statement)] of a switch body."""
        out = []
        for s in body["s"] if body["k"] == "blk" else [body]:
            while s is not None and s["k"] in ("case", "default"):
                out.append((s["cv"] if s["k"] == "case" else "default", None))
                s = s.get("s")
            out.append((None, s))
        return out

    def cut(self, ps):
        return ps[:self.limit]

    def expr(self, e, run, env, depth):
        """Evaluates an expression: its nodes become events, own methods are entered."""
        if e is None:
            return run
        for n in post(e, self, env):
            if n["k"] == "throw":
                for p in run:
                    p.events.append((n, env))
                    p.end = "throw"
                return run
            for p in run:
                p.events.append((n, env))
            if n["k"] == "call" and not n.get("op") and n.get("fk") and depth < 6:
                f = self.prog.fn(n["fk"])
                if f and f.get("body") and f["file"].startswith("src/") and self.inline(f):
                    sub = self.paths(f, Env({q["id"]: (a, env) for q, a in zip(f["params"], n["a"])}, env), depth + 1)
                    res = []
                    for p in run:
                        for q in sub:
                            r = p.fork()
                            r.events += q.events
                            r.guards += q.guards
                            if q.end == "throw":
                                r.end = "throw"
                            res.append(r)
                    res = self.cut(res)
                    run = [p for p in res if p.end is None] or res
                    if all(p.end is not None for p in run):
                        return run
        return run


def changed(f):
    """Locals that are assigned after their declaration."""
    if "_changed" not in f:
        out = set()
        for n in walk(f["body"]):
            x = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                x = strip(n["x"])
            elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--", "&"):
                x = strip(n["x"])
            elif n["k"] == "call" and n.get("op") in ("=", "+=", "-=", "++", "--", "|="):
                x = strip(n["a"][0])
            if x is not None and x["k"] == "ref" and "id" in x:
                out.add(x["id"])
        f["_changed"] = out
    return f["_changed"]


def post(e, spec, env):
    """Nodes of an expression in evaluation order (children first); branches that are not taken are left out."""
    if e["k"] == "cond":
        c = spec.const(e["c"], env)
        if c is not None:
            yield from post(e["c"], spec, env)
            yield from post(e["x"] if c else e["y"], spec, env)
            return
    if e["k"] == "lambda":
        yield e
        return
    for c in children(e):
        yield from post(c, spec, env)
    yield e
