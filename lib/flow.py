"""Access-path flow analysis.

Evaluates a function body abstractly: every expression is mapped to the set of
access paths (member chains below `this` of the root function) it denotes or is
computed from.  Calls to functions of the code base are followed (parameters
and `this` are bound to the paths of the arguments), so extracting a helper
does not change the result.  Branches are all taken, except where a condition
compares a path with an enumerator that the `mode` fixes.

Two results are collected:
  reads  - all paths whose value is used (path -> list of locations)
  value  - for the returned value, the paths it is computed from, with the
           quality EXACT (the value itself or an injective rendering of it) or
           LOSSY (only something derived from it)
"""
import re
from base import walk, strip, short, show

EXACT, LOSSY = 2, 1
SIZE = "#size"
COL = "#col"   # path component: 'the column a variable name is mapped to'


class Val:
    __slots__ = ("al", "fl", "sp", "var", "lam", "lits")

    def __init__(self, al=frozenset(), fl=None, sp=None, var=None, lam=None):
        self.al = frozenset(al)
        self.fl = dict(fl or {})
        for p in self.al:
            self.fl[p] = EXACT
        self.sp = sp
        self.var = var
        self.lam = lam

    def join(self, o):
        v = Val(self.al | o.al, self.fl, self.sp or o.sp, self.var if self.var == o.var else None, self.lam or o.lam)
        for p, q in o.fl.items():
            v.fl[p] = max(q, v.fl.get(p, 0))
        return v

    def lossy(self):
        return Val((), {p: LOSSY for p in self.fl})

    def flows(self):
        return Val((), self.fl)

    def key(self):
        return (self.al, tuple(sorted(self.fl.items())), self.sp, id(self.lam[0]) if self.lam else 0)


EMPTY = Val()
ELEM = {"operator[]", "at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "data",
        "top", "lower_bound", "upper_bound"}
PASS = {"value", "get", "operator*", "operator->", "str", "c_str", "move", "forward", "to_string", "lock", "view",
        "as_const", "ref", "cref", "make_optional", "value_or", "base", "string", "asString"}
MUT = {"push_back", "emplace_back", "append", "insert", "emplace", "push", "add", "assign", "operator+=", "operator="}
COMB = {"operator+", "StrCat", "join", "make_pair", "make_tuple", "tie", "make_shared", "make_unique", "max", "min", "pair",
        "quoted", "setw"}


class Flow:
    def __init__(self, prog, mode=None, skip_call=None, special=None, max_depth=12):
        self.prog = prog
        self.mode = mode or {}        # path -> int value
        self.reads = {}
        self.lits = []                # string literals streamed into something, in order
        self.skip_call = skip_call or (lambda call: False)
        self.special = special or (lambda flow, call, env, consume: None)
        self.max_depth = max_depth
        self.ptype = {}
        self.stack = []
        self.memo = {}
        self.ret = []
        self.visited = set()
        self.cur = None
        self.loops = []               # (fn, loop node, container paths, full?)
        self.calls_seen = {}
        self.capture = []
        self.consulted = set()
        self.guard_contexts = False   # analyse functions once per guard they are called under
        self.guards = []              # conditions on the object's state that hold here
        self.emitted = {}             # path -> set of guard tuples under which it is rendered
        self.read_guards = {}         # path -> set of paths its reads are guarded by (intersection)

    # ---- entry
    def run(self, fn, this=frozenset({()}), args=None):
        return self.call_fn(fn, Val(this), [Val() for _ in fn["params"]] if args is None else args, {})

    def call_fn(self, fn, this, args, env0):
        if fn["key"] in [s[0] for s in self.stack] and len([s for s in self.stack if s[0] == fn["key"]]) >= 2:
            return Val()
        if len(self.stack) >= self.max_depth:
            return Val()
        mk = (fn["key"], this.key(), tuple(a.key() for a in args), tuple(sorted(self.ctlfl().items())),
              tuple(self.guards) if self.guard_contexts else ())
        if not any(a.lam for a in args) and mk in self.memo:
            v, reads = self.memo[mk]
            return v
        self.visited.add(fn["key"])
        env = {"this": this}
        for p, a in zip(fn["params"], args):
            env[p["id"]] = a
        for p in fn["params"][len(args):]:
            env[p["id"]] = Val()
        saved = self.cur
        self.cur = fn
        self.stack.append((fn["key"], fn))
        self.ret.append(Val())
        for i in fn.get("inits", []):
            if i.get("e"):
                self.ev(i["e"], env)
        if fn.get("body"):
            self.st(fn["body"], env)
        v = self.ret.pop()
        self.stack.pop()
        self.cur = saved
        self.memo[mk] = (v, None)
        return v

    ctl = None

    def ctlfl(self):
        return self.ctl.fl if self.ctl else {}

    def with_ctl(self, val, body):
        old = self.ctl
        self.ctl = val.flows() if old is None else old.join(val.flows())
        body()
        self.ctl = old

    def split(self, f, g, env):
        """Two alternatives chosen by something that is not part of the object:
        only what flows in both of them flows for certain."""
        self.capture.append(set())
        f()
        a = self.capture.pop()
        self.capture.append(set())
        g()
        b = self.capture.pop()
        for var, p in a & b:
            if self.capture:
                self.capture[-1].add((var, p))
            else:
                v = env.get(var, Val())
                env[var] = Val(v.al, {**v.fl, p: EXACT}, v.sp, v.var, v.lam)

    def log(self, v, node):
        for p in v.fl:
            if p:
                here = {q for g in self.guards for q in g[2]}
                self.read_guards[p] = self.read_guards[p] & here if p in self.read_guards else here
                self.reads.setdefault(p, [])
                if len(self.reads[p]) < 6:
                    self.reads[p].append("%s:%d" % (self.cur["file"], node.get("l", 0)))

    def into(self, env, var, val):
        """val flows into local object var."""
        if var is None:
            return
        cur = env.get(var, Val())
        add = val.flows()
        if self.capture:
            for p, q in add.fl.items():
                if q == EXACT:
                    self.capture[-1].add((var, p))
            add = add.lossy()
        if self.ctl:
            add = add.join(self.ctl)
        nv = Val(cur.al, cur.fl, cur.sp, cur.var, cur.lam)
        for p, q in add.fl.items():
            nv.fl[p] = max(q, nv.fl.get(p, 0))
        env[var] = nv

    # ---- conditions under the mode
    def decide(self, e, env):
        e = strip(e)
        k = e["k"]
        if k == "bool":
            return bool(e.get("v"))
        if k == "un" and e["op"] == "!":
            d = self.decide(e["x"], env)
            return None if d is None else not d
        if k == "bin" and e["op"] in ("&&", "||"):
            a, b = self.decide(e["x"], env), self.decide(e["y"], env)
            if e["op"] == "&&":
                if a is False or b is False:
                    return False
                return True if a and b else None
            if a or b:
                return True
            return False if a is False and b is False else None
        if not self.mode:
            return None
        if k == "call" and e.get("op") in ("==", "!=") and len(e["a"]) == 2:
            e = dict(k="bin", op=e["op"], x=e["a"][0], y=e["a"][1])
            k = "bin"
        if k == "bin" and e["op"] in ("==", "!="):
            for x, y in ((e["x"], e["y"]), (e["y"], e["x"])):
                y = strip(y)
                while y["k"] == "ctor" and len(y["a"]) == 1:
                    y = strip(y["a"][0])
                if y["k"] == "ref" and y.get("dk") == "enum":
                    m = self.mode_value(x, env)
                    if m is not None:
                        return (m == y["v"]) == (e["op"] == "==")
                if y["k"] in ("bool", "null"):
                    m = self.mode_value(x, env)
                    if m is not None:
                        return (m == int(y.get("v") or 0)) == (e["op"] == "==")
            return None
        while k == "call" and short(e) in ("operator bool", "has_value") and e.get("o"):
            e = strip(e["o"])
            k = e["k"]
        if k in ("mem", "ref"):
            m = self.mode_value(e, env)
            if m is not None:
                return bool(m)
        return None

    def mode_value(self, e, env):
        if not self.mode:
            return None
        v = self.ev(e, env, False)
        if len(v.al) == 1:
            p = next(iter(v.al))
            if p in self.mode:
                self.consulted.add(p)
                return self.mode[p]
        return None

    def guarded(self, cond, pol, tests, body):
        self.guards.append((id(cond), pol, frozenset(q for t in tests for q, _ in t), tuple(frozenset(t) for t in tests)))
        body()
        self.guards.pop()

    def tests(self, e, env):
        """State paths a condition tests: per conjunct [(path, benign)].  A test is benign if it
        only tells an absent, empty or constant value from the others."""
        e = strip(e)
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            return self.tests(e["x"], env) + self.tests(e["y"], env)
        if e["k"] == "un" and e["op"] == "!":
            return self.tests(e["x"], env)
        if self.decide(e, env) is not None:
            return []
        op = e.get("op")
        if e["k"] == "bin" and op in ("==", "!=", "<", ">", "<=", ">="):
            x, y = e["x"], e["y"]
        elif e["k"] == "call" and op in ("==", "!=", "<", ">", "<=", ">=") and len(e["a"]) == 2:
            x, y = e["a"]
        else:
            v = self.ev(e, env, False)
            return [[(q[:-1] if q and q[-1] == SIZE else q, True) for q in v.fl]]
        a, b = self.ev(x, env, False), self.ev(y, env, False)
        c = strip(y) if not b.fl else strip(x)
        zero = c["k"] == "int" and (c.get("v") == 0 or c.get("v") == 1 and op in ("<", ">="))
        res = []
        for q in {**a.fl, **b.fl}:
            if q and q[-1] == SIZE:
                res.append((q[:-1], zero))
            else:
                res.append((q, op in ("==", "!=") and not (a.fl and b.fl)))
        return [res]

    # ---- statements
    def st(self, s, env):
        if s is None:
            return
        k = s["k"]
        if k == "blk":
            if self.raises(s):
                return
            for x in s["s"]:
                if x:
                    self.st(x, env)
        elif k == "decl":
            for d in s["d"]:
                self.vardecl(d, env)
        elif k == "if":
            if s.get("init"):
                self.st(s["init"], env)
            if s.get("cvar"):
                self.st(s["cvar"], env)
            if s.get("cx") and "cv" in s:
                self.st(s["x"] if s["cv"] else s.get("y"), env)
                return
            d = self.decide(s["c"], env)
            if d is True:
                return self.st(s["x"], env)
            if d is False:
                return self.st(s.get("y"), env)
            c = self.cond_val(s["c"], env)
            tests = self.tests(s["c"], env)

            def both():
                self.guarded(s["c"], True, tests, lambda: self.st(s["x"], env))
                self.guarded(s["c"], False, tests, lambda: self.st(s.get("y"), env))
            if c.fl:
                self.with_ctl(c, both)
            else:
                self.split(lambda: self.st(s["x"], env), lambda: self.st(s.get("y"), env), env)
        elif k == "switch":
            m = self.mode_value(s["c"], env)
            body = s["body"]["s"] if s["body"]["k"] == "blk" else [s["body"]]
            if m is not None:
                self.st_switch(body, m, env)
            else:
                c = self.ev(s["c"], env)
                self.with_ctl(c, lambda: self.st(s["body"], env))
        elif k in ("case", "default"):
            self.st(s["s"], env)
        elif k == "for":
            if s.get("init"):
                self.st(s["init"], env)
            c = self.cond_val(s["c"], env).lossy() if s.get("c") else Val()
            self.note_loop(s, env)

            def body():
                for _ in range(2):
                    self.st(s["body"], env)
                    if s.get("inc"):
                        self.st(s["inc"], env)
            self.with_ctl(c, body)
        elif k in ("while", "do"):
            if s.get("cvar"):
                self.st(s["cvar"], env)
            c = self.cond_val(s["c"], env).lossy()

            def body2():
                for _ in range(2):
                    self.st(s["body"], env)
            self.with_ctl(c, body2)
        elif k == "rfor":
            r = self.ev(s["range"], env, False)
            v = Val([p + ("*",) for p in r.al], {p: q for p, q in r.fl.items() if p not in r.al}, None)
            if r.sp:
                v.sp = None
            for p in r.al:
                self.ptype.setdefault(p + ("*",), s["var"]["t"])
            env[s["var"]["id"]] = v
            for b in s["var"].get("bind", []):
                env[b["id"]] = v
            self.note_loop(s, env, r)
            for _ in range(2):
                self.st(s["body"], env)
        elif k == "ret":
            if s.get("e"):
                v = self.ev(s["e"], env, False)
                z = strip(s["e"])
                while z["k"] == "ctor" and z["a"] and all(x["k"] == "defarg" for x in z["a"][1:]):
                    z = strip(z["a"][0])
                if z["k"] == "str":
                    self.lits.append("=" + str(z.get("v")))
                if self.ctl:
                    v = v.join(self.ctl)
                self.ret[-1] = self.ret[-1].join(v)
        elif k == "try":
            self.st(s["body"], env)
            for h in s["h"]:
                self.st(h["body"], env)
        elif k in ("log", "nop", "break", "cont", "goto"):
            pass
        elif k == "label":
            self.st(s["s"], env)
        elif k == "omp":
            if s.get("body"):
                self.st(s["body"], env)
        else:
            self.ev(s, env)

    def raises(self, s):
        """A block that only prepares an exception and throws it: no result."""
        return bool(s["s"]) and s["s"][-1] is not None and s["s"][-1]["k"] == "throw" and \
            all(x["k"] in ("decl", "call", "log", "throw", "nop") for x in s["s"])

    def st_switch(self, body, m, env):
        # flatten the labels: list of (set of values or 'default', stmts...)
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x.get("cv") if x["k"] == "case" else "default")
                x = x["s"]
            items.append((labels, x))
        has = any(m in l for l, _ in items)
        active = False
        for labels, x in items:
            if m in labels or (not has and "default" in labels):
                active = True
            if not active or x is None:
                continue
            if self.ends_with_break(x, env):
                break
        return

    def ends_with_break(self, x, env):
        """Executes x; True if it certainly leaves the switch."""
        if x["k"] == "break":
            return True
        if x["k"] == "blk":
            for y in x["s"]:
                if self.ends_with_break(y, env):
                    return True
            return False
        self.st(x, env)
        return x["k"] in ("ret", "cont", "throw")

    def note_loop(self, s, env, r=None):
        if r is not None:
            for p in r.al:
                self.loops.append((self.cur, s, p, True, ""))
            return
        # index loops: for (i = A; i < X.size() [- c]; ++i)
        c = strip(s["c"]) if s.get("c") else None
        if not c or c["k"] != "bin" or c["op"] not in ("<", "!=", "<="):
            return
        rhs = strip(c["y"])
        deficit = 0
        if rhs["k"] == "bin" and rhs["op"] == "-" and strip(rhs["y"])["k"] == "int":
            deficit = strip(rhs["y"])["v"]
            rhs = strip(rhs["x"])
        if c["op"] == "<=":
            deficit -= 1
        lhs = strip(c["x"])
        if lhs["k"] == "bin" and lhs["op"] == "+" and strip(lhs["y"])["k"] == "int":
            deficit += strip(lhs["y"])["v"]
            lhs = strip(lhs["x"])
        if rhs["k"] == "call" and short(rhs) == "size" and rhs.get("o"):
            v = self.ev(rhs["o"], env, False)
            start = None
            if s.get("init") and s["init"]["k"] == "decl" and s["init"]["d"]:
                ini = s["init"]["d"][0].get("init")
                ini = strip(ini) if ini else None
                if ini and ini["k"] == "int":
                    start = ini["v"]
            for p in v.al:
                full = deficit <= 0 and (start is None or start == 0)
                self.loops.append((self.cur, s, p, full, "starts at %s, leaves out %d" % (start, deficit)))

    def vardecl(self, d, env):
        if d.get("init"):
            v = self.ev(d["init"], env, False)
            nv = Val(v.al, v.fl, v.sp, None, v.lam)
            if self.ctl and not v.al:
                pass
            env[d["id"]] = nv
        else:
            env.setdefault(d["id"], Val())
        for b in d.get("bind", []):
            env[b["id"]] = env[d["id"]]

    def cond_val(self, e, env):
        """Flows of a condition; exact for the truth value of a bool path."""
        return self.ev(e, env)

    # ---- expressions
    def ev(self, e, env, consume=True):
        if e is None:
            return Val()
        k = e["k"]
        f = getattr(self, "x_" + k, None)
        if f:
            v = f(e, env, consume)
        else:
            v = Val()
            for c in self.kids(e):
                v = v.join(self.ev(c, env).lossy())
        return v

    def kids(self, e):
        from base import children
        return children(e)

    def x_this(self, e, env, consume):
        return env.get("this", Val())

    def x_ref(self, e, env, consume):
        if "id" in e:
            v = env.get(e["id"], Val())
            if consume:
                self.log(v, e)
            return Val(v.al, v.fl, v.sp, e["id"], v.lam)
        return Val()

    def x_mem(self, e, env, consume):
        b = e.get("b")
        bv = self.ev(b, env, False) if b else env.get("this", Val())
        fl = {p: q for p, q in bv.fl.items() if p not in bv.al}
        al = frozenset(p + (e["n"],) for p in bv.al if "fk" not in e)
        for p in al:
            self.ptype[p] = e.get("t", "")
        v = Val(al, fl)
        v.var = bv.var if b is not None and b["k"] != "this" else None
        if e.get("b", {}).get("k") == "this" and e.get("f", "").startswith("Operation::"):
            return Val()
        if consume:
            self.log(v, e)
        return v

    def elem(self, idx):
        """path component of an element access with index expression idx"""
        i = strip(idx) if idx is not None else None
        if i is not None and i["k"] == "int":
            return "#%d" % i["v"]
        return "*"

    def x_sub(self, e, env, consume):
        b = self.ev(e["b"], env, False)
        self.ev(e["i"], env)
        c = self.elem(e["i"])
        v = Val([p + (c,) for p in b.al], {p: q for p, q in b.fl.items() if p not in b.al})
        for p in v.al:
            self.ptype[p] = e.get("t", "")
        if consume:
            self.log(v, e)
        return v

    def x_cast(self, e, env, consume):
        if e.get("ck") == "ToVoid":
            consume = False
        return self.ev(e["e"], env, consume)

    def x_defarg(self, e, env, consume):
        return Val()

    def x_definit(self, e, env, consume):
        return Val()

    def x_list(self, e, env, consume):
        v = Val()
        for a in e["a"]:
            x = self.ev(a, env, False)
            v = Val(v.al | x.al, v.fl).join(x.flows()) if len(e["a"]) == 1 else v.join(x.flows())
        return v

    def x_lambda(self, e, env, consume):
        for c in e.get("caps", []):
            if isinstance(c.get("init"), dict):
                env[c["id"]] = self.ev(c["init"], env, False)
        return Val(lam=(e, env))

    def call_lambda(self, lam, args):
        node, env = lam
        key = node["key"]
        if any(s[0] == key for s in self.stack) or len(self.stack) > self.max_depth:
            return Val()
        for p, a in zip(node["params"], args):
            env[p["id"]] = a
        self.stack.append((key, self.cur))
        self.ret.append(Val())
        self.st(node["body"], env)
        v = self.ret.pop()
        self.stack.pop()
        return v

    def x_bin(self, e, env, consume):
        op = e["op"]
        if op == "=":
            r = self.ev(e["y"], env, False)
            l = self.ev(e["x"], env, False)
            if l.var is not None:
                if strip(e["x"])["k"] == "ref":
                    cur = env.get(l.var, Val())
                    nv = cur.join(Val(r.al, r.fl, r.sp, None, r.lam))
                    if self.ctl:
                        for p, q in self.ctl.fl.items():
                            nv.fl[p] = max(q, nv.fl.get(p, 0))
                    env[l.var] = nv
                else:
                    self.into(env, l.var, r)
            else:
                self.log(r, e)
            self.on_write(l, r, e, env)
            return r
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            r = self.ev(e["y"], env)
            l = self.ev(e["x"], env)
            self.into(env, l.var, r)
            self.on_write(l, r, e, env)
            return l
        if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">=", "<=>"):
            return self.ev(e["x"], env).lossy().join(self.ev(e["y"], env).lossy())
        if op == ",":
            self.ev(e["x"], env)
            return self.ev(e["y"], env)
        x, y = self.ev(e["x"], env), self.ev(e["y"], env)
        if op in ("+", "-") and (strip(e["x"])["k"] == "int" or strip(e["y"])["k"] == "int"):
            return x.flows().join(y.flows())
        return x.lossy().join(y.lossy())

    def on_write(self, lval, rval, node, env):
        pass

    def x_un(self, e, env, consume):
        op = e["op"]
        if op in ("*", "&"):
            return self.ev(e["x"], env, consume)
        v = self.ev(e["x"], env)
        if op == "!":
            return v.flows() if self.is_bool(v) else v.lossy()
        if op in ("++", "--", "p++", "p--"):
            return v
        return v.flows()

    def is_bool(self, v):
        return bool(v.al) and all(self.ptype.get(p, "").replace("const ", "") == "bool" for p in v.al)

    def x_cond(self, e, env, consume):
        d = self.decide(e["c"], env)
        if d is not None:
            z = strip(e["x"] if d else e["y"])
            while z["k"] == "ctor" and len(z["a"]) == 1:
                z = strip(z["a"][0])
            if z["k"] in ("str", "char", "int", "bool"):
                self.lits.append("?" + str(z.get("v")))
            return self.ev(e["x"] if d else e["y"], env, consume)
        c = self.ev(e["c"], env)
        x, y = self.ev(e["x"], env, consume), self.ev(e["y"], env, consume)
        a, b = strip(e["x"]), strip(e["y"])
        same = a["k"] == b["k"] and a["k"] in ("str", "char", "int", "bool") and a.get("v") == b.get("v")
        if a["k"] == "str" and b["k"] == "str" and not same:
            self.lits.append("?:")
        cv = Val() if same else (c.flows() if not x.fl and not y.fl and self.exact_cond(c) else c.lossy())
        r = x.join(y)
        return r.join(cv.flows())

    def exact_cond(self, c):
        return all(self.ptype.get(p, "").replace("const ", "") == "bool" for p in c.fl)

    def x_new(self, e, env, consume):
        return self.ev(e.get("init"), env, False) if e.get("init") else Val()

    def x_throw(self, e, env, consume):
        return Val()

    def x_str(self, e, env, consume):
        return Val()

    def x_ctor(self, e, env, consume):
        args = [self.ev(a, env, False) for a in e["a"]]
        if self.skip_call(e):
            return Val()
        s = self.special(self, e, env, consume)
        if s is not None:
            return s
        if args and all(a["k"] == "defarg" for a in e["a"][1:]):
            args = args[:1]
        if e.get("li") and e.get("fn", "").startswith("std::vector") and e["a"] and e["a"][0]["k"] == "list":
            return args[0].flows()
        if len(args) == 1 and (e.get("cm2") or e.get("fn", "").startswith("std::")):
            return args[0]
        v = Val()
        for a in args:
            v = v.join(a.flows())
            if a.lam:
                v.lam = a.lam
        t = self.prog.fn(e.get("fk", "")) if e.get("fk") else None
        if t is not None and t.get("body") and len(self.stack) < 6:
            self.call_fn(t, Val(), args, env)
        return v

    def x_call(self, e, env, consume):
        if self.skip_call(e):
            return Val()
        s = self.special(self, e, env, consume)
        if s is not None:
            return s
        name = short(e)
        op = e.get("op")
        args = e["a"]
        obj = e.get("o")
        if obj is None and not e.get("fk") and e.get("ce", {}).get("k") == "mem":
            obj = e["ce"].get("b")
        if op and e.get("mo") and args:
            obj, args = args[0], args[1:]
            name = "operator" + op
        elif op:
            name = "operator" + op
        # assignments through operator=
        if op == "=" and obj is not None:
            r = self.ev(args[0], env, False)
            l = self.ev(obj, env, False)
            if l.var is not None:
                if strip(obj)["k"] == "ref":
                    cur = env.get(l.var, Val())
                    env[l.var] = cur.join(Val(r.al, r.fl, r.sp, None, r.lam)).join(self.ctl or EMPTY)
                else:
                    self.into(env, l.var, r)
            elif l.al:
                pass
            else:
                self.log(r, e)
            self.on_write(l, r, e, env)
            return r
        # streams
        if op == "<<" and self.is_stream(e):
            allargs = e["a"]
            l = self.ev(allargs[0], env, False)
            r = self.ev(allargs[1], env)
            x = strip(allargs[1])
            self.emit(x, r)
            self.into(env, l.var, r)
            return Val(l.al, {**l.fl, **{p: max(q, l.fl.get(p, 0)) for p, q in r.fl.items()}}, None, l.var)
        if op == "()" and obj is not None:
            f = self.ev(obj, env, False)
            av = [self.ev(a, env, False) for a in args]
            if f.lam:
                return self.call_lambda(f.lam, av)
            return self.generic_call(e, f, av, args, env, obj)
        ov = self.ev(obj, env, False) if obj is not None else Val()
        if e.get("fn") in ("std::get_if", "std::get", "std::visit"):
            return self.variant(e, env, consume)
        if not e.get("fk") and ov.al and e.get("ce"):
            r = self.on_alternatives(ov, name, [self.ev(a, env, False) for a in args], env)
            if r is not None:
                return r
        # look-ups in a variable -> column map
        if ov.sp == "varmap" and name in ("operator[]", "at", "find", "contains", "count") and args:
            kv = self.ev(args[0], env, False)
            return self.colval(kv, e)
        if name == "getVariableColumn" and args:
            kv = self.ev(args[0], env, False)
            self.log(ov, e)
            return self.colval(kv, e)
        av = [self.ev(a, env, False) for a in args]
        if op == "[]" and not e.get("mo") and len(av) == 2:
            ov, av, args = av[0], av[1:], args[1:]
        if name in ("size", "empty", "length") and ov.al and not self.has_body(e):
            v = Val([p + (SIZE,) for p in ov.al], {p: q for p, q in ov.fl.items() if p not in ov.al})
            if consume:
                self.log(v, e)
            return v if name != "empty" else v.lossy()
        if name in ELEM and (ov.al or ov.fl) and not self.has_body(e):
            if not self.is_map(ov):
                for a, n in zip(av, args):
                    self.log(a, n)
            c = self.elem(args[0]) if name in ("operator[]", "at") and args else "*"
            v = Val([p + (c,) for p in ov.al], {p: q for p, q in ov.fl.items() if p not in ov.al}, ov.sp)
            v.var = ov.var
            for p in v.al:
                self.ptype.setdefault(p, e.get("t", ""))
            if consume:
                self.log(v, e)
            return v
        if name in PASS and not self.has_body(e):
            v = ov
            for a in av:
                v = v.join(a)
            if consume:
                self.log(v, e)
            return Val(v.al, v.fl, v.sp, ov.var, v.lam)
        if op in ("*", "->") and len(av) + (1 if obj is not None else 0) == 1:
            v = ov if obj is not None else av[0]
            if consume:
                self.log(v, e)
            return v
        if name in COMB or (op == "+"):
            v = ov.flows()
            for a, n in zip(av, args):
                self.log(a, n)
                v = v.join(a.flows())
                self.emit(strip(n), a)
            return v
        if (name in MUT or op in ("+=",)) and not self.has_body(e):
            for a, n in zip(av, args):
                self.emit(strip(n), a)
                self.into(env, ov.var, a)
                if ov.var is None:
                    self.log(a, n)
            self.on_write(ov, av[-1] if av else Val(), e, env)
            return ov
        return self.generic_call(e, ov, av, args, env, obj)

    def emit(self, x, v):
        for p, q in v.fl.items():
            if q == EXACT:
                self.emitted.setdefault(p, set()).add(tuple(self.guards))
        if x["k"] in ("str", "char"):
            self.lits.append(str(x.get("v")))
        else:
            while x["k"] == "ctor" and len(x["a"]) == 1:
                x = strip(x["a"][0])
            if x["k"] == "str":
                self.lits.append(str(x.get("v")))
            elif v.fl and not (x["k"] == "call" and x.get("op") == "<<"):
                self.lits.append(tuple(sorted(p for p, q in v.fl.items() if q == EXACT)))

    def variant(self, e, env, consume):
        if e["fn"] == "std::visit":
            f = self.ev(e["a"][0], env, False)
            vs = [self.ev(a, env, False) for a in e["a"][1:]]
            if f.lam:
                return self.call_lambda(f.lam, vs)
            return Val((), {p: LOSSY for v in vs for p in v.fl})
        v = self.ev(e["a"][0], env, False)
        t = e.get("t", "").replace("const ", "").rstrip("*& ").replace("add_pointer_t<", "").rstrip(">")
        al = [p + ("<%s>" % t.split("::")[-1],) for p in v.al]
        r = Val(al, {p: q for p, q in v.fl.items() if p not in v.al})
        for p in al:
            self.ptype[p] = t
        return r

    def on_alternatives(self, ov, name, av, env):
        """method call on a value of unknown variant alternative"""
        res = None
        for p in ov.al:
            t = self.ptype.get(p, "")
            m = re.search(r"variant<(.*)>", t)
            if not m:
                continue
            for alt in m.group(1).split(", "):
                for f in self.prog.method(alt, name):
                    r = self.call_fn(f, Val([p + ("<%s>" % alt.split("::")[-1],)]), av, env)
                    res = r if res is None else res.join(r)
        return res

    def is_stream(self, e):
        return "stream" in e.get("t", "") or "stream" in e.get("fk", "")[:200]

    def colval(self, kv, e):
        fl = {}
        for p, q in kv.fl.items():
            fl[p + (COL,)] = q
        v = Val()
        v.fl = fl
        for p in kv.al:
            self.reads.setdefault(p + (COL,), []).append("%s:%d" % (self.cur["file"], e.get("l", 0)))
        return v

    def is_map(self, v):
        return bool(v.al) and all(re.search(r"[mM]ap<", self.ptype.get(p, "")) for p in v.al)

    def has_body(self, e):
        return any(True for _ in self.prog.targets(e))

    def generic_call(self, e, ov, av, args, env, obj):
        targets = [t for t in self.prog.targets(e)]
        self.calls_seen.setdefault(e.get("fn", ""), e)
        lams = [a for a in av if a.lam]
        if targets and len(targets) <= 4:
            v = Val()
            for t in targets:
                f = self.prog.fn(t)
                r = self.call_fn(f, ov, av, env)
                v = v.join(r)
            # out parameters
            for i, (a, n) in enumerate(zip(av, args)):
                if a.var is not None and i < len(e.get("pk", "")) and e["pk"][i] in "rp":
                    pass
            return v
        # unknown function: all arguments are used, the result is derived from them
        allv = ov.flows()
        for a, n in zip(av, args):
            self.log(a, n)
            allv = allv.join(a.flows())
        if obj is not None:
            self.log(ov, obj)
        elems = Val()
        for a in av:
            elems = elems.join(Val(a.al, a.fl))
        for l in lams:
            self.call_lambda(l.lam, [elems] * len(l.lam[0]["params"]))
        pk = e.get("pk", "")
        for i, (a, n) in enumerate(zip(av, args)):
            if a.var is not None and i < len(pk) and pk[i] in "rp":
                self.into(env, a.var, allv.lossy())
        if obj is not None and ov.var is not None and not e.get("cm"):
            self.into(env, ov.var, allv)
        return allv.lossy()
