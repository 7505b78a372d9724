"""Control-flow graphs over the extracted program, with inlining of calls, exception edges, destructor nodes and
short-circuit evaluation, and a property simulation (forward dataflow over sets of finite states) on them.

A graph node has
  kind  'ev'     an expression event (call, ctor, new, delete, throw, assignment, increment, lambda, var initialised)
        'br'     a two-way branch on expression n (successor labels True / False)
        'sw'     a switch (labels: case value or 'default')
        'dtor'   the end of life of a local (n = its declaration) or temporary (n = the expression)
        'catch'  entry of a handler
        'enter'/'leave'  begin / end of an inlined call
        'entry', 'exit', 'xexit' (left by an exception), 'nop'
  n, fr the syntax node and the frame (activation) it belongs to
  succ  [(target, label)];  exc  target of the exception edge or None
"""
from base import walk, strip, short, show, const_int, children

PASS_CALLS = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof"}
LOCKFN = {"wlock", "rlock"}


class Frame:
    count = 0

    def __init__(self, fn, parent=None, call=None, binds=None, this=None, lexical=None):
        Frame.count += 1
        self.uid = Frame.count
        self.fn = fn
        self.parent = parent
        self.call = call
        self.binds = binds or {}
        self.this = this            # (expr, frame) or None
        self.lexical = lexical      # frame in which a lambda was written
        self.vars = {}
        self.written = None

    def depth(self):
        d, f = 0, self
        while f.parent:
            d += 1
            f = f.parent
        return d

    def where(self, n=None):
        return "%s:%d" % (self.fn["file"], (n or self.fn).get("l", self.fn.get("l", 0)))

    def owner(self, vid):
        """The frame in which variable vid lives (lambda bodies see the variables of the enclosing function)."""
        f = self
        while f is not None:
            if vid in f.vars or vid in f.binds or any(p["id"] == vid for p in f.fn.get("params", [])):
                return f
            f = f.lexical
        return self

    def this_frame(self):
        f = self
        while f.lexical is not None and f.this is None:
            f = f.lexical
        return f


class Node:
    __slots__ = ("i", "kind", "n", "fr", "succ", "exc", "x")

    def __init__(self, i, kind, n, fr):
        self.i, self.kind, self.n, self.fr = i, kind, n, fr
        self.succ, self.exc, self.x = [], None, None

    def loc(self):
        return self.fr.where(self.n) if self.fr else ""

    def __repr__(self):
        return "<%d %s %s %s>" % (self.i, self.kind, show(self.n)[:60] if self.n else "", self.loc())


class Cleanup:
    __slots__ = ("kind", "n", "fr", "up", "node", "tmp")

    def __init__(self, kind, n, fr, up):
        self.kind, self.n, self.fr, self.up, self.node = kind, n, fr, up, None


def is_class_type(t):
    t = t.replace("const ", "").strip()
    return not (t.endswith(("*", "&")) or t in ("bool", "int", "char", "float", "double", "long", "short", "void",
                                                "unsigned int", "unsigned long", "unsigned char", "unsigned short",
                                                "unsigned long long", "long long", "size_t"))


def is_assert_throw(n):
    """throw ad_semsearch::Exception(ASSERT_FAILED...)"""
    if n is None or n["k"] != "throw" or not n.get("e"):
        return False
    return any(x["k"] == "ref" and x.get("dk") == "enum" and "ASSERT_FAILED" in x.get("n", "") for x in walk(n["e"]))


def ends_in_assert(s):
    while s is not None and s["k"] == "blk":
        xs = [x for x in s["s"] if x and x["k"] != "nop"]
        s = xs[-1] if xs else None
    return is_assert_throw(s)


class Graph:
    def __init__(self, prog, fn, inline=None, max_depth=6, asserts=False, raii=None, lambdas=None, this=None, max_nodes=60000):
        """inline(fn record, call, frame) -> bool; asserts: follow failing AD_CHECKs; raii(type) -> keep temporaries
        of this type alive to the end of the full expression; lambdas(call) -> 'loop' (called 0..n times during the
        call), 'once', 'skip'."""
        self.prog = prog
        self.nodes = []
        self.inline = inline or (lambda f, c, fr: True)
        self.max_depth = max_depth
        self.asserts = asserts
        self.raii = raii or (lambda t: False)
        self.lambdas = lambdas or default_lambdas
        self.max_nodes = max_nodes
        self.root = Frame(fn, this=this)
        self.entry = self.new("entry", fn, self.root)
        self.exit = self.new("exit", fn, self.root)
        self.xexit = self.new("xexit", fn, self.root)
        end = self.function(fn, self.root, [(self.entry, None)], None)
        self.link(end, self.exit)
        self._pred = None

    # -- plumbing
    def new(self, kind, n, fr):
        nd = Node(len(self.nodes), kind, n, fr)
        self.nodes.append(nd)
        if len(self.nodes) > self.max_nodes:
            from facts import AnalysisError
            raise AnalysisError("control-flow graph of %s is too large" % self.root.fn["qn"])
        return nd

    def link(self, preds, node):
        for p, lab in preds:
            p.succ.append((node.i, lab))

    def add(self, kind, n, cur, cx, throws=False):
        nd = self.new(kind, n, cx.fr)
        self.link(cur, nd)
        if throws:
            nd.exc = self.raise_to(cx.cl, cx)
        return [(nd, None)], nd

    def raise_to(self, cl, cx):
        """Index of the node an exception raised with cleanups cl goes to."""
        if cl is None:
            return self.xexit.i
        if cl.node is not None:
            return cl.node.i
        if cl.kind == "try":
            raise AssertionError
        nd = self.new("dtor", cl.n, cl.fr)
        nd.x = "unwind"
        cl.node = nd
        nd.succ.append((self.raise_to(cl.up, cx), None))
        return nd.i

    # -- functions
    def function(self, fn, fr, cur, cl, lam=None):
        """Builds the body of fn in frame fr; returns the dangling normal ends."""
        cx = Ctx(fr, cl)
        for i in fn.get("inits", []) or []:
            if i.get("e"):
                cur = self.full(i["e"], cur, cx)
                cur, nd = self.add("ev", dict(k="minit", n=i.get("n") or i.get("f"), f=i.get("n") or i.get("f"), e=i["e"], l=i["e"].get("l", fn["l"])), cur, cx)
        if fn.get("body"):
            cur = self.stmt(fn["body"], cur, cx)
        # gotos
        for lab, preds in cx.gotos:
            if lab in cx.labels:
                self.link(preds, cx.labels[lab])
        return cur + cx.rets

    # -- statements
    def unwind(self, cur, cx, upto):
        """Emits destructor nodes for the cleanups above `upto`."""
        cl = cx.cl
        while cl is not upto:
            if cl is None:
                break
            if cl.kind == "dtor":
                nd = self.new("dtor", cl.n, cl.fr)
                self.link(cur, nd)
                cur = [(nd, None)]
            cl = cl.up
        return cur

    def stmt(self, s, cur, cx):
        if s is None or not cur:
            if s is not None and any(x["k"] == "label" for x in walk(s)):
                pass
            else:
                return cur
        k = s["k"]
        f = getattr(self, "s_" + k, None)
        if f:
            return f(s, cur, cx)
        return self.full(s, cur, cx)

    def s_blk(self, s, cur, cx):
        save = cx.cl
        for x in s["s"]:
            if x is not None:
                cur = self.stmt(x, cur, cx)
        cur = self.unwind(cur, cx, save) if cur else cur
        cx.cl = save
        return cur

    def s_nop(self, s, cur, cx):
        return cur

    def s_log(self, s, cur, cx):
        # evaluates its operands, produces nothing
        save, cx.in_log = cx.in_log, True
        cur = self.full(s["e"], cur, cx)
        cx.in_log = save
        return cur

    def s_decl(self, s, cur, cx):
        for d in s["d"]:
            if d.get("k") != "var":
                continue
            cur = self.vardecl(d, cur, cx)
        return cur

    def vardecl(self, d, cur, cx):
        cx.fr.vars[d["id"]] = d
        for b in d.get("bind", []) or []:
            cx.fr.vars[b["id"]] = dict(b, k="bind", of=d)
        if d.get("init"):
            save = cx.direct
            cx.direct = d["init"]
            cur = self.full(d["init"], cur, cx)
            cx.direct = save
        cur, nd = self.add("ev", d, cur, cx)
        if is_class_type(d.get("t", "")):
            cx.cl = Cleanup("dtor", d, cx.fr, cx.cl)
        return cur

    def s_if(self, s, cur, cx):
        save = cx.cl
        if s.get("init"):
            cur = self.stmt(s["init"], cur, cx)
        if s.get("cvar"):
            cur = self.stmt(s["cvar"], cur, cx)
        if s.get("cx") and "cv" in s:
            br = s["x"] if s["cv"] else s.get("y")
            cur = self.stmt(br, cur, cx) if br else cur
        elif not self.asserts and ends_in_assert(s["x"]) and not s.get("y"):
            t, f = self.cond(s["c"], cur, cx)
            cur = f
        else:
            t, f = self.cond(s["c"], cur, cx)
            a = self.stmt(s["x"], t, cx)
            b = self.stmt(s["y"], f, cx) if s.get("y") else f
            cur = a + b
        cur = self.unwind(cur, cx, save) if cur else cur
        cx.cl = save
        return cur

    def loop(self, s, cur, cx, c, body, inc=None, pre_test=True):
        head = self.new("nop", s, cx.fr)
        self.link(cur, head)
        cur = [(head, None)]
        save = (cx.brk, cx.cont, cx.loopcl)
        cx.brk, cx.cont, cx.loopcl = [], [], cx.cl
        if pre_test:
            t, f = self.cond(c, cur, cx) if c else (cur, [])
            b = self.stmt(body, t, cx)
            b = b + cx.cont
            if inc and b:
                b = self.full(inc, b, cx)
            self.link(b, head)
            out = f + cx.brk
        else:
            b = self.stmt(body, cur, cx)
            b = b + cx.cont
            t, f = self.cond(c, b, cx) if b else ([], [])
            self.link(t, head)
            out = f + cx.brk
        cx.brk, cx.cont, cx.loopcl = save
        return out

    def s_for(self, s, cur, cx):
        save = cx.cl
        if s.get("init"):
            cur = self.stmt(s["init"], cur, cx)
        out = self.loop(s, cur, cx, s.get("c"), s["body"], s.get("inc"))
        out = self.unwind(out, cx, save) if out else out
        cx.cl = save
        return out

    def s_while(self, s, cur, cx):
        return self.loop(s, cur, cx, s["c"], s["body"])

    def s_do(self, s, cur, cx):
        return self.loop(s, cur, cx, s["c"], s["body"], pre_test=False)

    def s_rfor(self, s, cur, cx):
        cur = self.full(s["range"], cur, cx)
        head = self.new("br", dict(k="more", range=s["range"], l=s["l"], rfor=s), cx.fr)
        self.link(cur, head)
        save = (cx.brk, cx.cont, cx.loopcl)
        scl = cx.cl
        cx.brk, cx.cont, cx.loopcl = [], [], cx.cl
        v = s["var"]
        cx.fr.vars[v["id"]] = dict(v, k="var", of_range=s["range"])
        for b in v.get("bind", []) or []:
            cx.fr.vars[b["id"]] = dict(b, k="bind", of=v)
        b = [(head, True)]
        nd = self.new("ev", dict(v, k="var", of_range=s["range"], l=s["l"]), cx.fr)
        self.link(b, nd)
        b = self.stmt(s["body"], [(nd, None)], cx)
        self.link(b + cx.cont, head)
        out = [(head, False)] + cx.brk
        cx.brk, cx.cont, cx.loopcl = save
        cx.cl = scl
        return out

    def s_switch(self, s, cur, cx):
        save0 = cx.cl
        if s.get("init"):
            cur = self.stmt(s["init"], cur, cx)
        cur = self.full(s["c"], cur, cx)
        sw = self.new("sw", s, cx.fr)
        self.link(cur, sw)
        save = (cx.brk, cx.loopcl)
        # 'continue' keeps going to the enclosing loop
        cx.brk = []
        savecl, cx.swcl = cx.swcl, cx.cl
        body = s["body"]["s"] if s["body"]["k"] == "blk" else [s["body"]]
        cur = []
        default = False
        scl = cx.cl
        for x in body:
            while x is not None and x["k"] in ("case", "default"):
                lab = x.get("cv") if x["k"] == "case" else "default"
                default = default or x["k"] == "default"
                cur = cur + [(sw, lab)]
                x = x["s"]
            if x is not None and cur:
                cur = self.stmt(x, cur, cx)
        if not default:
            cur = cur + [(sw, "default")]
        out = (self.unwind(cur, cx, scl) if cur else cur) + cx.brk
        cx.cl = save0
        cx.swcl = savecl
        cx.brk, cx.loopcl = save
        return out

    def s_case(self, s, cur, cx):
        return self.stmt(s["s"], cur, cx)

    s_default = s_case

    def s_break(self, s, cur, cx):
        tgt = cx.swcl if cx.swcl is not None and self.deeper(cx.swcl, cx.loopcl) else cx.loopcl
        cx.brk += self.unwind(cur, cx, self.innermost(cx))
        return []

    def innermost(self, cx):
        return cx.break_cl()

    def deeper(self, a, b):
        while a is not None:
            if a is b:
                return True
            a = a.up
        return b is None

    def s_cont(self, s, cur, cx):
        cx.cont += self.unwind(cur, cx, cx.loopcl)
        return []

    def s_ret(self, s, cur, cx):
        if s.get("e"):
            save, cx.direct = cx.direct, s["e"]
            cur = self.full(s["e"], cur, cx)
            cx.direct = save
        cur, nd = self.add("ev", s, cur, cx)
        cx.rets += self.unwind(cur, cx, cx.base)
        return []

    def s_goto(self, s, cur, cx):
        cx.gotos.append((s.get("n"), cur))
        return []

    def s_label(self, s, cur, cx):
        nd = self.new("nop", s, cx.fr)
        self.link(cur, nd)
        cx.labels[s.get("n")] = nd
        return self.stmt(s["s"], [(nd, None)], cx)

    def s_try(self, s, cur, cx):
        disp = self.new("nop", s, cx.fr)
        outer = cx.cl
        m = Cleanup("try", s, cx.fr, outer)
        m.node = disp
        cx.cl = m
        end = self.stmt(s["body"], cur, cx)
        cx.cl = outer
        outs = list(end)
        all_caught = False
        for h in s["h"]:
            c = self.new("catch", dict(h, k="catch", l=h.get("l", h["body"].get("l", s["l"]))), cx.fr)
            disp.succ.append((c.i, h.get("t", "...")))
            if h.get("var") and isinstance(h["var"], dict):
                cx.fr.vars[h["var"]["id"]] = h["var"]
            save = cx.handler
            cx.handler = outer
            outs += self.stmt(h["body"], [(c, None)], cx)
            cx.handler = save
            if h.get("t", "...") == "..." or h.get("all"):
                all_caught = True
        if not all_caught:
            disp.succ.append((self.raise_to(outer, cx), "uncaught"))
        return outs

    def s_omp(self, s, cur, cx):
        return self.stmt(s["body"], cur, cx) if s.get("body") else cur

    # -- conditions
    def cond(self, e, cur, cx):
        """Returns (preds if true, preds if false)."""
        if not cur:
            return [], []
        x = e
        while x["k"] == "cast":
            x = x["e"]
        if x["k"] == "un" and x["op"] == "!":
            t, f = self.cond(x["x"], cur, cx)
            return f, t
        if x["k"] == "bin" and x["op"] in ("&&", "||"):
            t1, f1 = self.cond(x["x"], cur, cx)
            if x["op"] == "&&":
                t2, f2 = self.cond(x["y"], t1, cx)
                return t2, f1 + f2
            t2, f2 = self.cond(x["y"], f1, cx)
            return t1 + t2, f2
        if x["k"] == "bool":
            return (cur, []) if x["v"] else ([], cur)
        if x["k"] == "int":
            return (cur, []) if x["v"] else ([], cur)
        cur = self.full(x, cur, cx)
        if not cur:
            return [], []
        nd = self.new("br", x, cx.fr)
        self.link(cur, nd)
        return [(nd, True)], [(nd, False)]

    # -- expressions
    def full(self, e, cur, cx):
        """A full expression: temporaries die at its end."""
        save = cx.cl
        cur = self.ex(e, cur, cx)
        cur = self.unwind(cur, cx, save) if cur else cur
        cx.cl = save
        return cur

    def ex(self, e, cur, cx):
        if e is None or not cur:
            return cur
        k = e["k"]
        if k in ("ref", "this", "int", "char", "flt", "str", "bool", "null", "sizeof"):
            return cur
        if k == "defarg":
            return cur
        if k == "bin":
            op = e["op"]
            if op in ("&&", "||"):
                t, f = self.cond(e, cur, cx)
                return t + f
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                cur = self.ex(e["y"], cur, cx)
                cur = self.ex(e["x"], cur, cx)
                return self.add("ev", e, cur, cx)[0] if cur else cur
            cur = self.ex(e["x"], cur, cx)
            return self.ex(e["y"], cur, cx)
        if k == "cond":
            t, f = self.cond(e["c"], cur, cx)
            return self.ex(e["x"], t, cx) + self.ex(e["y"], f, cx)
        if k == "un":
            cur = self.ex(e["x"], cur, cx)
            if e["op"] in ("++", "--", "p++", "p--") and cur:
                return self.add("ev", e, cur, cx)[0]
            return cur
        if k == "throw":
            if e.get("e"):
                cur = self.ex(e["e"], cur, cx)
            if not cur:
                return cur
            if is_assert_throw(e) and not self.asserts:
                return []
            c2, nd = self.add("ev", e, cur, cx, True)
            if e.get("e") is None and cx.handler is not MISSING:
                pass
            return []
        if k == "lambda":
            for c in e.get("caps", []) or []:
                if isinstance(c.get("init"), dict):
                    cur = self.ex(c["init"], cur, cx)
                    cx.fr.vars[c["id"]] = dict(k="var", id=c["id"], n=c.get("n"), t=c.get("t", ""), init=c["init"])
            return self.add("ev", e, cur, cx)[0] if cur else cur
        if k in ("call", "ctor"):
            return self.call(e, cur, cx)
        if k == "new":
            for c in children(e):
                cur = self.ex(c, cur, cx)
            return self.add("ev", e, cur, cx, True)[0] if cur else cur
        if k == "delete":
            cur = self.ex(e.get("e") or e.get("x"), cur, cx)
            return self.add("ev", e, cur, cx)[0] if cur else cur
        for c in children(e):
            if c["k"] not in ("blk",):
                cur = self.ex(c, cur, cx)
        return cur

    def call(self, e, cur, cx):
        if e.get("o"):
            cur = self.ex(e["o"], cur, cx)
        elif e.get("ce") and not e.get("fk"):
            for c in children(e["ce"]):
                cur = self.ex(c, cur, cx)
        lams = []
        if e.get("op") == "=" and len(e["a"]) == 2:
            order = [e["a"][1], e["a"][0]]
        else:
            order = e["a"]
        for a in order:
            cur = self.ex(a, cur, cx)
        if not cur:
            return cur
        for a in e["a"]:
            l = self.lambda_of(a, cx.fr)
            if l is not None:
                lams.append(l)
        # lambda called directly
        if e["k"] == "call":
            lam = None
            if e.get("op") == "()" and e["a"]:
                lam = self.lambda_of(e["a"][0], cx.fr)
                args = e["a"][1:]
            elif not e.get("fk") and e.get("ce"):
                lam = self.lambda_of(e["ce"], cx.fr)
                args = e["a"]
            if lam is not None:
                r = self.inline_lambda(lam, e, args, cur, cx)
                if r is not None:
                    return r
        tg = self.prog.targets(e) if e["k"] == "call" else ([e["fk"]] if e.get("fk") in self.prog.raw["F"] else [])
        fns = [self.prog.fn(t) for t in tg]
        fns = [f for f in fns if f.get("body") or f.get("inits")]
        chain = self.stack_keys(cx.fr)
        throws = not e.get("nx")
        if fns and cx.fr.depth() < self.max_depth and not any(f["key"] in chain for f in fns) \
                and all(self.inline(f, e, cx.fr) for f in fns) and len(fns) <= 6:
            outs = []
            start, nd0 = self.add("enter", e, cur, cx, False)
            if e["k"] == "call" and e.get("virt") and len(tg) != len(fns):
                pass
            for f in fns:
                outs += self.inline_call(f, e, [(nd0, None)], cx)
            if outs:
                outs, nd = self.add("leave", e, outs, cx, False)
                nd.x = "call"
                self.temp(e, cx)
            return outs
        # not inlined: lambda arguments may run during the call
        if lams:
            pol = self.lambdas(e)
            for l in lams:
                if pol == "loop":
                    head = self.new("br", dict(k="more", l=e.get("l", 0)), cx.fr)
                    self.link(cur, head)
                    r = self.inline_lambda(l, e, None, [(head, True)], cx)
                    if r:
                        self.link(r, head)
                    cur = [(head, False)]
                elif pol == "once":
                    r = self.inline_lambda(l, e, None, cur, cx)
                    cur = r if r is not None else cur
        if not cur:
            return cur
        cur, nd = self.add("ev", e, cur, cx, throws and not cx.in_log)
        self.temp(e, cx)
        return cur

    def temp(self, e, cx):
        if cx.direct is None or (e is not cx.direct and strip(cx.direct) is not e):
            if self.raii(e.get("t", "")) and not e.get("t", "").endswith(("&", "*")):
                cx.cl = Cleanup("dtor", e, cx.fr, cx.cl)

    def stack_keys(self, fr):
        r = set()
        while fr is not None:
            r.add(fr.fn.get("key"))
            fr = fr.parent
        return r

    def inline_call(self, f, e, cur, cx):
        args = e["a"]
        this = None
        if e["k"] == "call":
            if e.get("mo") and args:
                this, args = (args[0], cx.fr), args[1:]
            elif e.get("o"):
                this = (e["o"], cx.fr)
        binds = {}
        for p, a in zip(f["params"], args):
            binds[p["id"]] = (a, cx.fr)
        fr = Frame(f, cx.fr, e, binds, this)
        if e["k"] == "ctor":
            fr.this = (e, cx.fr)
        # exceptions leave through the caller's cleanups
        return self.function(f, fr, cur, cx.cl)

    def lambda_of(self, e, fr, depth=0):
        """(lambda node, frame it was written in) denoted by e, or None"""
        e = strip(e)
        while e["k"] == "ctor" and len(e["a"]) == 1:
            e = strip(e["a"][0])
        if e["k"] == "lambda":
            return (e, fr)
        if e["k"] == "ref" and "id" in e and depth < 8:
            o = fr.owner(e["id"])
            if e["id"] in o.binds:
                a, f2 = o.binds[e["id"]]
                return self.lambda_of(a, f2, depth + 1)
            d = o.vars.get(e["id"])
            if d is not None and d.get("init"):
                return self.lambda_of(d["init"], o, depth + 1)
        return None

    def inline_lambda(self, lam, e, args, cur, cx):
        node, lfr = lam
        if node["key"] in self.stack_keys(cx.fr) or cx.fr.depth() >= self.max_depth + 2:
            return None
        fn = dict(key=node["key"], qn=lfr.fn.get("qn", "") + "::lambda", file=lfr.fn["file"], l=node.get("l", 0),
                  params=node.get("params", []), body=node.get("body"), n="lambda")
        binds = {}
        for p, a in zip(node.get("params", []), args or []):
            binds[p["id"]] = (a, cx.fr)
        fr = Frame(fn, cx.fr, e, binds, None, lexical=lfr)
        st, nd0 = self.add("enter", e, cur, cx)
        nd0.x = "lambda"
        outs = self.function(fn, fr, st, cx.cl)
        if outs:
            outs, nd = self.add("leave", e, outs, cx)
            nd.x = "lambda"
        return outs

    # -- queries
    def preds(self):
        if self._pred is None:
            self._pred = {}
            for n in self.nodes:
                for t, lab in n.succ:
                    self._pred.setdefault(t, []).append((n.i, lab))
                if n.exc is not None:
                    self._pred.setdefault(n.exc, []).append((n.i, "exc"))
        return self._pred

    def reachable(self):
        seen = {self.entry.i}
        st = [self.entry.i]
        while st:
            n = self.nodes[st.pop()]
            for t in [t for t, _ in n.succ] + ([n.exc] if n.exc is not None else []):
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return seen

    def find_path(self, starts, goal, avoid=lambda n: False, exc=True, from_succ=True):
        """A path of nodes from one of `starts` to a node satisfying goal, not through nodes satisfying avoid
        (None if there is none)."""
        prev = {}
        st = []
        for s in starts:
            prev[s] = None
            if from_succ:
                n = self.nodes[s]
                for t in [t for t, _ in n.succ] + ([n.exc] if exc and n.exc is not None else []):
                    if t not in prev:
                        prev[t] = s
                        st.append(t)
            else:
                st.append(s)
        k = 0
        while k < len(st):
            i = st[k]
            k += 1
            n = self.nodes[i]
            if goal(n):
                path = []
                while i is not None:
                    path.append(self.nodes[i])
                    i = prev[i]
                return path[::-1]
            if avoid(n):
                continue
            for t in [t for t, _ in n.succ] + ([n.exc] if exc and n.exc is not None else []):
                if t not in prev:
                    prev[t] = i
                    st.append(t)
        return None


MISSING = object()


class Ctx:
    def __init__(self, fr, cl):
        self.fr, self.cl, self.base = fr, cl, cl
        self.brk, self.cont, self.rets = [], [], []
        self.loopcl = cl
        self.swcl = None
        self.gotos, self.labels = [], {}
        self.handler = MISSING
        self.direct = None
        self.in_log = False

    def break_cl(self):
        """The cleanup level of the innermost loop or switch."""
        if self.swcl is None:
            return self.loopcl
        # the deeper of the two is the innermost
        c = self.cl
        while c is not None:
            if c is self.swcl:
                return self.swcl
            if c is self.loopcl:
                return self.loopcl
            c = c.up
        return self.loopcl


def default_lambdas(call):
    fn = call.get("fn", "")
    if fn.startswith(("std::async", "std::thread", "std::packaged_task", "std::function", "std::jthread", "std::make_shared",
                      "std::make_unique", "std::vector", "std::invoke_result")):
        return "skip"
    if call["k"] == "ctor":
        return "skip"
    return "loop"


# ---------------------------------------------------------------- canonical access paths
def canon(e, fr, prog=None, depth=0):
    """Access path of the object an expression denotes: a tuple starting with ('this',uid) / ('v',uid,id) / ('p',id) / ('g',name)."""
    if e is None:
        f = fr.this_frame()
        if f.this is not None:
            return canon(f.this[0], f.this[1], prog, depth + 1)
        return (("this",),)
    if depth > 40:
        return (("e", id(e)),)
    e = strip(e)
    k = e["k"]
    if k == "this":
        f = fr.this_frame()
        if f.this is not None:
            return canon(f.this[0], f.this[1], prog, depth + 1)
        return (("this",),)
    if k == "ref":
        if "id" in e:
            o = fr.owner(e["id"])
            if e["id"] in o.binds:
                a, f2 = o.binds[e["id"]]
                return canon(a, f2, prog, depth + 1)
            d = o.vars.get(e["id"])
            if d is not None:
                if d.get("k") == "bind":
                    return (("v", o.uid, d["of"]["id"]), d.get("n"))
                t = d.get("t", "")
                init = d.get("init")
                if d.get("of_range") is not None and (t.endswith(("&", "*"))):
                    return canon(d["of_range"], o, prog, depth + 1) + ("[]",)
                if init is not None and not d.get("static") and not reassigned(o, e["id"]) and (
                        t.endswith(("&", "*")) or "LockPtr<" in t or "shared_ptr<" in t or "unique_ptr<" in t or "iterator" in t.lower()):
                    return canon(init, o, prog, depth + 1)
                return (("v", o.uid, e["id"]),)
            if any(p["id"] == e["id"] for p in o.fn.get("params", [])):
                return (("p", o.uid, e["id"]),)
            return (("v", o.uid, e["id"]),)
        return (("g", e.get("qn") or e.get("n", "?")),)
    if k == "mem":
        if "fk" in e and not e.get("f"):
            return (("e", id(e)),)
        return canon(e.get("b"), fr, prog, depth + 1) + (e["n"],)
    if k == "un" and e["op"] in ("*", "&"):
        return canon(e["x"], fr, prog, depth + 1)
    if k == "sub":
        return canon(e["b"], fr, prog, depth + 1) + ("[]",)
    if k == "call":
        n = short(e)
        op = e.get("op")
        if op in ("*", "->") and len(e["a"]) == 1:
            return canon(e["a"][0], fr, prog, depth + 1)
        if op == "[]" and e["a"]:
            return canon(e["a"][0], fr, prog, depth + 1) + ("[]",)
        if n in ("get", "wlock", "rlock", "operator->", "operator*", "lock", "value", "c_str", "data") and e.get("o") and not e["a"]:
            return canon(e["o"], fr, prog, depth + 1)
        if n in ("at", "front", "back", "begin", "end", "find", "cbegin", "cend") and e.get("o"):
            return canon(e["o"], fr, prog, depth + 1) + ("[]",)
        if prog is not None and e.get("fk"):
            f = prog.fn(e["fk"])
            r = accessor(f)
            if r is not None:
                args = e["a"]
                fr2 = Frame(f, fr, e, {p["id"]: (a, fr) for p, a in zip(f["params"], args)},
                            (e["o"], fr) if e.get("o") else None)
                return canon(r, fr2, prog, depth + 1)
        return (("e", id(e)),)
    if k == "ctor" and len(e["a"]) == 1:
        return canon(e["a"][0], fr, prog, depth + 1)
    if k == "new":
        return (("new", id(e)),)
    return (("e", id(e)),)


def accessor(f):
    """The returned expression of a function that does nothing but return a member."""
    if f is None or not f.get("body"):
        return None
    st = [x for x in f["body"]["s"] if x and x["k"] not in ("nop", "log")] if f["body"]["k"] == "blk" else []
    if len(st) == 1 and st[0]["k"] == "ret" and st[0].get("e"):
        e = strip(st[0]["e"])
        b = e
        while b is not None and b["k"] in ("mem", "un", "cast", "call"):
            if b["k"] == "mem":
                if not b.get("b"):
                    return e
                b = b["b"]
            elif b["k"] == "un" and b["op"] in ("*", "&"):
                b = b["x"]
            elif b["k"] == "cast":
                b = b["e"]
            elif b["k"] == "call" and b.get("op") in ("*", "->", "[]") and b["a"]:
                b = b["a"][0]
            elif b["k"] == "call" and short(b) == "get" and b.get("o"):
                b = b["o"]
            else:
                return None
        if b is not None and b["k"] == "this":
            return e
    return None


def reassigned(fr, vid):
    """Is local variable vid of frame fr assigned after its initialisation?"""
    if fr.written is None:
        fr.written = set()
        if fr.fn.get("body"):
            for n in walk(fr.fn["body"]):
                if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    x = strip(n["x"])
                    if x["k"] == "ref" and "id" in x:
                        fr.written.add(x["id"])
                elif n["k"] == "call" and n.get("op") in ("=", "++", "--", "+=") and n["a"]:
                    x = strip(n["a"][0])
                    if x["k"] == "ref" and "id" in x:
                        fr.written.add(x["id"])
                elif n["k"] == "un" and n["op"] in ("++", "--", "p++", "p--"):
                    x = strip(n["x"])
                    if x["k"] == "ref" and "id" in x:
                        fr.written.add(x["id"])
                elif n["k"] == "call" and short(n) in ("reset", "swap") and n.get("o"):
                    x = strip(n["o"])
                    if x["k"] == "ref" and "id" in x:
                        fr.written.add(x["id"])
    return vid in fr.written


# ---------------------------------------------------------------- property simulation
class Sim:
    """Forward simulation of a finite state over a graph.

    step(node, state) -> iterable of states after the node (normal completion); xstep(node, state) -> iterable of states
    on the exception edge (default: the state before).  Values of local bool / enum variables that are assigned
    constants are tracked so that branches on them are followed consistently."""

    def __init__(self, g, init, step, xstep=None, throws=None, track=True, limit=400000, refine=None):
        self.g = g
        self.step = step
        self.xstep = xstep or (lambda n, s: [s])
        self.throws = throws or (lambda n: True)
        self.refine = refine
        self.tracked = self.find_tracked() if track else set()
        start = (g.entry.i, init, frozenset())
        self.prev = {start: None}
        work = [start]
        self.at = {}
        while work:
            cur = work.pop()
            i, s, env = cur
            n = g.nodes[i]
            self.at.setdefault(i, set()).add((s, env))
            if len(self.prev) > limit:
                from facts import AnalysisError
                raise AnalysisError("state space of %s too large" % g.root.fn["qn"])
            if n.exc is not None and self.throws(n):
                for s2 in self.xstep(n, s):
                    self.push((n.exc, s2, env), cur, work)
            env2 = self.assign(n, env)
            outs = list(step(n, s))
            for t, lab in n.succ:
                e3 = env2
                if n.kind == "br":
                    e3 = self.branch(n, lab, env2)
                    if e3 is None:
                        continue
                elif n.kind == "sw":
                    v = self.value(n.n["c"], n.fr, env2)
                    if v is not None:
                        labs = [l for _, l in n.succ]
                        if lab != v and not (lab == "default" and v not in labs):
                            continue
                for s2 in outs:
                    if self.refine:
                        s2 = self.refine(n, lab, s2)
                        if s2 is None:
                            continue
                    self.push((t, s2, e3), cur, work)

    def push(self, st, cur, work):
        if st not in self.prev:
            self.prev[st] = cur
            work.append(st)

    def find_tracked(self):
        r = set()
        for n in self.g.nodes:
            if n.kind == "br":
                e = strip(n.n)
                if e["k"] == "bin" and e["op"] in ("==", "!="):
                    for x in (strip(e["x"]), strip(e["y"])):
                        if x["k"] == "ref" and "id" in x:
                            r.add(self.key(x, n.fr))
                if e["k"] == "ref" and "id" in e:
                    r.add(self.key(e, n.fr))
            elif n.kind == "sw":
                e = strip(n.n["c"])
                if e["k"] == "ref" and "id" in e:
                    r.add(self.key(e, n.fr))
        return {x for x in r if x is not None and x[1] not in self.escaped()}

    def escaped(self):
        """Local variables that can change behind the back of the graph: written in a lambda or aliased."""
        if not hasattr(self, "_esc"):
            self._esc = set()
            for f in {id(n.fr.fn): n.fr.fn for n in self.g.nodes if n.fr is not None}.values():
                for n in walk(f["body"]):
                    if n["k"] == "lambda":
                        for m in walk(n["body"]):
                            x = None
                            if m["k"] == "bin" and m["op"].endswith("=") and m["op"] not in ("==", "!=", "<=", ">="):
                                x = strip(m["x"])
                            elif m["k"] == "un" and m["op"].lstrip("p") in ("++", "--"):
                                x = strip(m["x"])
                            if x is not None and x["k"] == "ref" and "id" in x:
                                self._esc.add(x["id"])
                    elif n["k"] == "var" and n.get("init") and n.get("t", "").endswith(("&", "*")) and not n["t"].startswith("const "):
                        x = strip(n["init"])
                        if x["k"] == "un" and x["op"] == "&":
                            x = strip(x["x"])
                        if x["k"] == "ref" and "id" in x:
                            self._esc.add(x["id"])
        return self._esc

    def key(self, e, fr):
        o = fr.owner(e["id"])
        if e["id"] in o.binds:
            a, f2 = o.binds[e["id"]]
            a = strip(a)
            if a["k"] == "ref" and "id" in a:
                return self.key(a, f2)
            return None
        return (o.uid, e["id"])

    def const(self, e, fr):
        e = strip(e)
        if e["k"] == "ref" and "id" in e:
            o = fr.owner(e["id"])
            if e["id"] in o.binds:
                a, f2 = o.binds[e["id"]]
                return self.const(a, f2)
        return const_int(e)

    def value(self, e, fr, env):
        e = strip(e)
        c = self.const(e, fr)
        if c is not None:
            return c
        if e["k"] == "ref" and "id" in e:
            k = self.key(e, fr)
            for kk, v in env:
                if kk == k:
                    return v
        return None

    def assign(self, n, env):
        if n.kind != "ev" or not self.tracked:
            return env
        e = n.n
        tgt = val = None
        if e["k"] == "var":
            k = (n.fr.uid, e["id"])
            if k in self.tracked:
                v = self.value(e["init"], n.fr, env) if e.get("init") else None
                env = frozenset(x for x in env if x[0] != k)
                return env | {(k, v)} if v is not None else env
            return env
        if e["k"] == "bin" and e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="):
            x = strip(e["x"])
            if x["k"] == "ref" and "id" in x:
                k = self.key(x, n.fr)
                if k in self.tracked:
                    v = self.value(e["y"], n.fr, env) if e["op"] == "=" else None
                    env = frozenset(y for y in env if y[0] != k)
                    return env | {(k, v)} if v is not None else env
        if e["k"] == "un":
            x = strip(e["x"])
            if x["k"] == "ref" and "id" in x:
                k = self.key(x, n.fr)
                return frozenset(y for y in env if y[0] != k)
        if e["k"] in ("call", "ctor"):
            # passed by reference: unknown afterwards
            for a, p in zip(e["a"], e.get("pk", "")):
                x = strip(a)
                if p in "rp" and x["k"] in ("ref", "un"):
                    if x["k"] == "un" and x["op"] == "&":
                        x = strip(x["x"])
                    if x["k"] == "ref" and "id" in x:
                        k = self.key(x, n.fr)
                        env = frozenset(y for y in env if y[0] != k)
        return env

    def branch(self, n, lab, env):
        e = strip(n.n)
        if e["k"] == "ref" and "id" in e:
            v = self.value(e, n.fr, env)
            if v is not None:
                return env if bool(v) == lab else None
            k = self.key(e, n.fr)
            if k in self.tracked and e.get("t", "").replace("const ", "") == "bool":
                return env | {(k, int(lab))}
            return env
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            a, b = self.value(e["x"], n.fr, env), self.value(e["y"], n.fr, env)
            if a is not None and b is not None:
                return env if (a == b) == (lab == (e["op"] == "==")) else None
            for x, c in ((strip(e["x"]), b), (strip(e["y"]), a)):
                if c is not None and x["k"] == "ref" and "id" in x and (lab == (e["op"] == "==")):
                    k = self.key(x, n.fr)
                    if k in self.tracked:
                        return frozenset(y for y in env if y[0] != k) | {(k, c)}
        return env

    def states(self, node):
        return {s for s, _ in self.at.get(node.i, ())}

    def witness(self, node, state=None):
        """Locations along one path to node in the given state."""
        cand = [k for k in self.prev if k[0] == node.i and (state is None or k[1] == state)]
        if not cand:
            return []
        c = cand[0]
        path = []
        while c is not None:
            path.append(self.g.nodes[c[0]])
            c = self.prev[c]
        path.reverse()
        return path


def path_text(path, maxn=8):
    """Short description of a path: the branches and calls on it."""
    out = []
    for n in path:
        if n.kind in ("ev", "br", "catch", "sw") and n.n and n.n["k"] in ("call", "ctor", "throw", "catch", "bin", "ref", "ret", "mem", "switch"):
            t = "%s %s" % (n.loc(), "catch" if n.kind == "catch" else show(n.n)[:50])
            if not out or out[-1] != t:
                out.append(t)
    if len(out) > maxn:
        out = out[:2] + ["..."] + out[-(maxn - 3):]
    return " -> ".join(out)
