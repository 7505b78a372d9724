"""C16: background steps of the index build are finished before their result is used."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from cfg import Graph, Sim, canon
from place import Fn
from cg import CallGraph

ASYNC = "std::async"
WRITES = {"=", "+=", "-=", "*=", "/=", "|=", "&=", "<<=", ">>=", "++", "--"}


def is_future(t):
    t = (t or "").replace("const ", "").strip()
    return t.startswith(("std::future<", "std::shared_future<"))


def is_async(n):
    if n["k"] != "call":
        return False
    if n.get("fn"):
        return n["fn"] == ASYNC
    return (n.get("ce") or {}).get("n") == "async" or n.get("n") == "async"


def source_fns(prog):
    seen = set()
    for f in prog.all_fns():
        if f["file"].startswith("src/") and f.get("body") and (f["file"], f["l"], f["n"]) not in seen:
            seen.add((f["file"], f["l"], f["n"]))
            yield f


# ---------------------------------------------------------------- accesses
def kind_of(F, n):
    """'w' when the object n is changed or handed out for change where it is mentioned, else 'r'."""
    p, c = F.parent.get(id(n)), n
    while p is not None:
        if p["k"] in ("cast", "defarg") or p["k"] == "mem" and p.get("b") is c or p["k"] == "sub" and p.get("b") is c:
            p, c = F.parent.get(id(p)), p
            continue
        if p["k"] == "un":
            if p["op"].lstrip("p") in ("++", "--"):
                return "w"
            if p["op"] in ("&", "*"):
                q = F.parent.get(id(p))
                if p["op"] == "&" and not (q is not None and q["k"] in ("call", "ctor")):
                    return "w"
                p, c = q, p
                continue
            return "r"
        if p["k"] == "bin":
            return "w" if p["op"] in WRITES and p["x"] is c else "r"
        if p["k"] in ("call", "ctor"):
            if p.get("o") is c:
                if short(p) in ("get", "begin", "end", "operator->", "at", "front", "back", "data") and p.get("cm"):
                    return "r"
                return "r" if p.get("cm") else "w"
            a = p.get("a", [])
            i = next((j for j, x in enumerate(a) if x is c), None)
            if i is None:
                return "r"
            if p.get("op") in WRITES and i == 0:
                return "w"
            if p.get("op") in ("<<", ">>") and i == 0 and "stream" in (c.get("t") or ""):
                return "w"
            if p.get("op") in ("[]", "*", "->") and i == 0:
                if p.get("cm"):
                    return "r"
                p, c = F.parent.get(id(p)), p
                continue
            pk = p.get("pk", "")
            if p.get("mo"):
                if i == 0:
                    return "r" if p.get("cm") else "w"
                i -= 1
            return "w" if i < len(pk) and pk[i] in "rpm" else "r"
        return "r"
    return "r"


class Access:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.fns = {}

    def F(self, f):
        if id(f["body"]) not in self.fns:
            self.fns[id(f["body"])] = (Fn(self.prog, f), f)
        return self.fns[id(f["body"])][0]

    def fields(self, key, stack=()):
        """{field: kinds} of its own object that a method uses, called methods of the same object included."""
        if key in self.memo:
            return self.memo[key]
        f = self.prog.fn(key)
        if f is None or not f.get("body") or key in stack:
            return {}
        r = self.of(f, f["body"], stack + (key,))
        if not stack:
            self.memo[key] = r
        return r

    def of(self, f, root, stack=(), lambdas=True):
        r = {}
        F = self.F(f)
        for n in walk(root, into_lambdas=lambdas):
            if n["k"] == "mem" and n.get("f") and (n.get("b") is None or strip(n["b"])["k"] == "this"):
                r.setdefault(n["n"], set()).add(kind_of(F, n))
            elif n["k"] == "call" and n.get("fk") and (n.get("o") is None or strip(n["o"])["k"] == "this") and not n.get("sm"):
                g = self.prog.fn(n["fk"])
                if g is not None and g.get("cls"):
                    for k, v in self.fields(n["fk"], stack).items():
                        r.setdefault(k, set()).update(v)
        return r


# ---------------------------------------------------------------- tasks
def const_pointee(t):
    return (t or "").strip().startswith("const ")


class Task:
    """What a background step uses: {place: kinds}; place = ('f', field of this) or ('v', variable id)."""

    def __init__(self, prog, acc):
        self.prog, self.acc = prog, acc
        self.use = {}
        self.this = False           # does it hold a pointer to the object itself
        self.member_refs = []       # members it refers to directly (not through an owner)
        self.globals = set()
        self.starters = set()

    def add(self, place, kinds):
        self.use.setdefault(place, set()).update(kinds)


def place_of(e):
    """('f', name) / ('v', id) of the object an expression denotes or points to, else None; second: through an owner?"""
    own = False
    e = strip(e)
    while e is not None:
        if e["k"] == "un" and e["op"] in ("&", "*"):
            e = strip(e["x"])
        elif e["k"] == "call" and short(e) == "get" and e.get("o"):
            own = True
            e = strip(e["o"])
        elif e["k"] == "call" and e.get("op") in ("*", "->", "[]") and e["a"]:
            e = strip(e["a"][0])
        elif e["k"] == "call" and short(e) in ("ref", "cref", "addressof") and e["a"]:
            e = strip(e["a"][0])
        elif e["k"] == "sub":
            e = strip(e["b"])
        elif e["k"] == "mem" and e.get("b") is not None and strip(e["b"])["k"] not in ("this",):
            e = strip(e["b"])
        else:
            break
    if e is None:
        return None, own
    if e["k"] == "mem":
        return ("f", e["n"]), own
    if e["k"] == "ref" and "id" in e:
        return ("v", e["id"]), own
    return None, own


def use_in(acc, f, body, vid):
    F = acc.F(f)
    ks = set()
    for n in walk(body):
        if n["k"] == "ref" and n.get("id") == vid:
            p = F.parent.get(id(n))
            while p is not None and p["k"] == "cast":
                p = F.parent.get(id(p))
            ks.add("w" if p is not None and p["k"] == "call" and p.get("dep") and p.get("o") is not n else kind_of(F, n))
    return ks


def lambda_task(prog, acc, f, lam, task, binds=None):
    """Adds what a lambda written in f uses of the objects around it."""
    binds = binds or {}
    for c in lam.get("caps", []):
        if c.get("this"):
            task.this = True
            for k, v in acc.of(f, lam["body"]).items():
                task.add(("f", k), v)
            continue
        init = c.get("init")
        if init is not None:
            st = strip(init)
            ptr = (st.get("t") or "").rstrip().endswith("*") or st["k"] == "un" and st["op"] == "&" \
                or st["k"] == "call" and short(st) == "get" or st["k"] == "call" and short(st) in ("ref",)
            if c.get("by") == "ref" or ptr:
                pl, own = place_of(init)
                if pl is not None:
                    ks = use_in(acc, f, lam["body"], c["id"])
                    task.add(pl, ks or {"r"})
                    if pl[0] == "f" and not own:
                        task.member_refs.append(pl[1])
            continue
        vid = c.get("id")
        if c.get("by") == "ref":
            task.add(("v", vid), use_in(acc, f, lam["body"], vid) or {"r"})
        else:
            t = next((n.get("t", "") for n in walk(lam["body"]) if n["k"] == "ref" and n.get("id") == vid), "")
            if t.rstrip().endswith("*") and not const_pointee(t):
                if vid in binds:
                    pl, own = place_of(binds[vid])
                    if pl is not None:
                        task.add(pl, {"w"})
                else:
                    F = acc.F(f)
                    v = F.vars.get(vid)
                    if v is not None and v.get("init"):
                        pl, own = place_of(v["init"])
                        if pl is not None:
                            task.add(pl, {"w"})


def lambda_of(acc, f, e):
    e = strip(e)
    while e["k"] == "ctor" and len(e["a"]) == 1:
        e = strip(e["a"][0])
    if e["k"] == "lambda":
        return e
    if e["k"] == "ref" and "id" in e:
        v = acc.F(f).vars.get(e["id"])
        if v is not None and v.get("init"):
            x = strip(v["init"])
            while x["k"] == "ctor" and len(x["a"]) == 1:
                x = strip(x["a"][0])
            if x["k"] == "lambda":
                return x
    return None


def async_calls(root, into=True):
    for n in walk(root, into_lambdas=into):
        if is_async(n):
            yield n


def task_of(prog, acc, f, value, depth=0):
    """The task whose future is the value of an expression."""
    t = Task(prog, acc)
    found = False
    for n in walk(value):
        if is_async(n):
            found = True
            for a in n["a"]:
                lam = lambda_of(acc, f, a)
                if lam is not None:
                    lambda_task(prog, acc, f, lam, t)
                elif strip(a)["k"] == "this":
                    t.this = True
                    for b in n["a"]:
                        for x in walk(b):
                            if x["k"] in ("ref", "mem") and x.get("fk"):
                                for k, v in acc.fields(x["fk"]).items():
                                    t.add(("f", k), v)
                elif strip(a)["k"] in ("un", "call"):
                    pl, own = place_of(a)
                    if pl is not None:
                        t.add(pl, {"w"})
        elif n["k"] == "call" and short(n) in ("apply", "invoke") and n["a"]:
            lam = lambda_of(acc, f, n["a"][0])
            if lam is not None and any(True for _ in async_calls(lam["body"])):
                found = True
                lambda_task(prog, acc, f, lam, t)
        elif n["k"] == "call" and n.get("fk") and is_future(n.get("t")) and depth < 3:
            g = prog.fn(n["fk"])
            if g is not None and g.get("body") and any(True for _ in async_calls(g["body"])):
                found = True
                binds = {p["id"]: a for p, a in zip(g["params"], n["a"])}
                for c in async_calls(g["body"]):
                    for a in c["a"]:
                        lam = lambda_of(acc, g, a)
                        if lam is not None:
                            sub = Task(prog, acc)
                            lambda_task(prog, acc, g, lam, sub, binds)
                            same = n.get("o") is None or strip(n["o"])["k"] == "this"
                            for pl, ks in sub.use.items():
                                if pl[0] == "f" and same:
                                    t.add(pl, ks)
                                elif pl[0] == "v":
                                    # a variable of g stays with g, unless it came from a parameter (bound above)
                                    if any(pl == place_of(b)[0] for b in binds.values()):
                                        t.add(pl, ks)
                            t.globals |= file_names(g["body"])
                            t.starters.add(n["fk"])
    return t if found else None


def file_names(root):
    """Global constants that are part of a file name in a piece of code."""
    r = set()
    for n in walk(root):
        if n["k"] == "ref" and "id" not in n and re.search(r"FILE|BASENAME|SUFFIX", n.get("n", "")):
            r.add(n["n"])
    return r


# ---------------------------------------------------------------- the rules
def check(prog, rep):
    rep.rule("get", "the result of a background step is obtained with get() before the step is started again or its future is dropped", 5)
    rep.rule("touch", "while a background step runs nobody else changes what it uses or uses what it changes", 5)
    rep.rule("files", "files that a background step writes are not used before it has finished", 1)
    rep.rule("lifetime", "what a background step of an object uses outlives the future that waits for it", 3)
    rep.rule("moved", "a background step of an object that is moved holds no pointer into the object itself", 1)
    rep.rule("all", "of several background steps each one is waited for", 1)
    rep.rule("error", "an error raised in a background step or in the build is passed on and ends the build", 6)
    rep.rule("thread", "every thread that is started is joined", 1)
    acc = Access(prog)
    cg = CallGraph(prog)
    rep.part(locals_, prog, rep, acc, cg)
    rep.part(members, prog, rep, acc)
    rep.part(arrays, prog, rep)
    rep.part(errors, prog, rep, cg)
    rep.part(threads, prog, rep)


def assigns(n):
    """(target, value) of an assignment node."""
    if n["k"] == "bin" and n["op"] == "=":
        return n["x"], n["y"]
    if n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
        return n["a"][0], n["a"][1]
    return None


def simulate(prog, f, same, entry, inline):
    """Typestate of one future: 'E' nothing pending, 'P' pending; returns graph, simulation, events."""
    g = Graph(prog, f, inline=inline, lambdas=lambda c: "skip")
    ev = {"start": [], "get": [], "wait": []}

    def what(nd):
        n = nd.n
        if nd.kind != "ev" or n is None:
            return None
        a = assigns(n)
        if a is not None and same(a[0], nd.fr):
            return "start"
        if n["k"] == "minit" and same(dict(k="mem", n=n.get("n"), f=n.get("n"), b=dict(k="this")), nd.fr) and any(True for _ in async_calls(n["e"])):
            return "start"
        if n["k"] == "call" and n.get("o") is not None and n.get("fn", "").startswith("std::") and same(n["o"], nd.fr):
            s = short(n)
            if s in ("get", "share"):
                return "get"
            if s in ("wait", "wait_for", "wait_until"):
                return "wait"
        if n["k"] == "var" and n.get("init") and is_future(n.get("t")) and same(dict(k="ref", id=n["id"], n=n["n"]), nd.fr) \
                and strip(n["init"])["k"] == "call":
            return "start"
        # moved away
        if n["k"] in ("call", "ctor") and any(p in "m" for p in n.get("pk", "")):
            for a, p in zip(n["a"], n.get("pk", "")):
                if p == "m" and same(a, nd.fr):
                    return "get"
        if n["k"] == "ret" and n.get("e") is not None and same(n["e"], nd.fr):
            return "get"
        return None
    memo = {}

    def w(nd):
        if nd.i not in memo:
            memo[nd.i] = what(nd)
        return memo[nd.i]

    def step(nd, s):
        k = w(nd)
        if k == "start":
            return ["P"]
        if k == "get":
            return ["E"]
        return [s]

    def refine(nd, lab, s):
        if nd.kind == "br" and nd.n is not None:
            e, pol = strip(nd.n), lab
            while e["k"] == "un" and e["op"] == "!":
                e, pol = strip(e["x"]), not pol
            if e["k"] == "call" and short(e) == "valid" and e.get("o") is not None and same(e["o"], nd.fr):
                if (s == "P") != bool(pol):
                    return None
        return s
    sim = Sim(g, entry, step, None, lambda nd: False, refine=refine)
    for nd in g.nodes:
        k = w(nd)
        if k in ev and sim.states(nd):
            ev[k].append(nd)
    return g, sim, ev


def swallow_statement(rep, f):
    """A future nobody keeps: the step is waited for at once and its error is lost."""
    for n in walk(f["body"]):
        if n["k"] == "blk":
            for s in n["s"]:
                x = s
                while x is not None and x["k"] == "cast":
                    x = x["e"]
                if x is not None and x["k"] == "call" and is_future(x.get("t")) and not x.get("op"):
                    rep.viol("get", "%s:dropped" % f["qn"], loc(f, x), "the future of a background step is dropped in %s: its errors are lost" % f["qn"])


def locals_(prog, rep, acc, cg):
    for f in source_fns(prog):
        if any(n["k"] == "call" and (n.get("fn") == ASYNC or is_future(n.get("t"))) for n in walk(f["body"])):
            swallow_statement(rep, f)
        for v in [n for n in walk(f["body"], into_lambdas=False) if n["k"] == "var" and is_future(n.get("t"))]:
            vid = v["id"]

            def same(e, fr, vid=vid):
                e = strip(e)
                return e["k"] == "ref" and e.get("id") == vid and fr.parent is None
            g, sim, ev = simulate(prog, f, same, "E", lambda h, c, fr: False)
            if not ev["start"]:
                continue
            name = v["n"]
            rep.inst("get", "%s %s in %s: %d starts, %d gets" % (loc(f, v), name, f["qn"], len(ev["start"]), len(ev["get"])))
            for nd in ev["start"]:
                if "P" in sim.states(nd):
                    rep.viol("get", "%s:%s:again" % (f["qn"], name), nd.loc(),
                             "%s is started again in %s while the previous step may still run (no get() in between)" % (name, f["qn"]))
            if "P" in sim.states(g.exit):
                rep.viol("get", "%s:%s:end" % (f["qn"], name), loc(f, v),
                         "%s can be left without %s.get(): an error of the step is lost" % (f["qn"], name))
            # conflicting uses
            for nd in ev["start"]:
                a = assigns(nd.n)
                val = a[1] if a else nd.n.get("init") or nd.n.get("e")
                t = task_of(prog, acc, f, val)
                if t is None:
                    continue
                # the previous step must be over before this one is even created
                rep.inst("touch", "%s %s uses %s" % (nd.loc(), name, ", ".join(sorted("%s(%s)" % (p[1], "".join(sorted(k))) for p, k in t.use.items())) or "nothing shared"))
                conflicts(prog, rep, acc, cg, f, g, sim, t, name, nd, skip_fut=("v", vid))


def conflicts(prog, rep, acc, cg, f, g, sim, t, name, start, skip_fut):
    F = acc.F(f)
    seen = set()
    if t.globals:
        rep.inst("files", "%s %s writes files named by %s" % (start.loc(), name, ", ".join(sorted(t.globals))))
    for nd in g.nodes:
        if nd.fr is not g.root or nd.kind not in ("ev", "br") or nd.n is None or "P" not in sim.states(nd):
            continue
        n = nd.n
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n["k"] == "lambda":
            continue
        if any(x["k"] == "call" and short(x) == "get" and x.get("o") is not None and place_of(x["o"])[0] == skip_fut for x in walk(n, into_lambdas=False)):
            continue
        uses = {}
        for x in walk(n, into_lambdas=False):
            if x["k"] == "mem" and x.get("f") and (x.get("b") is None or strip(x["b"])["k"] == "this"):
                uses.setdefault(("f", x["n"]), []).append((kind_of(F, x) if id(x) in F.parent else "r", x))
            elif x["k"] == "ref" and "id" in x:
                uses.setdefault(("v", x["id"]), []).append((kind_of(F, x) if id(x) in F.parent else "r", x))
            elif x["k"] == "call" and x.get("fk") and (x.get("o") is None or strip(x["o"])["k"] == "this") and not x.get("sm"):
                h = prog.fn(x["fk"])
                if h is not None and h.get("cls"):
                    for k, ks in acc.fields(x["fk"]).items():
                        for kk in ks:
                            uses.setdefault(("f", k), []).append((kk, x))
            if t.globals and x["k"] in ("call", "ctor") and x.get("fk") and prog.fn(x["fk"]) is not None and x is not start.n:
                for k in cg.reach([x["fk"]]):
                    h = prog.fn(k)
                    if h is not None and h.get("body") and file_names(h["body"]) & t.globals and k not in t.starters:
                        rep.viol("files", "%s:%s" % (f["qn"], short(x)), loc(f, x), "%s is called in %s while the step %s that writes these files (%s) may still run"
                                 % (short(x), f["qn"], name, ", ".join(sorted(file_names(h["body"]) & t.globals))))
                        break
        for pl, us in uses.items():
            if pl == skip_fut or pl not in t.use:
                continue
            for k, x in us:
                if k == "w" or "w" in t.use[pl]:
                    rep.viol("touch", "%s:%s:%s" % (f["qn"], name, show(x)[:40]), loc(f, x),
                             "%s %s while the background step %s, which %s it, may still run" % (
                                 show(x)[:60], "is changed" if k == "w" else "is used", name, "changes" if "w" in t.use[pl] else "uses"))
                    break


def members(prog, rep, acc):
    done = set()
    allfns = [f for f in prog.all_fns() if f.get("body") and f["file"].startswith("src/")]
    bycls = {}
    for f in allfns:
        if f.get("cls"):
            bycls.setdefault(f["cls"], []).append(f)
    for cls, r in prog.records.items():
        if cls.startswith("T:"):
            continue
        futs = [x for x in r.get("fields", []) if is_future(x.get("t"))]
        tmpl = re.sub(r"<.*", "", cls)
        ms = bycls.get(cls, [])
        if not futs or not ms or (tmpl in done):
            continue
        if not any(async_any(m) for m in ms):
            continue
        done.add(tmpl)
        order = [x["n"] for x in r["fields"]]
        for fl in futs:
            name = fl["n"]

            def same(e, fr, name=name, cls=cls):
                e = strip(e)
                return e["k"] == "mem" and e["n"] == name and (e.get("b") is None or strip(e["b"])["k"] == "this")
            gets = starts = 0
            tasks = []
            sims = []
            for m in ms:
                ctor = m["n"] == "(ctor)" or m["k"] == "ctor" or m["qn"].endswith("::" + short({"fn": tmpl}))
                g, sim, ev = simulate(prog, m, same, "E" if ctor else "P", lambda h, c, fr, cls=cls: h.get("cls") == cls)
                here = [nd for nd in ev["get"]]
                gets += len(here)
                starts += len(ev["start"])
                called = any(m["key"] == n.get("fk") for x in ms if x is not m for n in walk(x["body"]) if n["k"] == "call")
                if here or ctor:
                    for nd in ev["start"]:
                        if "P" in sim.states(nd):
                            rep.viol("get", "%s:%s:again" % (m["qn"], name), nd.loc(), "%s is started again in %s while the previous step may still run" % (name, m["qn"]))
                for n in walk(m["body"]):
                    a = assigns(n)
                    if a and strip(a[0])["k"] == "mem" and strip(a[0])["n"] == name:
                        t = task_of(prog, acc, m, a[1])
                        if t is not None:
                            tasks.append((m, n, t))
                sims.append((m, g, sim, ctor, bool(ev["start"]), bool(here), called))
            rep.inst("get", "%s::%s: %d starts, %d gets" % (tmpl, name, starts, gets))
            if starts and not gets:
                rep.viol("get", "%s::%s:never" % (tmpl, name), "%s:%d" % (ms[0]["file"], ms[0]["l"]), "the result of %s::%s is never obtained with get()" % (tmpl, name))
            use = {}
            for m, n, t in tasks:
                rep.inst("lifetime", "%s %s uses %s" % (loc(m, n), name, ", ".join(sorted(p[1] for p in t.use if p[0] == "f"))))
                for pl, ks in t.use.items():
                    if pl[0] == "f":
                        use.setdefault(pl[1], set()).update(ks)
                        if pl[1] in order and order.index(pl[1]) > order.index(name) and not r_dtor_waits(prog, ms, name):
                            rep.viol("lifetime", "%s::%s:%s" % (tmpl, name, pl[1]), loc(m, n),
                                     "%s is declared after %s, so it is destroyed before the step that uses it has finished" % (pl[1], name))
                    elif pl[0] == "v":
                        rep.viol("lifetime", "%s::%s:local" % (tmpl, name), loc(m, n), "the step of %s uses a local variable of %s by reference" % (name, m["qn"]))
                if is_moved(prog, tmpl):
                    rep.inst("moved", "%s %s::%s" % (loc(m, n), tmpl, name))
                    if t.this or t.member_refs:
                        rep.viol("moved", "%s::%s" % (tmpl, name), loc(m, n), "objects of %s are moved while the step of %s runs, but the step holds a pointer to %s"
                                 % (tmpl, name, "the object" if t.this else t.member_refs[0]))
            rep.inst("touch", "%s::%s: the step uses %s" % (tmpl, name, ", ".join("%s(%s)" % (k, "".join(sorted(v))) for k, v in sorted(use.items()))))
            for m, g, sim, ctor, st, gt, called in sims:
                if called and not gt:
                    continue            # a helper: seen where it is used
                fresh = st and not gt and not ctor
                seen = set()
                for nd in g.nodes:
                    if nd.kind not in ("ev", "br") or nd.n is None or "P" not in sim.states(nd):
                        continue
                    if fresh and not after_start(g, sim, nd, same):
                        continue        # opens the object: nothing runs yet
                    if nd.n["k"] == "lambda" or nd.n["k"] == "ret" and nd.n.get("e") is None:
                        continue
                    owner = nd.fr.fn
                    Fo = acc.F(owner)
                    if any(x["k"] == "call" and short(x) in ("get", "valid") and x.get("o") is not None and same(x["o"], nd.fr) for x in walk(nd.n, into_lambdas=False)):
                        continue
                    if nd.n["k"] == "var" and nd.n.get("init") is None:
                        continue
                    for x in walk(nd.n, into_lambdas=False):
                        if x["k"] == "mem" and x.get("f") and (x.get("b") is None or strip(x["b"])["k"] == "this") and x["n"] in use and x["n"] != name:
                            k = kind_of(Fo, x) if id(x) in Fo.parent else "r"
                            through = any(y["k"] == "call" and short(y) == "get" and y.get("o") is x for y in walk(nd.n, into_lambdas=False))
                            if through and k == "r":
                                continue
                            if atomic_read(Fo, x, k):
                                continue
                            if (k == "w" or "w" in use[x["n"]] and not const_use(Fo, x)) and (m["qn"], x["n"]) not in seen:
                                seen.add((m["qn"], x["n"]))
                                rep.viol("touch", "%s:%s:%s" % (m["qn"], name, x["n"]), "%s:%d" % (owner["file"], x.get("l", owner["l"])),
                                         "%s %s in %s while the background step of %s, which %s it, may still run" % (
                                             x["n"], "is changed" if k == "w" else "is used", m["qn"], name, "changes" if "w" in use[x["n"]] else "uses"))


def const_use(F, x):
    """Only asks an owner or a file for its state (isOpen, getBatchSize, waiting time)."""
    p = F.parent.get(id(x))
    while p is not None and p["k"] == "cast":
        p = F.parent.get(id(p))
    if p is None or p["k"] != "call":
        return False
    if p.get("op") == "->":
        p = F.parent.get(id(p))
        while p is not None and p["k"] in ("cast", "mem"):
            p = F.parent.get(id(p))
        return p is not None and p["k"] == "call" and (bool(p.get("cm")) or p.get("fn", "").startswith("ad_utility::Timer"))
    return bool(p.get("cm"))


def atomic_read(F, x, k):
    return k == "r" and const_use(F, x)


def async_any(f):
    return any(True for _ in async_calls(f["body"]))


def after_start(g, sim, nd, same):
    """Can nd follow a start in this function?"""
    starts = [s for s in g.nodes if s.kind == "ev" and s.n is not None and assigns(s.n) is not None and same(assigns(s.n)[0], s.fr)]
    for s in starts:
        seen, st = set(), [t for t, _ in s.succ]
        while st:
            i = st.pop()
            if i == nd.i:
                return True
            if i in seen:
                continue
            seen.add(i)
            st.extend(t for t, _ in g.nodes[i].succ)
    return False


def r_dtor_waits(prog, ms, name):
    for m in ms:
        if m["n"].startswith("~") or m.get("k") == "dtor":
            if any(n["k"] == "call" and short(n) in ("get", "wait") and n.get("o") is not None and strip(n["o"]).get("n") == name for n in walk(m["body"])):
                return True
    return False


_moved = {}


def is_moved(prog, tmpl):
    """Is an object of the class handed on by move somewhere?"""
    if not _moved:
        _moved["?"] = True
        for f in source_fns(prog):
            for n in walk(f["body"]):
                if n["k"] == "call" and n.get("fn") in ("std::move", "std::forward") and n["a"]:
                    t = re.sub(r"<.*", "", (strip(n["a"][0]).get("t") or n.get("t") or "").replace("const ", "").strip().rstrip("& "))
                    _moved[t] = True
                elif n["k"] == "ctor" and n.get("cm2") == "move":
                    _moved[re.sub(r"<.*", "", n["t"].replace("const ", ""))] = True
    return tmpl in _moved or tmpl.replace("T:", "") in _moved


def arrays(prog, rep):
    """Several futures in one array: the loop that gets them covers the whole array."""
    for f in prog.all_fns():
        if not f["file"].startswith("src/") or not f.get("body"):
            continue
        vs = [n for n in walk(f["body"]) if n["k"] == "var" and re.match(r"(const )?std::(array|vector)<std::future<", n.get("t", ""))]
        if not vs:
            continue
        F = Fn(prog, f)
        for v in vs:
            gets = []
            for n in walk(f["body"]):
                if n["k"] == "call" and short(n) in ("get", "wait") and n.get("o") is not None:
                    b = strip(n["o"])
                    if b["k"] == "call" and b.get("op") == "[]" and strip(b["a"][0]).get("id") == v["id"]:
                        gets.append((n, strip(b["a"][1])))
                    elif b["k"] == "sub" and strip(b["b"]).get("id") == v["id"]:
                        gets.append((n, strip(b["i"])))
                    elif b["k"] == "ref" and F.vars.get(b.get("id"), {}).get("of") is not None and strip(F.vars[b["id"]]["of"]).get("id") == v["id"]:
                        gets.append((n, None))
            rep.inst("all", "%s %s in %s" % (loc(f, v), v["n"], f["qn"]))
            if not gets:
                rep.viol("all", "%s:%s" % (f["qn"], v["n"]), loc(f, v), "the steps started in %s are never waited for" % f["qn"])
                continue
            size = re.match(r"(?:const )?std::array<.*, (\d+)>$", v["t"])
            for n, i in gets:
                if short(n) == "wait":
                    rep.viol("all", "%s:%s:wait" % (f["qn"], v["n"]), loc(f, n), "wait() does not pass on the errors of the step")
                if i is None or not size:
                    continue
                lp = next((a for a in F.ancestors(n) if a["k"] == "for"), None)
                if lp is None or i["k"] != "ref":
                    continue
                lo = F.vars.get(i.get("id"), {}).get("init")
                c = strip(lp["c"]) if lp.get("c") else None
                if c is None or c["k"] != "bin":
                    continue
                hi = const_int(c["y"])
                if hi is None and strip(c["y"])["k"] == "call" and short(strip(c["y"])) == "size":
                    hi = int(size.group(1))
                if lo is None or hi is None:
                    continue
                end = hi + (1 if c["op"] == "<=" else 0)
                if const_int(lo) != 0 or end < int(size.group(1)) or any(x["k"] in ("break", "ret") for x in walk(lp["body"])):
                    rep.viol("all", "%s:%s:range" % (f["qn"], v["n"]), loc(f, n), "only the steps %s to %d of %s in %s are waited for" % (const_int(lo), end - 1, size.group(1), f["qn"]))


def fatal(body):
    """Does a handler pass the error on or end the program with an error?"""
    for n in walk(body):
        if n["k"] == "throw":
            return True
        if n["k"] == "call" and short(n) in ("rethrow_exception", "abort", "terminate", "throw_with_nested"):
            return True
        if n["k"] == "call" and short(n) in ("exit", "_exit", "quick_exit"):
            return const_int(n["a"][0]) != 0
    return False


BROAD = ("...", "std::exception", "std::runtime_error", "std::future_error", "ad_semsearch::Exception")


def errors(prog, rep, cg):
    """Handlers of functions that run in the index build."""
    roots = [f["key"] for f in prog.all_fns() if f["n"] in ("createFromFile", "addTextFromContextFile", "buildDocsDB", "writeNextPartialVocabulary", "mergeVocabulary")]
    mains = [f for f in prog.all_fns() if f["n"] == "main" and "IndexBuilder" in f["file"]]
    if not mains:
        raise AnalysisError("the program that builds the index is not found")
    reach = set(cg.reach(roots + [m["key"] for m in mains]))
    # background steps are started by the functions reached
    seen = set()
    for k in sorted(reach):
        f = prog.fn(k)
        if f is None or not f.get("body") or not f["file"].startswith("src/"):
            continue
        for n in walk(f["body"]):
            if n["k"] in ("call",) and n.get("fn", "").startswith("std::future::get") and (f["file"], n["l"]) not in seen:
                seen.add((f["file"], n["l"]))
                rep.inst("error", "%s get() in %s" % (loc(f, n), f["qn"]))
            if n["k"] != "try" or (f["file"], n["l"]) in seen:
                continue
            seen.add((f["file"], n["l"]))
            for h in n["h"]:
                t = re.sub(r"const |&", "", h.get("t", "...")).strip()
                if t not in BROAD:
                    continue
                rep.inst("error", "%s catch (%s) in %s" % (loc(f, n), t, f["qn"]))
                ok = fatal(h["body"])
                if not ok and f["n"] == "main":
                    ok = any(x["k"] == "ret" and const_int(x.get("e")) not in (0, None) for x in walk(h["body"]))
                if not ok:
                    rep.viol("error", "%s:%s" % (f["qn"], t), loc(f, h["body"]), "an error in the index build is caught in %s (catch %s) and the build goes on" % (f["qn"], t))


def threads(prog, rep):
    for f in source_fns(prog):
        vs = [n for n in walk(f["body"]) if n["k"] == "var" and re.search(r"std::(j?thread)\b", n.get("t", ""))
              and not n.get("t", "").rstrip().endswith(("&", "*"))]
        for v in vs:
            if "jthread" in v["t"] or "::id" in v["t"]:
                continue
            F = Fn(prog, f)
            rep.inst("thread", "%s %s in %s" % (loc(f, v), v["n"], f["qn"]))
            ok = False
            for n in walk(f["body"]):
                if n["k"] == "call" and short(n) == "join" and n.get("o") is not None:
                    b = strip(n["o"])
                    if b.get("id") == v["id"] or b["k"] == "ref" and F.vars.get(b.get("id"), {}).get("of") is not None and strip(F.vars[b["id"]]["of"]).get("id") == v["id"]:
                        ok = True
                    elif b["k"] in ("call", "sub") and any(x["k"] == "ref" and x.get("id") == v["id"] for x in walk(b)):
                        ok = True
                if n["k"] == "call" and short(n) == "detach":
                    rep.viol("thread", "%s:%s:detach" % (f["qn"], v["n"]), loc(f, n), "a thread is detached in %s: nobody waits for it" % f["qn"])
            if not ok:
                rep.viol("thread", "%s:%s" % (f["qn"], v["n"]), loc(f, v), "the thread %s started in %s is not joined" % (v["n"], f["qn"]))


run("C16", check, level="other", explanation="Typestate of every future on the control-flow graph, accesses to the objects a background "
    "step captured while it may run, order of members, and handlers around the places where errors of steps surface.")
