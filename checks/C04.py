"""C04: the time limit of a query covers all work done for it."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, children, strip, short, show, loc, const_int, AnalysisError
from cfg import Graph, Sim, canon, path_text
import rules
from cg import CallGraph, derives, type_name

OP = "Operation"
QET = "QueryExecutionTree"
TIMER = "TimeoutTimer"


def is_timer(t):
    return "shared_ptr<" in t and TIMER in t


def check(prog, rep):
    rep.rule("children", "an operation lists every tree it holds as its child, so that the timer reaches it", 15)
    rep.rule("propagate", "handing a timer to an operation or tree stores it and hands the same timer to all children", 2)
    rep.rule("checked", "a result is produced only if the time limit was tested after its computation and had not passed", 1)
    rep.rule("compute-only-checked", "results are computed only at places where the time limit is tested", 1)
    rep.rule("scan-timer", "a function that knows the timer of the query hands it to every interruptible operation it starts", 8)
    rep.rule("poll", "an interruptible operation that is given a timer tests it or hands it on", 3)
    rep.rule("loop-poll", "a function that makes a polling counter calls it in its loops", 4)
    rep.rule("counter", "a counter that spaces timer tests is advanced by every call and reset only after a test", 1)
    rep.rule("timer", "the timer reports a time-out exactly if the limit is exceeded and keeps running when it is asked", 3)
    rep.rule("units", "limits given in seconds, milliseconds and microseconds are converted to the unit they are compared in", 2)
    rep.rule("server", "the server starts the timer with the limit of the request and hands it to the plan before the result is computed", 1)
    rep.rule("not-swallowed", "an error raised while a result is computed is never turned into a result", 1)
    prog.record(OP)
    cg = CallGraph(prog)
    ops = [c for c in prog.subclasses(OP)]
    if len(ops) < 15:
        raise AnalysisError("only %d operation classes found" % len(ops))
    setters = {}
    for cls in [OP, QET]:
        for m in prog.record(cls)["methods"]:
            f = prog.fn(m["fk"])
            if f and f.get("body") and any(is_timer(p["t"]) for p in f["params"]):
                setters[f["key"]] = f
    rep.part(childs, prog, rep, ops)
    rep.part(propagate, prog, rep, cg, setters)
    rep.part(checked, prog, rep, cg)
    rep.part(scans, prog, rep, cg, ops)
    rep.part(timer_class, prog, rep)
    rep.part(server, prog, rep, cg, setters)
    rep.part(rules.swallow, prog, rep, cg, "not-swallowed", ["ad_utility::TimeoutException", "ad_semsearch::AbortException"],
             "%s catches %s and goes on as if a result had been computed")
    rep.part(polls, prog, rep, ops)


# ------------------------------------------------------------------ children
def holds_tree(t):
    return re.search(r"\b(QueryExecutionTree|Operation)\b", t) and not re.search(r"OperationType|BinaryOperation|Context", t)


def childs(prog, rep, ops):
    for cls in ops:
        fields = []
        for c in [cls] + [b for b in prog.bases(cls) if b != OP]:
            r = prog.records.get(c)
            fields += [f for f in (r or {}).get("fields", []) if holds_tree(f["t"])]
        fs = [f for f in prog.method(cls, "getChildren") if not f.get("cm") and f.get("cls") != OP]
        if not fs:
            raise AnalysisError("anchor vanished: %s::getChildren" % cls)
        f = fs[0]
        tree_names = {x["n"] for x in fields}
        for fld in fields:
            name = fld["n"]
            rep.inst("children", "%s::%s" % (cls, name))
            spots = []          # guards of every mention that is not inside a condition
            mentions(prog, f, f["body"], name, (), spots, 0)
            if not spots:
                rep.viol("children", "%s %s" % (cls, name), loc(f), "%s::getChildren does not list the tree in %s: the time limit never reaches "
                         "the operations below it" % (cls, name))
                continue
            ok = False
            for guards in spots:
                if all(guard_ok(prog, gd, tree_names) for gd in guards):
                    ok = True
            if not ok:
                rep.viol("children", "%s %s guarded" % (cls, name), loc(f), "%s::getChildren lists the tree in %s only if %s: otherwise the time limit "
                         "never reaches the operations below it" % (cls, name, show(spots[0][-1])))


def guard_ok(prog, g, names):
    """The guard depends on nothing but held trees (being null)."""
    ms = [n for n in walk(g) if n["k"] == "mem" and n.get("b", {}).get("k") in ("this", None)]
    return bool(ms) and all(m["n"] in names for m in ms)


def mentions(prog, f, n, name, guards, out, depth):
    if depth > 3:
        return
    k = n.get("k")
    if k == "if":
        g = guards + (n.get("c") or {"k": "nop"},)
        for key in ("x", "y"):
            if n.get(key):
                mentions(prog, f, n[key], name, g, out, depth)
        return
    if k == "cond":
        g = guards + (n["c"],)
        mentions(prog, f, n["x"], name, g, out, depth)
        mentions(prog, f, n["y"], name, g, out, depth)
        return
    if k == "bin" and n["op"] in ("&&", "||", "==", "!="):
        return
    if k == "mem" and n["n"] == name and n.get("b", {"k": "this"})["k"] == "this":
        out.append(guards)
    if k == "call" and (n.get("o") or {}).get("k") in ("this", None):
        for t in prog.targets(n):
            h = prog.fn(t)
            if h and h.get("body") and h["key"] != f["key"] and h["file"].startswith("src/engine"):
                mentions(prog, h, h["body"], name, guards, out, depth + 1)
    for c in children(n):
        mentions(prog, f, c, name, guards, out, depth)


# ------------------------------------------------------------------ propagation
def propagate(prog, rep, cg, setters):
    own = [f for f in setters.values() if f["cls"] == OP]
    tree = [f for f in setters.values() if f["cls"] == QET]
    if not own or not tree:
        raise AnalysisError("anchor vanished: no function hands a timer to an operation and to a tree")
    tfields = [x["n"] for x in prog.record(OP)["fields"] if is_timer(x["t"])]
    if not tfields:
        raise AnalysisError("anchor vanished: operations hold no timer")
    for f in own:
        rep.inst("propagate", f["qn"])
        pid = [p["id"] for p in f["params"] if is_timer(p["t"])][0]
        stores = [n for n in walk(f["body"]) if n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0]).get("n") in tfields and
                  any(r.get("id") == pid for r in walk(n["a"][1]) if r["k"] == "ref")]
        if not stores:
            rep.viol("propagate", "store", loc(f), "%s does not keep the timer it is given: the operation itself has no time limit" % f["qn"])
        # loop over getChildren() that passes the timer on
        g = Graph(prog, f, inline=lambda h, c, fr: h["file"].endswith(("Operation.cpp", "Operation.h")) and h["n"] != "getChildren")
        keys = set(setters)
        passed = [n for n in g.nodes if n.kind == "ev" and n.n["k"] == "call" and (n.n.get("fk") in keys) and
                  any(canon(a, n.fr, prog)[:1] == (("p", pid),) or refers(a, n.fr, pid, f) for a in n.n["a"])]
        loops = [n for n in walk(f["body"]) if n["k"] in ("rfor", "for", "while") and any(
            c["k"] == "call" and short(c) in ("getChildren", "forAllDescendants") for c in walk(n))]
        each = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("for_each", "forAllDescendants")]
        listed = any(c["k"] == "call" and short(c) == "getChildren" for c in walk(f["body"])) or each
        if not passed or not (loops or each or listed):
            rep.viol("propagate", "children", loc(f), "%s does not hand the timer to the children of the operation: they have no time limit" % f["qn"])
            continue
        # inside the loop nothing but a null test may stand before the call
        for lp in loops:
            for n in walk(lp):
                if n["k"] in ("break", "ret", "goto"):
                    rep.viol("propagate", "loop left", loc(f, n), "%s leaves the loop over the children before all of them were given the timer" % f["qn"])
                if n["k"] == "if" and any(c["k"] == "call" and short(c) not in ("get", "operator bool", "operator!=", "operator==", "operator!")
                                          for c in walk(n["c"])):
                    rep.viol("propagate", "condition", loc(f, n), "%s hands the timer only to children that satisfy %s" % (f["qn"], show(n["c"])))
    for f in tree:
        rep.inst("propagate", f["qn"])
        pid = [p["id"] for p in f["params"] if is_timer(p["t"])][0]
        ok = [n for n in walk(f["body"]) if n["k"] == "call" and n.get("fk") in {x["key"] for x in own} and
              any(r.get("id") == pid for a in n["a"] for r in walk(a) if r["k"] == "ref")]
        if not ok:
            rep.viol("propagate", "root", loc(f), "%s does not hand the timer to the operation of the tree" % f["qn"])


def refers(a, fr, pid, f):
    return any(r["k"] == "ref" and r.get("id") == pid for r in walk(a))


# ------------------------------------------------------------------ tests around the computation
def limit_test(e):
    """Is this a call that asks a timer whether the limit has passed?"""
    e = strip(e)
    return e["k"] == "call" and short(e) == "hasTimedOut"


def has_test(f):
    return any(limit_test(n) or n["k"] == "call" and short(n) in ("checkTimeoutAndThrow", "checkTimeout") for n in walk(f["body"]))


def checked(prog, rep, cg):
    virt = [m for m in prog.record(OP)["methods"] if m["n"] == "computeResult"]
    if not virt:
        raise AnalysisError("anchor vanished: Operation::computeResult")
    vk = virt[0]["fk"]
    impls = set(prog.overriders(vk)) | {vk}
    sites = []
    for k in prog.all_keys():
        if b"computeResult" not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        for n in walk(f["body"]) if f.get("body") else ():
            if n["k"] == "call" and n.get("fk") in impls:
                sites.append((f, n))
    if not sites:
        raise AnalysisError("anchor vanished: nothing calls computeResult")
    # a function that only wraps the call is judged where it is called
    wrappers = set()
    for _ in range(4):
        more = []
        for f, n in sites:
            if has_test(f) or f["key"] in wrappers:
                more.append((f, n))
                continue
            callers = []
            for k in prog.all_keys():
                if f["n"].encode() in prog.raw["F"][k]:
                    g = prog.fn(k)
                    callers += [(g, c) for b in cg.bodies(g) for c in walk(b) if c["k"] == "call" and c.get("fk") == f["key"]]
            wrappers.add(f["key"])
            more += callers or [(f, n)]
        if more == sites:
            break
        sites = more
    done = set()
    for f, n in sites:
        rep.inst("compute-only-checked", "%s computes a result at %s" % (f["qn"], loc(f, n)))
        lam = [l for l in walk(f["body"]) if l["k"] == "lambda" and any(x is n for x in walk(l["body"]))]
        body, name = (lam[-1]["body"], f["qn"] + " (lambda)") if lam else (f["body"], f["qn"])
        if id(body) in done:
            continue
        done.add(id(body))
        root = dict(f, body=body, inits=[])
        g = Graph(prog, root, inline=lambda h, c, fr: (h.get("cls") == OP and h["n"] != "getResult" and not h.get("virt")) or h["key"] in wrappers)

        def throws_if_late(h):
            return any(x["k"] == "call" and short(x) in ("checkTimeoutAndThrow",) for x in walk(h["body"])) if h.get("body") else False

        def step(nd, s):
            e = nd.n
            if nd.kind == "ev" and e["k"] == "call":
                if e.get("fk") in impls:
                    if s != "tested":
                        rep.viol("checked", "%s before" % f["n"], nd.loc(), "%s starts a computation without testing whether the time limit has passed" % name)
                    return ["computed"]
                if short(e) == "checkTimeoutAndThrow":
                    return ["tested"]
                if limit_test(e):
                    return [s]
                # waiting for children may take long: a test before does not count any more
                if s == "tested" and any(t == "Operation::getResult" for t in ()):
                    return ["untested"]
            return [s]

        def refine(nd, lab, s):
            if nd.kind == "br":
                e, neg = strip(nd.n), False
                while e["k"] == "un" and e["op"] == "!":
                    e, neg = strip(e["x"]), not neg
                if e["k"] == "ref" and "id" in e:
                    d = nd.fr.owner(e["id"]).vars.get(e["id"])
                    if d and d.get("init") and limit_test(d["init"]):
                        e = strip(d["init"])
                if limit_test(e):
                    timed_out = (lab is True) != neg
                    return "late" if timed_out else "tested"
            return s
        sim = Sim(g, "untested", step, None, lambda nd: nd.n["k"] == "throw", refine=refine)
        for s, env in sorted(sim.at.get(g.exit.i, ()), key=str):
            rep.inst("checked", "%s returns in state %s" % (name, s))
            if s in ("computed", "late"):
                rep.viol("checked", "%s %s" % (f["n"], s), loc(f, n), "%s delivers a result %s; path: %s" %
                         (name, "although the time limit has passed" if s == "late" else "without testing whether its computation exceeded the time limit",
                          path_text(sim.witness(g.exit, s))))


# ------------------------------------------------------------------ interruptible operations
def scans(prog, rep, cg, ops):
    allops = set(ops) | {OP, QET}
    inter = {}
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if TIMER.encode() not in raw[:4000]:
            continue
        f = prog.fn(k)
        if f.get("cls") in (OP, QET) or (f.get("cls") or "").endswith(TIMER):
            continue
        if any(is_timer(p["t"]) for p in f["params"]):
            inter[k] = f
    if len(inter) < 3:
        raise AnalysisError("anchor vanished: only %d functions take a timer" % len(inter))
    names = {f["qn"] for f in inter.values()}
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if not any(short({"fn": n}).encode() in raw for n in names):
            continue
        f = prog.fn(k)
        timers = {p["id"] for p in f["params"] if is_timer(p["t"])}
        knows = f.get("cls") in allops or timers
        if not knows:
            continue
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] != "call" or n.get("fk") not in inter:
                    continue
                h = inter[n["fk"]]
                idx = [i for i, p in enumerate(h["params"]) if is_timer(p["t"])][0]
                rep.inst("scan-timer", "%s -> %s at %s" % (f["qn"], h["qn"], loc(f, n)))
                a = strip(n["a"][idx]) if idx < len(n["a"]) else None
                if a is None or n["a"][idx]["k"] == "defarg" or not timer_value(prog, f, b, a, timers, f.get("cls") in allops):
                    rep.viol("scan-timer", "%s %s %s" % (f["qn"], h["qn"], context(f, n)), loc(f, n), "%s starts %s without handing on the timer of the query: it cannot be "
                             "interrupted when the time limit passes" % (f["qn"], h["qn"]))
    # every function that takes a timer uses it
    for k, f in sorted(inter.items()):
        pid = [p["id"] for p in f["params"] if is_timer(p["t"])][0]
        rep.inst("poll", f["key"])
        tests = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("checkTimeoutAndThrow", "hasTimedOut") and
                 any(r.get("id") == pid for r in walk(n) if r["k"] == "ref")]
        hands = [n for n in walk(f["body"]) if n["k"] in ("call", "ctor") and short(n) not in ("checkTimeoutAndThrow", "hasTimedOut") and
                 any(p is not None and is_timer((prog.fn(n.get("fk")) or {"params": []})["params"][i]["t"]) and
                     any(r.get("id") == pid for r in walk(p) if r["k"] == "ref")
                     for i, p in enumerate(n["a"][:len((prog.fn(n.get("fk")) or {"params": []})["params"])]))]
        if not tests and not hands:
            rep.viol("poll", f["qn"], loc(f), "%s takes a timer but neither tests it nor hands it on" % f["qn"])
        for n in tests:
            lps = [l for l in walk(f["body"]) if l["k"] in ("for", "while", "do", "rfor")]
            if lps and not any(any(x is n for x in walk(l)) for l in lps):
                rep.viol("poll", f["qn"] + " loop", loc(f, n), "%s tests the timer only outside its loop" % f["qn"])


def context(f, n):
    """Which of several similar calls: what is scanned."""
    return ",".join(show(a) for a in n["a"][:3] if a["k"] != "defarg")[:60]


def timer_value(prog, f, body, a, timers, is_op):
    """Does expression a denote the timer the function knows?"""
    a = strip(a)
    if a["k"] == "mem" and is_timer(a.get("t", "")) and is_op:
        return True
    if a["k"] == "ref" and "id" in a:
        if a["id"] in timers:
            return True
        for n in walk(body):
            if n["k"] == "var" and n["id"] == a["id"] and n.get("init"):
                return timer_value(prog, f, body, n["init"], timers, is_op)
            if n["k"] == "lambda":
                for c in n.get("caps", []):
                    if c.get("id") == a["id"] and c.get("init"):
                        return timer_value(prog, f, body, c["init"], timers, is_op)
                    if c.get("n") == a.get("n") and c.get("init"):
                        return timer_value(prog, f, body, c["init"], timers, is_op)
    if a["k"] == "ctor" and len(a["a"]) == 1:
        return timer_value(prog, f, body, a["a"][0], timers, is_op)
    return False


# ------------------------------------------------------------------ polling loops
def polls(prog, rep, ops):
    """Functions that create a polling counter use it in all their outermost loops."""
    fac = [m["fk"] for m in prog.record(OP)["methods"] if prog.fn(m["fk"]) and any(
        n["k"] == "lambda" and any(c["k"] == "call" and short(c) == "checkTimeoutAndThrow" for c in walk(n["body"]))
        for n in walk(prog.fn(m["fk"]).get("body") or {"k": "nop"}))]
    if not fac:
        raise AnalysisError("anchor vanished: no factory of polling counters in Operation")
    for k in fac:
        counter(prog, rep, prog.fn(k))
    seen = set()
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if not any(prog.fn(x)["n"].encode() in raw for x in fac):
            continue
        f = prog.fn(k)
        made = {}
        for n in walk(f["body"]) if f.get("body") else ():
            if n["k"] == "var" and n.get("init") and any(c["k"] == "call" and c.get("fk") in fac for c in walk(n["init"])):
                made[n["id"]] = n
        if not made:
            continue
        ident = (f["file"], f["l"])
        if ident in seen:
            continue
        seen.add(ident)
        # local lambdas that poll
        pollers = set(made)
        grow = True
        while grow:
            grow = False
            for n in walk(f["body"]):
                if n["k"] == "var" and n.get("init") and n["id"] not in pollers:
                    l = strip(n["init"])
                    if l["k"] == "lambda" and any(r["k"] == "ref" and r.get("id") in pollers for r in walk(l["body"])):
                        pollers.add(n["id"])
                        grow = True
                        # calls inside a lambda that is itself called in loops

        def polls_in(n):
            return any(c["k"] == "call" and (c.get("op") == "()" and strip(c["a"][0]).get("id") in pollers or
                                             any(r["k"] == "ref" and r.get("id") in pollers for a in c["a"] for r in walk(a)) or
                                             short(c) == "checkTimeout") for c in walk(n))
        used = polls_in(f["body"])
        rep.inst("loop-poll", "%s at %s" % (f["qn"], loc(f)))
        if not used:
            rep.viol("loop-poll", "%s unused" % f["qn"], loc(f), "%s creates a polling counter but never calls it" % f["qn"])
            continue
        if not any(polls_in(lp) for lp in outer_loops(f["body"])) and outer_loops(f["body"]) and not any(
                strip(n.get("init") or {"k": "nop"})["k"] == "lambda" for n in walk(f["body"]) if n["k"] == "var" and n["id"] in pollers):
            rep.viol("loop-poll", "%s outside" % f["qn"], loc(f), "%s polls the timer in none of its loops" % f["qn"])


def outer_loops(n):
    r = []

    def go(x):
        if x.get("k") in ("for", "while", "do", "rfor"):
            r.append(x)
            return
        for c in children(x):
            go(c)
    go(n)
    return r


def counter(prog, rep, f):
    for lam in (n for n in walk(f["body"]) if n["k"] == "lambda"):
        tests = [c for c in walk(lam["body"]) if c["k"] == "call" and short(c) == "checkTimeoutAndThrow"]
        if not tests:
            continue
        rep.inst("counter", "%s at %s" % (f["qn"], loc(f, lam)))
        cnt = None
        for n in walk(lam["body"]):
            if n["k"] == "if":
                for b in walk(n["c"]):
                    if b["k"] == "bin" and b["op"] in (">=", ">", "<", "<="):
                        for x in (strip(b["x"]), strip(b["y"])):
                            if x["k"] == "ref" and any(y["k"] == "bin" and y["op"] in ("+=", "=") and strip(y["x"]).get("n") == x["n"] or
                                                       y["k"] == "un" and "++" in y["op"] and strip(y["x"]).get("n") == x["n"]
                                                       for y in walk(lam["body"])):
                                cnt = x["n"]
        if cnt is None:
            continue
        g = Graph(prog, dict(f, body=lam["body"], inits=[]), inline=lambda h, c, fr: False)

        def step(nd, s):
            e = nd.n
            if nd.kind == "ev":
                if e["k"] == "bin" and strip(e["x"]).get("n") == cnt:
                    if e["op"] == "+=":
                        return [s | {"up"}]
                    if e["op"] == "=":
                        if "tested" not in s and not any(r.get("n") == cnt for r in walk(e["y"]) if r["k"] == "ref"):
                            rep.viol("counter", f["n"] + " reset", nd.loc(), "the counter %s is reset without a test of the timer, so that the timer "
                                     "is never tested" % cnt)
                        if any(r.get("n") == cnt for r in walk(e["y"]) if r["k"] == "ref"):
                            return [s | {"up"}]
                if e["k"] == "un" and "++" in e["op"] and strip(e["x"]).get("n") == cnt:
                    return [s | {"up"}]
                if e["k"] == "call" and short(e) == "checkTimeoutAndThrow":
                    return [s | {"tested"}]
            return [s]
        sim = Sim(g, frozenset(), step, None, lambda nd: False)
        for s, env in sim.at.get(g.exit.i, ()):
            if "up" not in s:
                rep.viol("counter", f["n"] + " stuck", loc(f, lam), "the counter %s is not advanced by every call, so that the timer is never tested" % cnt)
        if not any("tested" in s for s, env in sim.at.get(g.exit.i, ())):
            rep.viol("counter", f["n"] + " dead", loc(f, lam), "the polling counter never reaches its test of the timer")
        # the counter must live as long as the closure
        if not any(c.get("n") == cnt for c in lam.get("caps", [])) and any(n["k"] == "var" and n.get("n") == cnt for n in walk(lam["body"])):
            rep.viol("counter", f["n"] + " local", loc(f, lam), "the counter %s starts anew with every call" % cnt)


# ------------------------------------------------------------------ the timer itself
def timer_class(prog, rep):
    cls = [k for k in prog.records if k.endswith("::" + TIMER) and not k.startswith("T:")]
    if not cls:
        raise AnalysisError("anchor vanished: class TimeoutTimer")
    R = prog.record(cls[0])
    limit = [f["n"] for f in R["fields"] if f["t"] != "bool"]
    flag = [f["n"] for f in R["fields"] if f["t"] == "bool"]
    for m in R["methods"]:
        f = prog.fn(m["fk"])
        if not f or not f.get("body"):
            continue
        stops = any(n["k"] == "call" and short(n) == "stop" for n in walk(f["body"]))
        if stops:
            rep.inst("timer", "%s keeps the timer running" % f["qn"])
            g = Graph(prog, f, inline=lambda h, c, fr: False)

            def is_running(e, fr):
                e = strip(e)
                if e["k"] == "ref" and "id" in e:
                    d = fr.owner(e["id"]).vars.get(e["id"])
                    return bool(d and d.get("init") and strip(d["init"])["k"] == "call" and short(strip(d["init"])) == "isRunning" and
                                before_stop(f, d))
                return False

            def step(nd, s):
                if nd.kind == "ev" and nd.n["k"] == "call":
                    if short(nd.n) == "stop":
                        return ["stopped"]
                    if short(nd.n) in ("cont", "start"):
                        if short(nd.n) == "start":
                            rep.viol("timer", f["n"] + " restart", nd.loc(), "%s restarts the timer from zero: the limit never passes" % f["qn"])
                        return ["running"]
                return [s]

            def refine(nd, lab, s):
                if nd.kind == "br":
                    e, neg = strip(nd.n), False
                    while e["k"] == "un" and e["op"] == "!":
                        e, neg = strip(e["x"]), not neg
                    if is_running(e, nd.fr) and ((lab is True) == neg):
                        return "idle"
                return s
            sim = Sim(g, "running", step, None, lambda nd: False, refine=refine)
            for s, env in sim.at.get(g.exit.i, ()):
                if s == "stopped":
                    rep.viol("timer", f["n"] + " stopped", loc(f), "%s leaves a running timer stopped: time that passes afterwards does not count; path: %s" %
                             (f["qn"], path_text(sim.witness(g.exit, s))))
        # comparison with the limit
        for n in walk(f["body"]):
            if n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
                xs = any(y["k"] == "call" and short(y) in ("usecs", "msecs", "secs") for y in walk(n["x"]))
                ys = any(y["k"] == "call" and short(y) in ("usecs", "msecs", "secs") for y in walk(n["y"]))
                xl = any(y["k"] == "mem" and y["n"] in limit for y in walk(n["x"]))
                yl = any(y["k"] == "mem" and y["n"] in limit for y in walk(n["y"]))
                if not ((xs and yl) or (ys and xl)):
                    continue
                rep.inst("timer", "%s compares the elapsed time with the limit at %s" % (f["qn"], loc(f, n)))
                unit = [short(y) for y in walk(n) if y["k"] == "call" and short(y) in ("usecs", "msecs", "secs")][0]
                if unit != "usecs":
                    rep.viol("timer", f["n"] + " unit", loc(f, n), "%s compares %s with a limit in microseconds" % (f["qn"], unit))
                later = n["op"] in (">", ">=") if xs else n["op"] in ("<", "<=")
                if f["rt"] == "bool":
                    # the value must be what is returned
                    if not later and n["op"] in ("<", "<=", ">", ">=") and not negated(f, n):
                        rep.viol("timer", f["n"] + " polarity", loc(f, n), "%s reports a time-out while the limit is not exceeded" % f["qn"])
                    if n["op"] in ("==", "!="):
                        rep.viol("timer", f["n"] + " polarity", loc(f, n), "%s reports a time-out only at one moment" % f["qn"])
        if f["rt"] == "bool" and any(n["k"] == "mem" and n["n"] in flag for n in walk(f["body"])):
            for n in walk(f["body"]):
                if n["k"] == "if":
                    e, neg = strip(n["c"]), False
                    while e["k"] == "un" and e["op"] == "!":
                        e, neg = strip(e["x"]), not neg
                    if e["k"] == "mem" and e["n"] in flag:
                        rep.inst("timer", "%s treats unlimited timers apart" % f["qn"])
                        br = n.get("y") if neg else n.get("x")
                        if br and any(r["k"] == "ret" and r.get("e") and const_int(r["e"]) not in (None, 0) for r in walk(br)):
                            rep.viol("timer", f["n"] + " unlimited", loc(f, n), "%s reports a time-out for an unlimited timer" % f["qn"])
                        if neg is False and br and not any(r["k"] == "ret" for r in walk(br)):
                            pass
                        if neg and n.get("x") and any(r["k"] == "ret" and r.get("e") and const_int(r["e"]) == 0 for r in n["x"].get("s", [n["x"]]) if isinstance(r, dict)):
                            rep.viol("timer", f["n"] + " limited", loc(f, n), "%s never reports a time-out for a limited timer" % f["qn"])
    # throwing test
    thr = [prog.fn(m["fk"]) for m in R["methods"] if m["n"] == "checkTimeoutAndThrow"]
    thr = [f for f in thr if f]
    if not thr:
        raise AnalysisError("anchor vanished: TimeoutTimer::checkTimeoutAndThrow")
    for f in thr:
        g = Graph(prog, f, inline=lambda h, c, fr: False)

        def refine(nd, lab, s):
            if nd.kind == "br":
                e, neg = strip(nd.n), False
                while e["k"] == "un" and e["op"] == "!":
                    e, neg = strip(e["x"]), not neg
                if e["k"] == "ref" and "id" in e:
                    d = nd.fr.owner(e["id"]).vars.get(e["id"])
                    e = strip(d["init"]) if d and d.get("init") else e
                if limit_test(e):
                    return "late" if (lab is True) != neg else "fine"
            return s
        sim = Sim(g, "unknown", lambda nd, s: [s], None, lambda nd: nd.n["k"] == "throw", refine=refine)
        rep.inst("timer", "%s throws if and only if the limit has passed" % f["qn"])
        for s, env in sim.at.get(g.exit.i, ()):
            if s != "fine":
                rep.viol("timer", f["n"] + " silent", loc(f), "%s returns normally although the limit has passed or was not tested" % f["qn"])
        for s, env in sim.at.get(g.xexit.i, ()):
            if s == "fine":
                rep.viol("timer", f["n"] + " early", loc(f), "%s throws although the limit has not passed" % f["qn"])
    # units
    for m in R["methods"]:
        f = prog.fn(m["fk"])
        if not f or not f.get("body") or not f.get("sm", 1):
            continue
        want = {"fromSeconds": 10 ** 6, "fromMilliseconds": 1000, "fromMicroseconds": 1}.get(f["n"])
        if want is None or not f["params"]:
            continue
        k = factor(f, f["params"][0]["id"])
        rep.inst("units", "%s multiplies by %s" % (f["qn"], k))
        if k is not None and k != want:
            rep.viol("units", f["n"], loc(f), "%s turns its argument into microseconds with factor %s instead of %s" % (f["qn"], k, want))


def negated(f, n):
    for x in walk(f["body"]):
        if x["k"] == "un" and x["op"] == "!" and any(y is n for y in walk(x)):
            return True
    return False


def before_stop(f, d):
    """Is variable d defined before the first call of stop()?"""
    for n in walk(f["body"]):
        if n["k"] == "var" and n["id"] == d["id"]:
            return True
        if n["k"] == "call" and short(n) == "stop":
            return False
    return False


def factor(f, pid):
    """Constant by which the parameter is multiplied on its way into the result."""
    def ev(e):
        e = strip(e)
        if e["k"] == "ref" and e.get("id") == pid:
            return ("x", 1)
        if e["k"] == "ref" and "id" in e:
            for n in walk(f["body"]):
                if n["k"] == "var" and n["id"] == e["id"] and n.get("init"):
                    return ev(n["init"])
        if e["k"] in ("int", "flt"):
            return ("c", float(e["v"]))
        c = const_int(e)
        if c is not None:
            return ("c", c)
        if e["k"] == "bin" and e["op"] in ("*", "/"):
            a, b = ev(e["x"]), ev(e["y"])
            if a and b:
                if e["op"] == "*" and (a[0], b[0]) != ("x", "x"):
                    return ("x" if "x" in (a[0], b[0]) else "c", a[1] * b[1])
                if e["op"] == "/" and b[0] == "c" and b[1]:
                    return (a[0], a[1] / b[1])
            return None
        if e["k"] in ("ctor", "call"):
            for a in e.get("a", []):
                r = ev(a)
                if r and r[0] == "x":
                    return r
        return None
    for n in walk(f["body"]):
        if n["k"] == "ret" and n.get("e"):
            r = ev(n["e"])
            if r and r[0] == "x":
                return round(r[1], 6)
    return None


# ------------------------------------------------------------------ the server
def server(prog, rep, cg, setters):
    tree_set = {k for k, f in setters.items() if f["cls"] == QET}
    getres = {k for k in prog.all_keys() if prog.raw["F"][k][:400].find(b'"qn":"Operation::getResult"') >= 0}
    users = []
    for k in prog.all_keys():
        if b"recursivelySetTimeoutTimer" not in prog.raw["F"][k] and not any(s.encode() in prog.raw["F"][k] for s in tree_set):
            continue
        f = prog.fn(k)
        if k in setters or not f.get("body"):
            continue
        if any(n["k"] == "call" and n.get("fk") in tree_set for n in walk(f["body"])):
            users.append(f)
    if not users:
        rep.inst("server", "no function hands a timer to a plan")
        rep.viol("server", "never set", "src/engine/Server.cpp:1", "nothing hands the timer of a request to the plan of its query")
        return
    memo = {}

    def computes(k):
        if k not in memo:
            memo[k] = bool(set(cg.reach([k])) & getres)
        return memo[k]
    for f in users:
        rep.inst("server", f["qn"])
        g = Graph(prog, f, inline=lambda h, c, fr: False)
        # the variable that holds the timer
        tvars = {n["id"] for n in walk(f["body"]) if n["k"] == "var" and is_timer(n.get("t", ""))} | {p["id"] for p in f["params"] if is_timer(p["t"])}
        def makes(n, depth=0):
            if n["k"] != "call":
                return False
            if re.match(r"from(Micro|Milli)?[sS]econds$", short(n)):
                return True
            h = prog.fn(n.get("fk")) if n.get("fk") else None
            return bool(depth < 3 and h and h.get("body") and h["file"].startswith("src/engine/") and is_timer(n.get("t", "")) and
                        any(makes(x, depth + 1) for x in walk(h["body"])))
        lim = [n for n in walk(f["body"]) if makes(n)]
        if not lim and not any(is_timer(p["t"]) for p in f["params"]):
            rep.viol("server", "no limit", loc(f), "%s never makes a timer with the limit of the request" % f["qn"])
        used = {y["id"] for n in walk(f["body"]) if n["k"] == "call" and n.get("fk") in tree_set for a in n["a"] for y in walk(a) if y["k"] == "ref" and "id" in y}
        more = True
        while more:
            new = set()
            for x in walk(f["body"]):
                if x["k"] == "var" and x["id"] in used and x.get("init"):
                    new |= {y["id"] for y in walk(x["init"]) if y["k"] == "ref" and "id" in y}
                if x["k"] == "call" and x.get("op") == "=" and strip(x["a"][0]).get("id") in used:
                    new |= {y["id"] for y in walk(x["a"][1]) if y["k"] == "ref" and "id" in y}
                if x["k"] == "bin" and x["op"] == "=" and strip(x["x"]).get("id") in used:
                    new |= {y["id"] for y in walk(x["y"]) if y["k"] == "ref" and "id" in y}
            more = bool(new - used)
            used |= new
        for n in lim:
            arg = n["a"][0] if n["a"] else None
            if short(n).startswith("from") and (arg is None or const_int(arg) is not None):
                rep.viol("server", "constant limit", loc(f, n), "%s makes a timer with a constant instead of the limit of the request" % f["qn"])
            ok = False
            for x in walk(f["body"]):
                if x["k"] == "call" and x.get("op") == "=" and strip(x["a"][0]).get("id") in used and any(y is n for y in walk(x["a"][1])):
                    ok = True
                if x["k"] == "var" and x["id"] in used and x.get("init") and any(y is n for y in walk(x["init"])):
                    ok = True
            if not ok:
                rep.viol("server", "limit dropped", loc(f, n), "the timer with the limit of the request is not the one that is used")
        lim_blocks = [n for n in g.nodes if n.kind == "ev" and any(n.n is x for x in lim)]

        def step(nd, s):
            e = nd.n
            if nd.kind == "ev" and e["k"] == "call":
                if short(e) == "start" and any(r["k"] == "ref" and r.get("id") in tvars for r in walk(e)):
                    return [s | {"started"}]
                if e.get("op") == "=" and strip(e["a"][0]).get("id") in tvars:
                    return [s - {"started", "set"}]
                if e.get("fk") in tree_set and any(r["k"] == "ref" and r.get("id") in tvars for a in e["a"] for r in walk(a)):
                    return [s | {"set"}]
                # executing a plan: a call that is given the tree and gets its result
                gives_tree = any(QET in type_name(strip(a).get("t", "")) for a in e["a"]) or (e.get("o") and QET in type_name(strip(e["o"]).get("t", "")))
                if gives_tree and any(computes(t) for t in prog.targets(e)):
                    for need, what in (("set", "before the plan was given the timer"), ("started", "before the timer was started")):
                        if need not in s:
                            rep.viol("server", "%s %s" % (f["n"], need), nd.loc(), "%s computes the result %s" % (f["qn"], what))
            return [s]
        Sim(g, frozenset(), step, None, lambda nd: True)


run("C04", check, explanation="Timer propagation, tests around every computation, hand-over of the timer to interruptible operations and the timer class itself, "
    "decided by typestate simulation on control-flow graphs and by call-graph queries.")
