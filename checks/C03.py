"""C03: no request ends a worker thread or the process; every accepted connection is answered and closed."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from cfg import Graph, Sim, canon, path_text
from cg import CallGraph, derives, type_name

ENDS = {"exit", "std::exit", "abort", "std::abort", "_exit", "_Exit", "std::_Exit", "quick_exit", "std::quick_exit", "std::terminate",
        "raise", "std::raise", "kill", "__assert_fail"}


def syscalls(cg, key, names):
    """Does function key (transitively) call one of the system calls?"""
    for k in cg.reach([key]):
        for n in (x for b in cg.bodies(cg.prog.fn(k)) for x in walk(b)):
            if n["k"] == "call" and n.get("fn") in names:
                return True
    return False


def check(prog, rep):
    rep.rule("contained", "no exception leaves the function a server thread runs", 1)
    rep.rule("keeps-accepting", "the accept loop of a server thread never ends", 1)
    rep.rule("closed", "every accepted connection is closed exactly once on every path, exceptional ones included", 1)
    rep.rule("answered", "every path through the handling of a request sends exactly one response", 2)
    rep.rule("errors-answered", "what is raised while a query is handled is caught and told to the client; composing that answer raises nothing", 1)
    rep.rule("no-exit", "nothing reachable from the handling of a request ends the process", 100)
    rep.rule("no-throw-in-noexcept", "no exception can leave a destructor or noexcept function that handling a request may reach", 5)
    rep.rule("read-ends", "reading a request ends when the client closes the connection or the read fails", 1)
    cg = CallGraph(prog)
    sock = [k for k, r in prog.records.items() if not k.startswith("T:") and r.get("file", "").startswith("src/")
            and {"accept", "recv", "send"} & {c.get("fn") for m in r["methods"] if m["fk"] in prog.raw["F"]
                                             for c in walk(prog.fn(m["fk"]).get("body") or {"k": "nop"}) if c["k"] == "call"}]
    if not sock:
        raise AnalysisError("anchor vanished: no class wraps accept, recv and send")
    S = sock[0]
    meth = {}
    for m in prog.record(S)["methods"]:
        if m["fk"] in prog.raw["F"]:
            for sc in ("accept", "close", "recv", "send"):
                if syscalls(cg, m["fk"], {sc}):
                    meth.setdefault(sc, set()).add(m["fk"])
    for sc in ("accept", "close", "recv", "send"):
        if sc not in meth:
            raise AnalysisError("anchor vanished: no method of %s calls %s" % (S, sc))

    # the functions run by threads
    roots = {}
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b"std::thread" not in raw:
            continue
        f = prog.fn(k)
        for b in cg.bodies(f):
            for c in walk(b):
                if c["k"] in ("call", "ctor") and (c.get("fn", "").startswith(("std::thread", "std::jthread")) or
                                                   short(c) in ("emplace_back", "push_back") and "std::thread" in (c.get("fk") or "")):
                    for a in walk({"k": "list", "a": c["a"]}, into_lambdas=False):
                        if a["k"] == "ref" and a.get("dk") == "fn" and a.get("fk") in prog.raw["F"]:
                            roots[a["fk"]] = prog.fn(a["fk"])
                        if a["k"] == "lambda":
                            roots[k + "#lambda"] = dict(f, body=a["body"], inits=[], qn=f["qn"] + " (thread)", key=k + "#lambda", params=a.get("params", []))
    acc = {k: f for k, f in roots.items() if any(t in meth["accept"] for kk in cg.reach([k]) for _, t in cg.out(kk))} if roots else {}
    acc = {k: f for k, f in roots.items() if "#" not in k and set(cg.reach([k])) & meth["accept"]}
    acc.update({k: f for k, f in roots.items() if "#" in k and
                any(t in meth["accept"] for n in walk(f["body"]) if n["k"] in ("call", "ctor") for t in prog.targets(n))})
    if not acc:
        raise AnalysisError("anchor vanished: no thread accepts connections")

    # the handler: called from the accept loop with the socket, reads the request
    handlers = {}
    for k, f in sorted(acc.items()):
        for kk in list(cg.reach([k])) if "#" not in k else [x for n in walk(f["body"]) if n["k"] == "call" for t in prog.targets(n) for x in cg.reach([t])]:
            g = prog.fn(kk)
            if g and g.get("cls") != S and any(S in type_name(p["t"]) for p in g["params"]) and \
                    any(t in meth["recv"] for _, t in cg.out(kk)):
                handlers[kk] = g
    if not handlers:
        raise AnalysisError("anchor vanished: no function reads a request from an accepted connection")
    for k, f in sorted(acc.items()):
        rep.part(contained, prog, rep, cg, f)
        rep.part(accept_loop, prog, rep, cg, f, S, meth, handlers)
    for k, f in sorted(handlers.items()):
        rep.part(answered, prog, rep, cg, f, S, meth)
        rep.part(no_exit, prog, rep, cg, f)
    for k in sorted(meth["recv"]):
        rep.part(read_ends, prog, rep, prog.fn(k))


def contained(prog, rep, cg, f):
    es = {}
    for b in cg.bodies(f):
        es.update(cg.node_escapes(b, f))
    rep.inst("contained", "%s, run by a server thread: exceptions that may leave it: %s" % (f["qn"], ", ".join(sorted(es)) or "none"))
    for t, (w, what) in sorted(es.items()):
        rep.viol("contained", "%s %s" % (f["n"], t), loc(f), "%s may leave the thread function %s (raised by %s at %s): the server process is terminated" %
                 (t, f["qn"], what, w))


def accept_loop(prog, rep, cg, f, S, meth, handlers):
    touch = meth["accept"] | meth["close"]

    def relevant(g):
        return g.get("cls") != S and g["key"] in reach_cache(g["key"])

    memo = {}

    def reach_cache(k):
        if k not in memo:
            memo[k] = {k} if (set(cg.reach([k])) & touch) else set()
        return memo[k]

    def inline(g, c, fr):
        return g["file"].startswith("src/") and relevant(g)
    dk = cg.dtor_of(S)
    auto = bool(dk and syscalls(cg, dk, {"close"}))

    g = Graph(prog, f, inline=inline, raii=lambda t: type_name(t) == S)
    bad = []

    def acc_call(e, fr):
        e = strip(e)
        neg = False
        while e["k"] == "un" and e["op"] == "!":
            neg = not neg
            e = strip(e["x"])
        if e["k"] == "ref" and "id" in e:
            d = fr.owner(e["id"]).vars.get(e["id"])
            if d and d.get("init"):
                e = strip(d["init"])
        return (e["k"] == "call" and e.get("fk") in meth["accept"]), neg

    def is_client(e, fr):
        return True

    def step(n, s):
        e = n.n
        if n.kind == "ev" and e["k"] == "call":
            if e.get("fk") in meth["accept"]:
                rep.inst("closed", "%s: connection accepted at %s" % (f["qn"], n.loc()))
                if s == "open":
                    bad.append(("open", n, "the next connection is accepted although the previous one was not closed"))
                return ["maybe"]
            if e.get("fk") in meth["close"]:
                o = e.get("o")
                if o is not None and canon(o, n.fr, prog)[:1] != ("this",):
                    if s == "closed" and not auto:
                        bad.append(("twice", n, "a connection is closed twice: its number may already belong to another client"))
                    return ["closed"]
        if n.kind == "dtor" and type_name(e.get("t", "")) == S:
            if auto:
                return ["closed"]
            if s == "open":
                bad.append(("lost", n, "the last reference to an accepted connection ends without closing it"))
                return ["lost"]
            return ["idle"]
        return [s]

    def refine(n, lab, s):
        if uncaught_impossible(cg, n, lab):
            return None
        if n.kind == "br" and s == "maybe":
            is_acc, neg = acc_call(n.n, n.fr)
            if is_acc:
                return "open" if (lab is True) != neg else "idle"
        return s

    def throws(n):
        e = n.n
        if e["k"] == "throw":
            return True
        if e["k"] not in ("call", "ctor"):
            return False
        if e.get("fk") in meth["accept"] | meth["close"]:
            return False
        return bool(cg.node_escapes(e, n.fr.fn)) or any(t in handlers for t in prog.targets(e))

    sim = Sim(g, "idle", step, None, throws, refine=refine)
    for ex, how in ((g.exit, "returns"), (g.xexit, "is left by an exception")):
        for s, env in sim.at.get(ex.i, ()):
            if s in ("open", "maybe"):
                bad.append(("exit", ex, "%s %s while a connection is open; path: %s" % (f["qn"], how, path_text(sim.witness(ex, s)))))
    rep.inst("keeps-accepting", "%s: return reachable: %s" % (f["qn"], bool(sim.at.get(g.exit.i))))
    if sim.at.get(g.exit.i):
        rep.viol("keeps-accepting", f["n"], loc(f), "%s can return, after which its thread accepts no connection any more; path: %s" %
                 (f["qn"], path_text(sim.witness(g.exit, next(iter(sim.at[g.exit.i]))[0]))))
    for key, n, msg in bad:
        rep.viol("closed", "%s %s" % (f["n"], key), n.loc(), "%s: %s" % (f["qn"], msg))


def answered(prog, rep, cg, f, S, meth):
    memo = {}

    def sends(k):
        if k not in memo:
            memo[k] = bool(set(cg.reach([k])) & meth["send"])
        return memo[k]

    def takes_socket(g):
        return any(S in type_name(p["t"]) for p in g["params"])

    def inline(g, c, fr):
        return g["file"].startswith("src/") and g.get("cls") != S and takes_socket(g) and sends(g["key"])
    g = Graph(prog, f, inline=inline)
    plain = CallGraph(prog, library=None)

    def step(n, s):
        if n.kind == "ev" and n.n["k"] == "call" and n.n.get("fk") in meth["send"]:
            rep.inst("answered", "%s: response sent at %s" % (f["qn"], n.loc()))
            return [min(s + 1, 2)]
        return [s]

    def throws(n):
        e = n.n
        if e["k"] == "throw":
            return True
        if e["k"] not in ("call", "ctor"):
            return False
        return bool(plain.node_escapes(e, n.fr.fn))
    sim = Sim(g, 0, step, None, throws, refine=lambda n, lab, s: None if uncaught_impossible(plain, n, lab) else s)
    for s, env in sorted(sim.at.get(g.exit.i, ()), key=str):
        w = path_text(sim.witness(g.exit, s))
        if s == 0:
            rep.viol("answered", "%s none" % f["n"], loc(f), "%s can return without sending a response; path: %s" % (f["qn"], w))
        if s == 2:
            rep.viol("answered", "%s two" % f["n"], loc(f), "%s can send more than one response to a request; path: %s" % (f["qn"], w))
    for s, env in sorted(sim.at.get(g.xexit.i, ()), key=str):
        if s == 0:
            rep.viol("answered", "%s exception" % f["n"], loc(f), "%s can be left by an exception before a response was sent; path: %s" %
                     (f["qn"], path_text(sim.witness(g.xexit, s))))
    # handlers
    tries = [n for n in walk(f["body"]) if n["k"] == "try"]
    # variables whose value reaches the response
    defs = {}
    sent = set()
    for n in walk(f["body"]):
        if n["k"] == "bin" and n["op"] in ("=", "+=") or n["k"] == "call" and n.get("op") in ("=", "+="):
            x, y = (n["x"], n["y"]) if n["k"] == "bin" else (n["a"][0], n["a"][1])
            x = strip(x)
            if x["k"] == "ref" and "id" in x:
                defs.setdefault(x["id"], []).append(y)
        if n["k"] == "var" and n.get("init"):
            defs.setdefault(n["id"], []).append(n["init"])
        if n["k"] == "call" and (n.get("fk") in meth["send"] or any(sends(t) and takes_socket(prog.fn(t)) for t in prog.targets(n))):
            for a in n["a"]:
                sent |= {r["id"] for r in walk(a) if r["k"] == "ref" and "id" in r and S not in type_name(r.get("t", ""))}
    while True:
        more = {r["id"] for v in sent for y in defs.get(v, ()) for r in walk(y) if r["k"] == "ref" and "id" in r} - sent
        if not more:
            break
        sent |= more
    for t in tries:
        for h in t["h"]:
            rep.inst("errors-answered", "%s: handler for %s at %s" % (f["qn"], "anything" if h.get("all") else h.get("t"), loc(f, h)))
            if any(n["k"] == "throw" for n in walk(h["body"])):
                continue
            told = False
            for n in walk(h["body"]):
                y = None
                if n["k"] == "bin" and n["op"] in ("=", "+=") and strip(n["x"]).get("id") in sent:
                    y = n["y"]
                elif n["k"] == "call" and n.get("op") in ("=", "+=") and strip(n["a"][0]).get("id") in sent:
                    y = n["a"][1]
                elif n["k"] == "call" and (n.get("fk") in meth["send"] or any(takes_socket(prog.fn(x)) for x in prog.targets(n))):
                    y = {"k": "list", "a": n["a"]}
                if y is not None and (h.get("all") or "id" not in h or uses(h, y)):
                    told = True
            if not told:
                rep.viol("errors-answered", "%s handler %s" % (f["n"], h.get("t", "...")), loc(f, h),
                         "the handler for %s swallows the error: nothing of it reaches the response" % h.get("t", "..."))
            for ty, (w, what) in sorted(cg.node_escapes(h["body"], f).items()):
                rep.viol("errors-answered", "%s handler raises %s" % (f["n"], ty), loc(f, h),
                         "composing the error response can itself raise %s (%s at %s), so the request gets no answer" % (ty, what, w))


def uncaught_impossible(cg, n, lab):
    """Edge past the handlers of a try block that handle everything its body can raise."""
    if lab != "uncaught" or n.kind != "nop" or n.n.get("k") != "try":
        return False
    es = cg.node_escapes(n.n["body"], n.fr.fn)
    return all(any(derives(cg.prog, t, h.get("t", "")) for h in n.n["h"]) for t in es)


def uses(h, y):
    """Does expression y depend on the caught exception (directly or through locals of the handler)?"""
    ids = {h["id"]}
    while True:
        more = {n["id"] for n in walk(h["body"]) if n["k"] == "var" and n.get("init") and
                any(r["k"] == "ref" and r.get("id") in ids for r in walk(n["init"]))} - ids
        if not more:
            break
        ids |= more
    return any(r["k"] == "ref" and r.get("id") in ids for r in walk(y))


def no_exit(prog, rep, cg, f):
    seen = cg.reach([f["key"]])
    plain = CallGraph(prog, library=None)
    for k in sorted(seen):
        g = prog.fn(k)
        if not g:
            continue
        rep.inst("no-exit", "%s (%s)" % (g["qn"], loc(g)))
        for b in cg.bodies(g):
            for n in walk(b):
                if n["k"] == "call" and (n.get("fn") in ENDS):
                    rep.viol("no-exit", "%s %s" % (g["qn"], n["fn"]), loc(g, n), "%s ends the server process; reached while a request is handled by %s" %
                             (n["fn"], " -> ".join(cg.chain(seen, k)[-4:])))
        if g.get("nx") or g.get("dtor"):
            es = plain.escapes(k)
            rep.inst("no-throw-in-noexcept", "%s: %s" % (g["qn"], ", ".join(es) or "nothing raised"))
            for t, (w, what) in sorted(es.items()):
                rep.viol("no-throw-in-noexcept", "%s %s" % (g["qn"], t), loc(g), "%s must not throw, but %s raised at %s leaves it: the server process is "
                         "terminated (reached by %s)" % (g["qn"], t, w, " -> ".join(cg.chain(seen, k)[-4:])))


def read_ends(prog, rep, f):
    """Simulates the reading loop with the three kinds of outcomes of recv."""
    if not any(n["k"] in ("while", "for", "do") for n in walk(f["body"])):
        return
    g = Graph(prog, f, inline=lambda h, c, fr: h["file"] == f["file"])
    is_recv = lambda e: e["k"] == "call" and e.get("fn") in ("recv", "read")

    def src(e, fr):
        e = strip(e)
        if e["k"] == "ref" and "id" in e:
            o = fr.owner(e["id"])
            d = o.vars.get(e["id"])
            if d and d.get("init"):
                i = strip(d["init"])
                return is_recv(i) or (i["k"] == "ref" and i is not e and src(i, o))
            for n in walk(o.fn["body"]):
                if n["k"] == "bin" and n["op"] == "=" and strip(n["x"]).get("id") == e["id"] and is_recv(strip(n["y"])):
                    return True
        return is_recv(e) or (e["k"] == "bin" and e["op"] == "=" and src(e["y"], fr))

    def is_errno(e):
        return any(x["k"] == "call" and "errno" in x.get("fn", "") for x in walk(e))
    VAL = {"zero": 0, "error": -1, "data": 1000}

    def truth(e, fr, s):
        e = strip(e)
        if e["k"] == "un" and e["op"] == "!":
            t = truth(e["x"], fr, s)
            return None if t is None else not t
        if e["k"] == "bin" and e["op"] in ("==", "!=", "<", "<=", ">", ">="):
            x, y, op = e["x"], e["y"], e["op"]
            if const_int(x) is not None:
                x, y = y, x
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            c = const_int(y)
            if c is None:
                return None
            if is_errno(x) and s == "error":
                return op == "!="
            if src(x, fr) and s in VAL:
                v = VAL[s]
                return {"==": v == c, "!=": v != c, "<": v < c, "<=": v <= c, ">": v > c, ">=": v >= c}[op]
            return None
        if src(e, fr) and s in VAL:
            return VAL[s] != 0
        return None

    def step(n, s):
        if n.kind == "ev" and is_recv(n.n):
            rep.inst("read-ends", "%s: %s at %s" % (f["qn"], n.n["fn"], n.loc()))
            if s in ("zero", "error"):
                rep.viol("read-ends", "%s %s" % (f["n"], s), n.loc(), "%s reads again after %s: the thread is stuck in this loop for ever" %
                         (f["qn"], "the client has closed the connection" if s == "zero" else "a read failed for good"))
                return []
            return ["zero", "error", "data"]
        return [s]

    def refine(n, lab, s):
        if n.kind == "br":
            t = truth(n.n, n.fr, s)
            if t is not None and t != lab:
                return None
        return s
    Sim(g, "none", step, None, lambda n: False, refine=refine)


run("C03", check, explanation="Exception-escape analysis over the call graph of the server threads, and property simulation of the accept loop, the "
    "request handler and the reading loop over their control-flow graphs with exception edges.")
