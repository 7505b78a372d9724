"""C02: concurrent requests for one result: exactly one computes, all finish, failures leave nothing behind."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from cfg import Graph, Sim, canon, path_text
import locks

CACHE_INSERT = {"insert", "insertPinned", "emplace", "insert_or_assign", "try_emplace", "tryInsert"}
MAP_INSERT = {"insert", "emplace", "try_emplace", "insert_or_assign"}
TESTS = {"contains", "count", "find", "containsAndMakePinnedIfExists", "containsPinned", "containsNonPinned"}


def roles(prog):
    """The class of a shared pending result and the fields that play a part, found by their types."""
    pend = [r for k, r in prog.records.items() if not k.startswith("T:") and r.get("file", "").startswith("src/util/")
            and any("condition_variable" in f["t"] for f in r["fields"]) and any("shared_ptr<" in f["t"] for f in r["fields"])
            and "ConcurrentCache" in k]
    if not pend:
        raise AnalysisError("anchor vanished: no class of the concurrent cache has a condition variable and a shared result")
    R = pend[0]
    status = [f["n"] for f in R["fields"] if f["t"] in prog.enums or f["t"] == "bool" or "Status" in f["t"]]
    result = [f["n"] for f in R["fields"] if "shared_ptr<" in f["t"]]
    mutex = [f["n"] for f in R["fields"] if "mutex" in f["t"]]
    if not (status and result and mutex):
        raise AnalysisError("anchor vanished: status, result or mutex of %s" % R["key"])
    rn = R["key"].split("<")[0]
    mp = [(k, f["n"]) for k, r in prog.records.items() if not k.startswith("T:") for f in r["fields"]
          if rn in f["t"] and re.search(r"map<", f["t"])]
    if not mp:
        raise AnalysisError("anchor vanished: map of pending results")
    holder = prog.record(mp[0][0])
    cache = [f["n"] for f in holder["fields"] if f["n"] != mp[0][1] and "Cache" in f["t"]]
    return R, status[0], result[0], mutex[0], mp[0][1], cache[0] if cache else None


def status_values(prog, R, status):
    f = [f for f in R["fields"] if f["n"] == status][0]
    e = prog.enums.get(f["t"])
    if e is None:
        for k, v in prog.enums.items():
            if k.endswith("ResultInProgress::Status") or k.split("<")[0] == f["t"].split("<")[0]:
                e = v
    if e and len({v for _, v in e["e"]}) < len(e["e"]):   # enumerators of a template have no values of their own
        e = dict(e, e=[[n, i] for i, (n, _) in enumerate(e["e"])])
    vals = {v: n for n, v in e["e"]} if e else {0: "false", 1: "true"}
    init = const_int(f["init"]) if f.get("init") else None
    if init is None:
        t = prog.records.get("T:" + R["key"].split("<")[0])
        ti = [x for x in (t or R)["fields"] if x["n"] == status][0].get("init")
        init = {n: v for v, n in vals.items()}.get(strip(ti).get("n")) if ti else None
    if init is None:
        raise AnalysisError("initial value of %s::%s not found" % (R["key"], status))
    return vals, init


FIELDS = ["own", "reg", "sig", "note", "res", "comp", "ins", "tm", "tc", "inmap", "gap"]


def mk(**kw):
    return tuple(kw.get(f, 0) for f in FIELDS) + (kw.get("held", frozenset()),)


def get(s, f):
    return s[FIELDS.index(f)]


def up(s, **kw):
    l = list(s)
    for k, v in kw.items():
        if k == "held":
            l[-1] = v
        else:
            l[FIELDS.index(k)] = v
    return tuple(l)


def check(prog, rep):
    rep.rule("finish-or-abort", "after a pending entry is registered every way out removes it and wakes the waiting threads", 4)
    rep.rule("atomic-registration", "a pending entry is registered in the same critical section in which its absence from cache and map was tested", 2)
    rep.rule("only-owner-computes", "the computation runs only in the thread that registered the entry", 2)
    rep.rule("no-lock-while-computing", "no lock is held while a result is computed or waited for", 4)
    rep.rule("hand-over", "a finished result is put in the cache in the critical section that removes the pending entry", 2)
    rep.rule("signal-locked", "the state of a pending result is written under its mutex, FINISHED only with the result, and all waiters are notified", 4)
    rep.rule("failure-propagates", "a failed computation ends with an exception for the computing thread", 2)
    rep.rule("wait", "a waiting thread sleeps until the state changes, gets the result if finished and an exception if aborted", 2)
    R, status, result, mutex, mapf, cachef = roles(prog)
    vals, init = status_values(prog, R, status)
    others = [v for v in vals if v != init]
    rn = R["key"]
    # which value means success: the one set by the function that stores the result
    ok_vals, bad_vals = set(), set()
    for m in R["methods"]:
        f = prog.fn(m["fk"])
        if not f or not f.get("body"):
            continue
        st = [const_int(n["y"]) for n in walk(f["body"]) if n["k"] == "bin" and n["op"] == "=" and strip(n["x"]).get("n") == status]
        stores = any(n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0]).get("n") == result for n in walk(f["body"]))
        for v in st:
            (ok_vals if stores else bad_vals).add(v)
    ok_vals.discard(None), bad_vals.discard(None)
    bad_vals -= ok_vals
    if not ok_vals:
        rep.inst("signal-locked", rn)
        rep.viol("signal-locked", "handover", "%s:%d" % (R["file"], R.get("l", 1)), "no function that is used stores a finished result in %s together with its new state: "
                 "threads that wait for the result never get it" % rn)
        return

    roots = []
    for qn in prog.fn_names():
        if qn.startswith("ad_utility::ConcurrentCache::"):
            for f in prog.fns(qn):
                if f.get("acc") == "public" and any("lambda" in p["t"] for p in f["params"]):
                    roots.append(f)
    roots = sorted(roots, key=lambda f: f["key"])
    if not roots:
        raise AnalysisError("anchor vanished: no public function of ConcurrentCache takes a computation")

    def inline(f, c, fr):
        return f["file"].endswith("ConcurrentCache.h") and not f["qn"].startswith("ad_utility::FlexibleCache")
    for root in roots:
        g = Graph(prog, root, inline=inline, raii=locks.raii)
        analyse(prog, rep, root, g, status, result, mutex, mapf, cachef, init, ok_vals, bad_vals)
    waiters = []
    for m in R["methods"]:
        f = prog.fn(m["fk"])
        if f and f.get("body") and any(c["k"] == "call" and short(c).startswith("wait") and "condition_variable" in c.get("fn", "")
                                       for c in walk(f["body"])):
            waiters.append(f)
    if not waiters:
        raise AnalysisError("anchor vanished: nothing waits on the condition variable of %s" % rn)
    for f in waiters:
        wait_rule(prog, rep, f, status, result, mutex, vals, init, ok_vals)


def analyse(prog, rep, root, g, status, result, mutex, mapf, cachef, init, ok_vals, bad_vals):
    name = "%s::%s" % ("ConcurrentCache", root["n"])

    def lockname(p):
        if p[-1] == mutex:
            return "result"
        return "cache" if p and p[-1] not in (mutex,) else "?"

    evs = {}

    def classify(n):
        """events of node n: list of tuples"""
        if n.i in evs:
            return evs[n.i]
        r = []
        for p in locks.acquires(n, prog):
            r.append(("lock", lockname(p)))
        for p in locks.releases(n, prog):
            r.append(("unlock", lockname(p)))
        e = n.n
        if n.kind == "ev" and e:
            if e["k"] == "call":
                nm = short(e)
                obj = e["a"][0] if e.get("mo") and e["a"] else e.get("o")
                p = canon(obj, n.fr, prog) if obj is not None else ()
                if e.get("op") == "=" and mapf in p:
                    tail = p[p.index(mapf) + 1:]
                    if tail in (("[]",), ("[]", "second")):
                        r.append(("register",))
                elif p and p[-1] == mapf:
                    if nm in MAP_INSERT:
                        r.append(("register",))
                    elif nm in ("erase", "clear", "extract"):
                        r.append(("remove",))
                    elif nm in TESTS:
                        r.append(("testmap",))
                elif cachef and p and p[-1] == cachef:
                    if nm in CACHE_INSERT:
                        r.append(("store",))
                    elif nm in TESTS or nm == "operator[]" or e.get("op") == "[]":
                        r.append(("testcache",))
                if e.get("op") == "=" and p and p[-1] == result:
                    r.append(("result",))
                if nm == "notify_all" and "condition_variable" in e.get("fn", ""):
                    r.append(("notify",))
                if nm.startswith("wait") and "condition_variable" in e.get("fn", ""):
                    r.append(("wait",))
                if (e.get("op") == "()" and p and p[0][0] == "p") or (e.get("fn") == "std::invoke"):
                    r.append(("compute",))
            if e["k"] == "bin" and e["op"] == "=":
                p = canon(e["x"], n.fr, prog)
                if p[-1] == status:
                    r.append(("status", const_int(e["y"])))
                elif mapf in p and p[p.index(mapf) + 1:] in (("[]",), ("[]", "second")):
                    r.append(("register",))
        evs[n.i] = r
        return r

    bad = []

    def v(rule, key, n, msg):
        bad.append((rule, key, n, msg))

    def step(n, s):
        for ev in classify(n):
            k = ev[0]
            if k == "lock":
                if ev[1] in s[-1]:
                    v("no-lock-while-computing", "relock", n, "acquires the %s lock while already holding it" % ev[1])
                s = up(s, held=s[-1] | {ev[1]})
                if ev[1] == "cache":
                    s = up(s, tm=0, tc=0, inmap=0)
            elif k == "unlock":
                s = up(s, held=s[-1] - {ev[1]})
                if ev[1] == "cache":
                    s = up(s, tm=0, tc=0, inmap=0)
                    if get(s, "gap"):
                        v("hand-over", "gap", n, "the pending entry of a successful computation is removed, but the result is not put in "
                          "the cache before the lock is released")
                        s = up(s, gap=0)
                    if get(s, "ins") == 1 and get(s, "reg"):
                        v("hand-over", "late", n, "the result is put in the cache but its pending entry stays after the lock is released")
                        s = up(s, ins=2)
            elif k == "testmap":
                s = up(s, tm=1 if "cache" in s[-1] else 0)
            elif k == "testcache":
                s = up(s, tc=1 if "cache" in s[-1] else 0)
            elif k == "register":
                rep.inst("atomic-registration", "%s: %s at %s" % (name, show(n.n), n.loc()))
                if "cache" not in s[-1]:
                    v("atomic-registration", "unlocked", n, "registers a pending entry without holding the cache lock")
                elif not get(s, "tm") or not get(s, "tc"):
                    v("atomic-registration", "untested", n, "registers a pending entry without testing %s in the same critical section" %
                      ("the map of pending results" if not get(s, "tm") else "the cache"))
                elif get(s, "inmap"):
                    v("atomic-registration", "overwrites", n, "registers a pending entry although one exists")
                s = up(s, own=1, reg=1, inmap=0)
            elif k == "remove":
                if "cache" not in s[-1]:
                    v("atomic-registration", "unlocked remove", n, "removes a pending entry without holding the cache lock")
                if get(s, "reg") and get(s, "comp") == 1 and not get(s, "ins"):
                    s = up(s, gap=1)
                s = up(s, reg=0)
            elif k == "store":
                if "cache" not in s[-1]:
                    v("hand-over", "unlocked", n, "changes the cache without holding its lock")
                if get(s, "comp") != 1:
                    v("hand-over", "uncomputed", n, "puts an entry in the cache that was not computed successfully")
                s = up(s, ins=1, gap=0)
            elif k == "compute":
                rep.inst("only-owner-computes", "%s: %s at %s" % (name, show(n.n), n.loc()))
                rep.inst("no-lock-while-computing", "%s: %s at %s" % (name, show(n.n), n.loc()))
                if not get(s, "own"):
                    v("only-owner-computes", "not owner", n, "runs the computation in a thread that did not register it")
                if s[-1]:
                    v("no-lock-while-computing", "compute", n, "holds the %s lock while the result is computed" % ", ".join(sorted(s[-1])))
                s = up(s, comp=1)
            elif k == "wait":
                rep.inst("no-lock-while-computing", "%s: %s at %s" % (name, show(n.n), n.loc()))
                if "cache" in s[-1]:
                    v("no-lock-while-computing", "wait", n, "holds the cache lock while waiting for another thread's result")
                if "result" not in s[-1]:
                    v("wait", "unlocked", n, "waits without holding the mutex of the pending result")
                if get(s, "own"):
                    v("only-owner-computes", "self wait", n, "waits for a result that only the waiting thread itself can provide")
            elif k == "result":
                s = up(s, res=1)
            elif k == "status":
                rep.inst("signal-locked", "%s: %s at %s" % (name, show(n.n), n.loc()))
                if "result" not in s[-1]:
                    v("signal-locked", "unlocked %s" % ev[1], n, "changes the state of a pending result without holding its mutex")
                if ev[1] in ok_vals and get(s, "comp") != 1:
                    v("signal-locked", "finished uncomputed", n, "announces a result although none was computed")
                s = up(s, sig=1 if ev[1] in ok_vals else 2 if ev[1] != init else 0, note=0)
            elif k == "notify":
                s = up(s, note=1 if get(s, "sig") else 0)
        return [s]

    def xstep(n, s):
        evs_ = [ev[0] for ev in classify(n)]
        if "compute" in evs_ and s[-1]:
            step(n, s)
        return [up(s, comp=2) if get(s, "own") else s]

    def throws(n):
        """The bookkeeping of standard containers, pointers and mutexes is taken not to fail; computing, storing,
        allocating a value and anything else of the code base may."""
        e = n.n
        if e["k"] == "throw":
            return True
        if any(ev[0] in ("compute", "store") for ev in classify(n)):
            return True
        fn = e.get("fn", "")
        return not fn.startswith(("std::", "absl::", "ad_utility::LockPtr", "ad_utility::Synchronized")) or \
            fn in ("std::make_shared", "std::make_unique", "std::function::operator()", "std::stoi", "std::stol")

    def refine(n, lab, s):
        if n.kind == "br":
            e = strip(n.n)
            if e["k"] == "call" and short(e) in ("contains", "count"):
                p = canon(e.get("o"), n.fr, prog) if e.get("o") else ()
                if p and p[-1] == mapf and lab is True:
                    return up(s, inmap=1)
        return s

    sim = Sim(g, mk(), step, xstep, throws, refine=refine)
    for ex, how in ((g.exit, "returns"), (g.xexit, "is left by an exception")):
        for s, env in sorted(sim.at.get(ex.i, ()), key=str):
            if not get(s, "own"):
                continue
            rep.inst("finish-or-abort", "%s %s after registering a pending entry" % (name, how))
            w = path_text(sim.witness(ex, s))
            if get(s, "reg"):
                v("finish-or-abort", "entry stays (%s)" % how, ex, "%s %s but the pending entry stays registered: later requests wait forever; path: %s" % (name, how, w))
            if not get(s, "sig"):
                v("finish-or-abort", "no signal (%s)" % how, ex, "%s %s without telling the waiting threads: they wait forever; path: %s" % (name, how, w))
            elif not get(s, "note"):
                v("finish-or-abort", "no notify_all (%s)" % how, ex, "%s %s after changing the state of the pending result without notify_all: "
                  "sleeping threads wait forever; path: %s" % (name, how, w))
            if get(s, "sig") == 1 and not get(s, "res"):
                v("signal-locked", "no result", ex, "the result is announced but never stored for the waiting threads; path: %s" % w)
            if get(s, "comp") == 1 and get(s, "sig") == 2:
                v("finish-or-abort", "abort after success", ex, "a successful computation is announced as failed; path: %s" % w)
            if get(s, "comp") == 2 and get(s, "sig") == 1 and how == "returns":
                pass
            if ex is g.exit and get(s, "comp") != 1:
                v("failure-propagates", "swallowed", ex, "%s returns normally although the computation failed; path: %s" % (name, w))
            rep.inst("failure-propagates", "%s %s, computation %s" % (name, how, {0: "not run", 1: "ok", 2: "failed"}[get(s, "comp")]))
            if get(s, "comp") == 1:
                rep.inst("hand-over", "%s %s after a successful computation" % (name, how))
                if not get(s, "ins"):
                    v("hand-over", "not stored", ex, "the computed result is never offered to the cache; path: %s" % w)
            if s[-1]:
                v("no-lock-while-computing", "held at exit", ex, "%s %s with the %s lock held" % (name, how, ", ".join(s[-1])))
    for rule, key, n, msg in bad:
        rep.viol(rule, "%s %s" % (root["n"], key), n.loc(), "%s: %s" % (name, msg))


def evalb(e, status, val):
    """Truth value of a condition on the state when the state is val (None: unknown)."""
    e = strip(e)
    if e["k"] == "un" and e["op"] == "!":
        x = evalb(e["x"], status, val)
        return None if x is None else not x
    if e["k"] == "bin" and e["op"] in ("&&", "||"):
        a, b = evalb(e["x"], status, val), evalb(e["y"], status, val)
        if e["op"] == "&&":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if e["k"] == "bin" and e["op"] in ("==", "!="):
        for x, y in ((e["x"], e["y"]), (e["y"], e["x"])):
            if strip(x).get("n") == status and const_int(y) is not None:
                return (const_int(y) == val) == (e["op"] == "==")
    if e["k"] == "mem" and e["n"] == status:
        return bool(val)
    return None


def wait_rule(prog, rep, fn, status, result, mutex, vals, init, ok_vals):
    g = Graph(prog, fn, inline=lambda f, c, fr: f["file"].endswith("ConcurrentCache.h"), raii=locks.raii, lambdas=lambda c: "skip")

    def step(n, s):
        e = n.n
        if n.kind == "ev" and e and e["k"] == "call" and short(e).startswith("wait") and "condition_variable" in e.get("fn", ""):
            rep.inst("wait", "%s at %s" % (show(e), n.loc()))
            pred = None
            for a in e["a"]:
                l = g.lambda_of(a, n.fr)
                if l:
                    pred = l[0]
            if pred is None:
                return [(x, 1) for x in vals]
            rets = [x for x in walk(pred["body"]) if x["k"] == "ret"]
            res = []
            for x in vals:
                t = evalb(rets[0]["e"], status, x) if len(rets) == 1 else None
                if t is None:
                    raise AnalysisError("%s: predicate of wait not understood" % n.loc())
                if t:
                    res.append((x, 1))
                elif x != init:
                    rep.viol("wait", "%s sleeps through %s" % (fn["n"], vals[x]), n.loc(),
                             "the thread keeps waiting when the state is %s: nobody wakes it again" % vals[x])
            if short(e) in ("wait_for", "wait_until"):
                return [(x, 1) for x in vals]
            return res
        return [s]

    def refine(n, lab, s):
        if n.kind == "br":
            t = evalb(n.n, status, s[0])
            if t is not None and t != lab:
                return None
        if n.kind == "sw" and strip(n.n["c"]).get("n") == status:
            labs = [l for _, l in n.succ]
            if lab != s[0] and not (lab == "default" and s[0] not in labs):
                return None
        return s
    ats = set()
    for x in vals:
        sim = Sim(g, (x, 0), step, refine=refine, throws=lambda n: n.n["k"] == "throw")
        for s in sim.states(g.exit):
            ats.add(s)
            if s[0] not in ok_vals:
                rep.viol("wait", "%s returns on %s" % (fn["n"], vals[s[0]]), loc(fn),
                         "%s returns normally in state %s although there is no result; path: %s" % (fn["qn"], vals[s[0]], path_text(sim.witness(g.exit, s))))
        rep.inst("wait", "%s from state %s" % (fn["qn"], vals[x]))
    if not any(s[0] in ok_vals for s in ats):
        rep.viol("wait", "%s never returns" % fn["n"], loc(fn), "%s does not return the result in the finished state" % fn["qn"])
    # what is returned is the result
    for n in g.nodes:
        if n.kind == "ev" and n.n and n.n["k"] == "ret" and n.fr is g.root:
            p = canon(n.n["e"], n.fr, prog) if n.n.get("e") else ()
            if result not in p:
                rep.viol("wait", "%s returns other" % fn["n"], n.loc(), "%s returns %s instead of the shared result" % (fn["qn"], show(n.n.get("e"))))


if __name__ == "__main__":
    run("C02", check, explanation="Typestate analysis (property simulation on the inlined control-flow graph with exception edges and "
        "destructors) of the concurrent cache's compute functions and of the pending-result class.")
