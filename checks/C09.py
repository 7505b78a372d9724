"""C09: no set of requests can deadlock the server on its own locks."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, AnalysisError
from cg import CallGraph
from place import Fn

GUARD = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
# Calls that may wait for another thread or for a client.
WAIT = re.compile(r"^std::(condition_variable(_any)?|(__basic_|shared_)?future(<.*>)?|thread|jthread|counting_semaphore|barrier|latch)::(wait|wait_for|wait_until|get|join|acquire|arrive_and_wait)$"
                  r"|^std::this_thread::sleep_(for|until)$|^::?(recv|send|accept|connect|select|poll|sleep|usleep|system)$|^ad_utility::Socket::(send|receive|acceptClient|getRequest|sendKeepAlive)")
COMPUTE = re.compile(r"^(Operation::(getResult|computeResult)|\w+::computeResult|QueryExecutionTree::(getResult|writeResult\w*)|ad_utility::ConcurrentCache::(computeOnce\w*))$")
# Calls that are evaluated before the lock can matter: the planner has asked every tree of a plan for its size, and the answer is memoised.
MEMO = ("QueryExecutionTree::getSizeEstimate",)


def guard_type(t):
    t = t.replace("const ", "").strip()
    return t.startswith(GUARD) or t.startswith(tuple(g[5:] for g in GUARD)) or t.startswith(("ad_utility::LockPtr<", "LockPtr<"))


def payload(t):
    """Readable name of the lock behind a Synchronized type."""
    m = re.search(r"Synchronized<(.*)", t)
    if not m:
        return None
    d, out = 0, ""
    for c in m.group(1):
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
            if d < 0:
                break
        if c == "," and d == 0:
            break
        out += c
    out = out.strip()
    return "Synchronized<%s>" % out.replace(" ", "").split("absl::container")[0]


def lock_of(e, F):
    """[(lock name, shared)] an expression acquires."""
    e = strip(e)
    if e["k"] == "call" and short(e) in ("wlock", "rlock") and "Synchronized" in e.get("fn", ""):
        t = e.get("t", "") if "Synchronized" in e.get("t", "") else e.get("fk", "")
        return [(payload(t) or "?", short(e) == "rlock")]
    if e["k"] == "ctor" and guard_type(e.get("t", "")) and not e.get("cm2"):
        if any("defer_lock" in show(a) for a in e["a"]):
            return []
        out = []
        for a in e["a"]:
            a = strip(a)
            if "_lock_t" in a.get("t", ""):
                continue
            n = a.get("n", show(a))
            cls = (F.f.get("cls") or "").split("<")[0].split("::")[-1]
            out.append(("%s::%s" % (cls, n) if a["k"] == "mem" else n, e["t"].startswith("std::shared_lock")))
        return out
    return []


class Locks:
    def __init__(self, prog, cg):
        self.prog, self.cg = prog, cg
        self.regions = {}     # key -> [(lock, shared, acquisition node, [nodes inside])]
        self.sites = []
        pat = re.compile(rb"wlock|rlock|lock_guard|unique_lock|scoped_lock|shared_lock|withWriteLock|withReadLock")
        for k in prog.all_keys():
            if k.startswith("T:") or not pat.search(prog.raw["F"][k]):
                continue
            f = prog.fn(k)
            if not f.get("body") or not f["file"].startswith("src/"):
                continue
            if f["qn"].startswith(("ad_utility::Synchronized::", "ad_utility::LockPtr::")):
                continue
            self.regions[k] = self.find(f)
            self.sites += [(f, r) for r in self.regions[k]]

    def find(self, f):
        F = Fn(self.prog, f)
        out = []
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) in ("withWriteLock", "withReadLock"):
                t = strip(n["o"]).get("t", "") if n.get("o") is not None else ""
                name = payload(t if "Synchronized" in t else n.get("fk", "")) or "?"
                out.append((name, short(n) == "withReadLock", n, [a for a in n["a"]]))
                continue
            if n["k"] not in ("call", "ctor"):
                continue
            ls = lock_of(n, F)
            if not ls:
                continue
            var, top, c = None, n, n
            for p in F.ancestors(n):
                if p["k"] == "var" and guard_type(p.get("t", "")):
                    var = p
                    break
                if p["k"] in ("blk", "if", "for", "while", "do", "rfor", "switch", "decl", "ret", "lambda"):
                    if p["k"] in ("decl", "ret"):
                        top = p
                    elif p["k"] in ("if", "while", "switch") and p.get("c") is c:
                        top = p["c"]
                    elif p["k"] == "for" and c in (p.get("c"), p.get("inc")):
                        top = c
                    else:
                        top = c
                    break
                c = p
            if var is not None:
                inside = self.rest(F, var)
                inside = self.until_unlock(F, var, inside)
            else:
                inside = [x for x in walk(top) if x is not n and F.order.get(id(x), 0) != F.order[id(n)] and not self.below(n, x)]
            for name, sh in ls:
                out.append((name, sh, n, inside))
        return out

    def below(self, n, x):
        return any(y is x for y in walk(n))

    def rest(self, F, var):
        """Statements of the block after the declaration of a guard."""
        c = var
        for p in F.ancestors(var):
            if p["k"] == "blk":
                i = next(j for j, s in enumerate(p["s"]) if s is c)
                return [s for s in p["s"][i + 1:] if s is not None]
            if p["k"] in ("if", "for", "while", "switch") and c is not p.get("body"):
                return [x for x in (p.get("x"), p.get("y"), p.get("body")) if x is not None]
            c = p
        return []

    def until_unlock(self, F, var, stmts):
        out = []
        for s in stmts:
            if any(n["k"] == "call" and short(n) == "unlock" and n.get("o") is not None and strip(n["o"]).get("id") == var["id"] for n in walk(s)):
                break
            out.append(s)
        return out

    def param(self, f, n):
        """Index of the pointer parameter through which a lock is reached (a null pointer means no lock)."""
        o = n.get("o") if n["k"] == "call" else None
        while o is not None:
            o = strip(o)
            if o["k"] == "ref":
                return next((i for i, p in enumerate(f.get("params", [])) if p["id"] == o.get("id") and ("*" in p["t"] or "_ptr<" in p["t"] or "Shared" in p["t"])), None)
            o = o["a"][0] if o["k"] == "call" and o.get("op") in ("->", "*") else o.get("x") if o["k"] == "un" else None
        return None

    def through(self, e, n, f):
        """The effect of a callee as seen in its caller f at call n; None if it cannot happen there."""
        kind, name, i = e
        if i is None or n is None or i >= len(n.get("a", [])):
            return (kind, name, None)
        a = strip(n["a"][i])
        if a["k"] == "defarg" or "nullptr" in a.get("t", "") or any(x["k"] == "null" or "nullptr_t" in x.get("t", "") for x in walk(a)):
            return None
        while a["k"] == "ctor" and len(a["a"]) == 1:
            a = strip(a["a"][0])
        if a["k"] == "call" and short(a) == "move" and a["a"]:
            a = strip(a["a"][0])
        if a["k"] == "ref":
            for j, p in enumerate(f.get("params", [])):
                if p["id"] == a.get("id"):
                    return (kind, name, j)
        return (kind, name, None)

    # -- what a call may do
    def summary(self):
        """key -> {effect: chain of names}; effects are lock names and 'wait ...'."""
        eff = {}
        for k, rs in self.regions.items():
            for name, sh, n, inside in rs:
                eff.setdefault(k, {}).setdefault(("lock", name, self.param(self.prog.fn(k), n)), loc(self.prog.fn(k), n))
        callers = {}
        todo = set()
        for k in self.prog.all_keys():
            if k.startswith("T:"):
                continue
            f = self.prog.fn(k)
            if not f.get("body") and not f.get("inits"):
                continue
            if not f["file"].startswith("src/") or "Test" in f["file"]:
                continue
            if COMPUTE.match(f["qn"]):
                eff.setdefault(k, {}).setdefault(("compute", f["qn"], None), loc(f))
            sp = set()
            for b in self.cg.bodies(f):
                sp |= self.cg.spawned_lambdas(b)
            for n, t in self.cg.out(k):
                callers.setdefault(t, {}).setdefault(k, []).append(n)
            for b in self.cg.bodies(f):
                for n in walk(b):
                    if n["k"] == "call" and WAIT.match(n.get("fn", "")):
                        eff.setdefault(k, {}).setdefault(("wait", n["fn"], None), loc(f, n))
            todo.add(k)
        work = list(eff)
        while work:
            k = work.pop()
            for c, nodes in callers.get(k, {}).items():
                if c not in todo:
                    continue
                new = {}
                for e, w in eff[k].items():
                    for n in nodes:
                        e2 = self.through(e, n, self.prog.fn(c))
                        if e2 and e2 not in eff.get(c, {}):
                            new[e2] = w
                if new:
                    eff.setdefault(c, {}).update(new)
                    work.append(c)
        return eff


def check(prog, rep):
    rep.rule("order", "locks are acquired in one global order: none is requested while a lock behind it, or the same lock, is held", 20)
    rep.rule("blocking", "no lock is held while a result is computed, another thread is waited for or a client is served", 20)
    rep.rule("protected", "what a mutex protects is written only while it is held, and read only by its writer without it", 3)
    rep.rule("pairing", "a lock handle releases in its destructor what its constructor acquired, in the same mode", 2)
    rep.rule("handle", "no reference to protected data outlives the lock under which it was obtained", 20)
    rep.rule("atomic", "a decision about protected data and the change that depends on it are made under one acquisition", 3)
    cg = CallGraph(prog)
    L = Locks(prog, cg)
    rep.part(graph, prog, rep, L)
    rep.part(protected, prog, rep, L)
    rep.part(pairing, prog, rep)
    rep.part(handle, prog, rep, L)
    rep.part(atomic, prog, rep, L)


def graph(prog, rep, L):
    eff = L.summary()
    edges = {}
    for f, (name, sh, node, inside) in L.sites:
        rep.inst("order", "%s: %s acquires %s%s" % (loc(f, node), f["qn"], name, " (shared)" if sh else ""))
        rep.inst("blocking", "%s: %s holds %s" % (loc(f, node), f["qn"], name))
        var = None
        for st in inside:
            for n in walk(st):
                if n["k"] not in ("call", "ctor"):
                    continue
                # acquisitions in place
                for name2, sh2, node2, _ in L.regions.get(f["key"], []):
                    if node2 is n and node2 is not node:
                        edges.setdefault((name, name2), (f, n, "directly"))
                if n["k"] == "call" and WAIT.match(n.get("fn", "")):
                    own = any(a["k"] == "ref" and guard_type(a.get("t", "")) for x in n["a"] for a in walk(x))
                    if not (own and "condition_variable" in n["fn"]):
                        rep.viol("blocking", "%s %s %s" % (f["qn"], name, short(n)), loc(f, n), "%s calls %s while it holds %s" % (f["qn"], n["fn"], name))
                if n.get("fn") in MEMO:
                    continue
                for t in prog.targets(n):
                    for e, where in eff.get(t, {}).items():
                        if L.through(e, n, f) is None:
                            continue
                        kind, what, _ = e
                        if kind == "lock":
                            edges.setdefault((name, what), (f, n, "through %s, which locks at %s" % (short(n), where)))
                        else:
                            rep.viol("blocking", "%s %s %s" % (f["qn"], name, short(n)), loc(f, n),
                                     "%s calls %s while it holds %s; that may %s (%s)" % (f["qn"], show(n)[:60], name, "compute a result" if kind == "compute" else "wait in " + what, where))
    rep.extra["lock_order_edges"] = sorted("%s -> %s" % e for e in edges)
    for (a, b), (f, n, how) in sorted(edges.items(), key=lambda x: x[0]):
        if a == b:
            rep.viol("order", "%s twice %s" % (a, f["qn"]), loc(f, n), "%s requests %s while holding it (%s)" % (f["qn"], a, how))
    # cycles
    succ = {}
    for a, b in edges:
        if a != b:
            succ.setdefault(a, set()).add(b)

    def reaches(a, b, seen):
        for c in succ.get(a, ()):
            if c == b or c not in seen and not seen.add(c) and reaches(c, b, seen):
                return True
        return False
    for (a, b), (f, n, how) in sorted(edges.items(), key=lambda x: x[0]):
        if a != b and reaches(b, a, set()):
            rep.viol("order", "%s -> %s" % (a, b), loc(f, n), "%s requests %s while holding %s (%s), elsewhere they are acquired the other way round" % (f["qn"], b, a, how))


# ---------------------------------------------------------------- fields next to a mutex
def protected(prog, rep, L):
    seen = set()
    for cls, rec in sorted(prog.records.items()):
        if not rec.get("file", "src/").startswith("src/") and rec.get("file"):
            continue
        mutexes = [m["n"] for m in rec.get("fields", []) if re.match(r"(mutable )?std::(shared_|recursive_|timed_)?mutex$", m["t"])]
        if not mutexes or cls.startswith("std::") or "Synchronized" in cls:
            continue
        data = {m["n"] for m in rec["fields"] if m["n"] not in mutexes and "condition_variable" not in m["t"] and not m["t"].startswith("const ")}
        fns = []
        for m in rec["methods"]:
            f = prog.fn(m["fk"]) if m.get("fk") in prog.raw["F"] else None
            if f and f.get("body"):
                fns.append(f)
        writes = {}
        for f in fns:
            for n in walk(f["body"]):
                x = None
                if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    x = strip(n["x"])
                elif n["k"] == "call" and n.get("op") in ("=", "+=", "++", "--") and n["a"]:
                    x = strip(n["a"][0])
                elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
                    x = strip(n["x"])
                elif n["k"] == "call" and n.get("o") is not None and not n.get("cm") and short(n) in ("push_back", "pop_front", "push", "pop", "insert", "erase", "clear", "emplace", "reset", "swap", "emplace_back"):
                    x = strip(n["o"])
                if x is not None and x["k"] == "mem" and x["n"] in data:
                    writes.setdefault(x["n"], []).append((f, n))
        for f in fns:
            if f["n"] == cls.split("<")[0].split("::")[-1] or f["n"].startswith("~"):
                continue
            regs = L.regions.get(f["key"], [])
            F = Fn(prog, f)
            spans = []
            for name, sh, node, inside in regs:
                if name.split("::")[-1] in mutexes:
                    spans += inside
            owner = {w for w, l in writes.items() if any(g is f for g, _ in l)}
            for n in walk(f["body"]):
                if n["k"] != "mem" or n["n"] not in data or n["n"] not in writes:
                    continue
                if n.get("b") is not None and strip(n["b"])["k"] != "this":
                    continue
                held = any(F.inside(n, s) for s in spans)
                key = "%s::%s in %s" % (cls.split("<")[0], n["n"], f["n"])
                if key not in seen:
                    seen.add(key)
                    rep.inst("protected", key)
                if held:
                    continue
                if any(g is f and any(y is n for y in walk(w)) and strip(w["x"] if "x" in w else (w["a"][0] if w.get("a") else w["o"])) is n for g, w in writes[n["n"]]):
                    rep.viol("protected", key + " write", loc(f, n), "%s writes %s without holding %s" % (f["qn"], n["n"], "/".join(mutexes)))
                elif n["n"] not in owner:
                    rep.viol("protected", key + " read", loc(f, n), "%s reads %s without holding %s, while other threads may write it" % (f["qn"], n["n"], "/".join(mutexes)))


# ---------------------------------------------------------------- the lock handle itself
def pairing(prog, rep):
    recs = [(c, r) for c, r in prog.records.items() if c.split("<")[0].split("::")[-1] == "LockPtr" and "<" in c]
    if not recs:
        raise AnalysisError("anchor vanished: instantiations of LockPtr")
    modes = set()
    for c, r in sorted(recs):
        take = give = None
        for m in r["methods"]:
            f = prog.fn(m["fk"]) if m.get("fk") in prog.raw["F"] else None
            if not f or not f.get("body"):
                continue
            if f["n"].startswith("~"):
                give = (f, live_calls(f, ("unlock", "unlock_shared")))
            elif f["n"] == "LockPtr":
                take = (f, live_calls(f, ("lock", "lock_shared")))
        if not take or not give:
            continue
        sh = re.search(r",\s*(true|false)\s*,\s*(true|false)>$", c)
        rep.inst("pairing", "%s: %s / %s" % (c[-60:], ",".join(take[1]), ",".join(give[1])))
        modes.add(tuple(take[1]))
        if [x.replace("lock", "unlock") for x in take[1]] != give[1] or len(take[1]) != 1:
            rep.viol("pairing", "LockPtr " + ",".join(take[1]), loc(give[0]), "LockPtr acquires with %s and releases with %s" % (",".join(take[1]) or "nothing", ",".join(give[1]) or "nothing"))
        if sh and take[1] and ("shared" in take[1][0]) != (sh.group(1) == "true"):
            rep.viol("pairing", "LockPtr mode", loc(take[0]), "LockPtr for a%s lock acquires with %s" % (" shared" if sh.group(1) == "true" else "n exclusive", take[1][0]))
        if sh and sh.group(1) == "true" and sh.group(2) == "false":
            rep.viol("pairing", "LockPtr const", loc(take[0]), "a shared lock gives write access to the data")
    # every function of Synchronized that gives access to the payload does so under a guard
    done = set()
    for k in prog.all_keys():
        if b"Synchronized" not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        if not f["qn"].startswith("ad_utility::Synchronized::") or not f.get("body"):
            continue
        uses_t = [n for n in walk(f["body"]) if n["k"] == "mem" and n["n"] == "t_"]
        if not uses_t or (f["qn"], f["l"]) in done or f["n"].startswith(("Synchronized", "~", "operator=")):
            continue
        done.add((f["qn"], f["l"]))
        F = Fn(prog, f)
        rep.inst("pairing", "%s: %s" % (loc(f), f["qn"]))
        guards = [n for n in walk(f["body"]) if n["k"] == "var" and guard_type(n.get("t", ""))]
        for u in uses_t:
            if not any(F.order[id(g)] < F.order[id(u)] and F.inside(u, next(p for p in F.ancestors(g) if p["k"] == "blk")) for g in guards):
                rep.viol("pairing", f["qn"], loc(f, u), "%s gives access to the data without a lock" % f["qn"])
    f = [g for g in prog.fns("ad_utility::SpinLock::lock") if g.get("body")]
    u = [g for g in prog.fns("ad_utility::SpinLock::unlock") if g.get("body")]
    if f and u:
        rep.inst("pairing", "SpinLock")
        spins = [n for n in walk(f[0]["body"]) if n["k"] in ("while", "do", "for") and n.get("c") and any(c["k"] == "call" and short(c) in ("test_and_set", "exchange") for c in walk(n["c"]))]
        if not spins:
            rep.viol("pairing", "SpinLock lock", loc(f[0]), "SpinLock::lock does not wait until it has set the flag")
        if not any(c["k"] == "call" and short(c) in ("clear", "store") for c in walk(u[0]["body"])):
            rep.viol("pairing", "SpinLock unlock", loc(u[0]), "SpinLock::unlock does not clear the flag")


def live_calls(f, names):
    out = []

    def go(n):
        if n is None:
            return
        if n["k"] == "if":
            v = const_int(n["c"])
            if v is not None:
                go(n["x"] if v else n.get("y"))
                return
        if n["k"] == "call" and short(n) in names:
            out.append(short(n))
        for c in children(n):
            go(c)
    go(f["body"])
    return out


# ---------------------------------------------------------------- references that outlive the lock
def handle(prog, rep, L):
    for f, (name, sh, node, inside) in L.sites:
        rep.inst("handle", "%s: %s" % (loc(f, node), name))
        F = Fn(prog, f)
        guard = None
        for p in F.ancestors(node):
            if p["k"] == "var" and guard_type(p.get("t", "")):
                guard = p
                break
        if guard is not None:
            for st in inside:
                for n in walk(st):
                    if n["k"] == "ctor" and "LockPtr<" in n.get("t", "") and n["a"] and strip(n["a"][0]).get("id") == guard["id"]:
                        rep.viol("handle", "%s copy" % f["qn"], loc(f, n), "%s copies a lock handle; both copies will release %s" % (f["qn"], name))
        # result bound to a reference or pointer
        for p in F.ancestors(node):
            if p["k"] == "var" and p is not guard and guard is None and p.get("t", "").rstrip().endswith(("&", "*")) and not p["t"].startswith("const std::optional"):
                if deref_only(p["init"], node):
                    rep.viol("handle", "%s %s" % (f["qn"], p["n"]), loc(f, p), "%s keeps %s, a reference into %s, after the lock has been released" % (f["qn"], p["n"], name))
                break
            if p["k"] == "ret":
                if f.get("rt", "").rstrip().endswith(("&", "*")) and guard is None and deref_only(p["e"], node) and not in_lambda(F, node):
                    rep.viol("handle", "%s return" % f["qn"], loc(f, p), "%s returns a reference into %s and releases the lock" % (f["qn"], name))
                break
            if p["k"] in ("blk", "decl", "lambda"):
                break
        if guard is not None and not in_lambda(F, guard):
            if f.get("rt", "").rstrip().endswith(("&", "*")):
                for st in inside:
                    for r in walk(st):
                        if r["k"] == "ret" and r.get("e") is not None and any(x["k"] == "ref" and x.get("id") == guard["id"] for x in walk(r["e"])):
                            rep.viol("handle", "%s return" % f["qn"], loc(f, r), "%s returns a reference into %s and releases the lock" % (f["qn"], name))
            # stores through the guard into an outer reference / pointer
            for st in inside:
                for n in walk(st):
                    if n["k"] == "bin" and n["op"] == "=" and strip(n["x"])["k"] == "ref" and strip(n["x"]).get("t", "").rstrip().endswith("*"):
                        if any(x["k"] == "ref" and x.get("id") == guard["id"] for x in walk(n["y"])) and any(u["k"] == "un" and u["op"] == "&" for u in walk(n["y"])):
                            v = F.vars.get(strip(n["x"]).get("id"))
                            if v is not None and not any(F.inside(v, s) for s in inside):
                                rep.viol("handle", "%s %s" % (f["qn"], show(n["x"])), loc(f, n), "%s stores an address inside %s in %s, which outlives the lock" % (f["qn"], name, show(n["x"])))


def in_lambda(F, n):
    return any(p["k"] == "lambda" for p in F.ancestors(n))


def deref_only(e, node):
    """Is e a path through the locked object (not a value computed from it)?"""
    e = strip(e)
    while e is not None:
        if e is node:
            return True
        if e["k"] == "un" and e["op"] in ("&", "*"):
            e = strip(e["x"])
        elif e["k"] == "mem":
            e = strip(e["b"]) if e.get("b") else None
        elif e["k"] == "call" and e.get("op") in ("->", "*", "[]"):
            e = strip(e["a"][0])
        elif e["k"] == "call" and e.get("o") is not None and e.get("t", "").rstrip().endswith("&"):
            e = strip(e["o"])
        else:
            return False
    return False


# ---------------------------------------------------------------- check then act
def atomic(prog, rep, L):
    MUT = ("insert", "emplace", "erase", "clear", "push_back", "insertPinned", "operator[]", "try_emplace", "insert_or_assign", "pop_front", "decrease_if_enough_left", "increase")
    for k, regs in L.regions.items():
        f = prog.fn(k)
        names = {}
        for r in regs:
            names.setdefault(r[0], []).append(r)
        F = None
        for name, rs in names.items():
            rep.inst("atomic", "%s: %d acquisition(s) of %s" % (f["qn"], len(rs), name))
            if len(rs) < 2:
                continue
            F = F or Fn(prog, f)
            for a in rs:
                for b in rs:
                    # a first region that changes the data itself makes a reservation; that protocol is C02's
                    if a is b or not changes(b, MUT, F) or changes(a, MUT, F):
                        continue
                    # b is guarded by a condition that uses what was read under a
                    for c, pol, node in F.guards(b[2]):
                        if uses(c, a, F) and not any(b[2] is x for s in a[3] for x in walk(s)):
                            rep.viol("atomic", "%s %s" % (f["qn"], name), loc(f, b[2]),
                                     "%s changes %s depending on what it found there under an earlier lock (%s), which it has released in between" % (f["qn"], name, loc(f, a[2])))
                            break


def changes(r, MUT, F):
    for st in r[3] + [p for p in F.ancestors(r[2]) if p["k"] in ("call", "bin")][:3]:
        for n in walk(st):
            if n["k"] == "call" and (short(n) in MUT or n.get("op") in ("[]", "=")) and not n.get("cm") or n["k"] == "bin" and n["op"] == "=":
                return True
    return False


def uses(c, a, F):
    for n in walk(c):
        if n is a[2]:
            return True
        if n["k"] == "ref" and "id" in n:
            d = F.vars.get(n["id"])
            if d is not None and d.get("init") is not None and any(x is a[2] for x in walk(d["init"])) and not guard_type(d.get("t", "")):
                return True
            for y, node in F.assign.get(n["id"], []):
                if any(x is a[2] for x in walk(y)) or any(F.inside(node, s) for s in a[3]):
                    return True
    return False


if __name__ == "__main__":
    run("C09", check, level="other",
        explanation="Every acquisition of a mutex or of a Synchronized object is found with the code that runs while it is held; what that code may lock, compute or wait for is propagated through the call graph and gives a lock-order graph that must be free of cycles.",
        assumptions=["lock objects of the same type are not distinguished", "the size estimate of a tree that is part of a plan is memoised (the planner has asked for it)",
                     "calls through std::function and library callbacks other than lambdas written in place are not followed"])
