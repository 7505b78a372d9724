"""C05: query memory is charged to one budget before it is obtained and given back exactly."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from place import Fn
from cfg import Graph, Sim, canon, path_text
from cg import CallGraph, type_name
import rules, witness

ALLOC = "AllocatorWithLimit"
SIZES = {"unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "char": 1, "unsigned char": 1, "double": 8, "float": 4}


def check(prog, rep):
    rep.rule("charge", "memory is obtained only after exactly its size was taken from the budget; if it cannot be obtained the budget is restored", 1)
    rep.rule("give-back", "freed memory is given back to the budget exactly once and with its size", 1)
    rep.rule("pool", "the budget is reduced only if enough is left, otherwise an exception is raised; giving back adds exactly the amount", 2)
    rep.rule("locked", "the budget is read and changed under its lock only", 3)
    rep.rule("one-budget", "nothing that handles a query makes a budget of its own", 100)
    rep.rule("tables", "every table of a query is built on the limited allocator", 2)
    rep.rule("context", "the allocator of a new table comes from the query context, from another table or from a parameter", 5)
    rep.rule("limit", "the budget of the server is the configured number of gigabytes", 1)
    rep.rule("types", "tables and allocators cannot be made without a budget and keep it when copied, moved and swapped", 5)
    rep.rule("not-swallowed", "exceeding the budget ends the computation with an error", 1)
    cg = CallGraph(prog)
    al = [k for k in prog.records if not k.startswith("T:") and re.search(r"::%s<" % ALLOC, k)]
    if not al:
        raise AnalysisError("anchor vanished: class template %s" % ALLOC)
    pool = pool_class(prog, al)
    charge, refund = {}, {}
    fld = pool_methods(prog, rep, pool, charge, refund)
    for a in al:
        rep.part(allocator, prog, rep, cg, a, charge, refund)
    rep.part(locked, prog, rep, pool, fld)
    rep.part(budgets, prog, rep, cg, pool)
    rep.part(tables, prog, rep, cg)
    rep.part(limit, prog, rep, pool)
    rep.part(witness.check, rep, "types", "C05")
    rep.part(rules.swallow, prog, rep, cg, "not-swallowed", ["ad_utility::detail::AllocationExceedsLimitException"],
             "%s catches %s and goes on as if the memory had been there")


def pool_class(prog, al):
    for a in al:
        for f in prog.record(a)["fields"]:
            seen, st = set(), [f["t"]]
            while st:
                t = st.pop()
                m = re.search(r"Synchronized<([\w:]+)", t)
                if m:
                    for k in prog.records:
                        if k == m.group(1) or k.endswith("::" + m.group(1)):
                            return prog.record(k)
                t = type_name(t)
                r = prog.records.get(t)
                if r and t not in seen:
                    seen.add(t)
                    st += [x["t"] for x in r["fields"]]
    raise AnalysisError("anchor vanished: the allocator holds no synchronised budget")


def amount(e, fr, depth=0):
    """(coefficient, symbols) of a product."""
    e = strip(e)
    if depth > 12:
        return None
    c = const_int(e)
    if c is not None:
        return (c, ())
    if e["k"] == "ref" and "id" in e:
        o = fr.owner(e["id"])
        if e["id"] in o.binds:
            a, f2 = o.binds[e["id"]]
            return amount(a, f2, depth + 1)
        d = o.vars.get(e["id"])
        if d and d.get("init"):
            return amount(d["init"], o, depth + 1)
        return (1, (e["n"],))
    if e["k"] == "bin" and e["op"] == "*":
        a, b = amount(e["x"], fr, depth + 1), amount(e["y"], fr, depth + 1)
        return (a[0] * b[0], tuple(sorted(a[1] + b[1]))) if a and b else None
    if e["k"] == "bin" and e["op"] == "<<":
        a, b = amount(e["x"], fr, depth + 1), amount(e["y"], fr, depth + 1)
        return (a[0] << b[0], a[1]) if a and b and not b[1] else None
    return (1, (show(e),))


# ------------------------------------------------------------------ the pool
def pool_methods(prog, rep, R, charge, refund):
    ints = [f["n"] for f in R["fields"] if re.search(r"long|int|size_t", f["t"])]
    if not ints:
        raise AnalysisError("anchor vanished: %s counts nothing" % R["key"])
    fld = ints[0]
    for m in R["methods"]:
        f = prog.fn(m["fk"])
        if not f or not f.get("body") or f.get("ctor"):
            continue
        subs = [n for n in walk(f["body"]) if writes(n, fld) == "-"]
        adds = [n for n in walk(f["body"]) if writes(n, fld) == "+"]
        sets = [n for n in walk(f["body"]) if writes(n, fld) == "="]
        if not (subs or adds or sets):
            continue
        if not f["params"]:
            raise AnalysisError("%s changes the budget without an amount" % f["qn"])
        pid = f["params"][0]["id"]
        rep.inst("pool", "%s changes %s" % (f["qn"], fld))
        if sets:
            rep.viol("pool", f["n"] + " set", loc(f, sets[0]), "%s overwrites the number of free bytes" % f["qn"])
        for n in subs + adds:
            y = delta(n, fld)
            if not (strip(y)["k"] == "ref" and strip(y).get("id") == pid):
                rep.viol("pool", f["n"] + " amount", loc(f, n), "%s changes the number of free bytes by %s instead of the given amount" % (f["qn"], show(y)))
        F = Fn(prog, f)
        g = Graph(prog, f, inline=lambda h, c, fr: h.get("cls") == R["key"])

        def step(nd, s):
            if nd.kind == "ev" and nd.n["k"] in ("bin", "call"):
                w = writes(nd.n, fld)
                if w == "-":
                    if s[0] != "enough":
                        rep.viol("pool", f["n"] + " untested", nd.loc(), "%s reduces the budget without having tested that enough is left: the number of "
                                 "free bytes wraps around and the limit is gone" % f["qn"])
                    return [(s[0], s[1] + 1 if s[1] < 2 else 2)]
                if w == "+":
                    return [(s[0], s[1] + 1 if s[1] < 2 else 2)]
            return [s]

        def refine(nd, lab, s):
            if nd.kind == "br":
                c = strip(nd.n)
                if c["k"] == "ref" and "id" in c and F.single(c["id"]) is not None:
                    c = F.single(c["id"])
                t = cmp_free(c, pid, fld)
                if t is not None:
                    return ("enough" if t == lab else "short", s[1])
            return s
        sim = Sim(g, ("?", 0), step, None, lambda nd: nd.n["k"] == "throw", refine=refine)
        for s, env in sorted(sim.at.get(g.exit.i, ()), key=str):
            if s[1] != 1:
                rep.viol("pool", f["n"] + " count %d" % s[1], loc(f), "%s returns after changing the budget %s; path: %s" %
                         (f["qn"], "not at all" if s[1] == 0 else "more than once", path_text(sim.witness(g.exit, s))))
        for s, env in sim.at.get(g.xexit.i, ()):
            if s[1]:
                rep.viol("pool", f["n"] + " changed and thrown", loc(f), "%s raises an exception after changing the budget" % f["qn"])
        (charge if subs else refund)[f["key"]] = f
    if not charge or not refund:
        raise AnalysisError("anchor vanished: %s has no function that takes from or gives back to the budget" % R["key"])
    return fld


def writes(n, fld):
    """'-', '+' or '=' if node n changes field fld."""
    if n["k"] != "bin":
        return None
    x = strip(n["x"])
    if x["k"] != "mem" or x["n"] != fld:
        return None
    if n["op"] in ("-=", "+="):
        return n["op"][0]
    if n["op"] == "=":
        y = strip(n["y"])
        if y["k"] == "bin" and y["op"] in ("+", "-") and strip(y["x"]).get("n") == fld:
            return y["op"]
        return "="
    return None


def delta(n, fld):
    return n["y"] if n["op"] in ("-=", "+=") else strip(n["y"])["y"]


def cmp_free(e, pid, fld):
    """Label under which the branch means 'amount <= free' (None: another condition)."""
    e, neg = strip(e), False
    while e["k"] == "un" and e["op"] == "!":
        e, neg = strip(e["x"]), not neg
    if e["k"] != "bin" or e["op"] not in ("<", "<=", ">", ">="):
        return None
    x, y = strip(e["x"]), strip(e["y"])
    op = e["op"]
    if x["k"] == "mem" and x["n"] == fld and y.get("id") == pid:
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
    elif not (x.get("id") == pid and y["k"] == "mem" and y["n"] == fld):
        return None
    # amount op free
    if op in ("<=", "<"):
        return not neg
    if op == ">":
        return neg
    return None if op == ">=" else None


# ------------------------------------------------------------------ the allocator
def allocator(prog, rep, cg, cls, charge, refund):
    elem = re.search(r"%s<(.*)>$" % ALLOC, cls).group(1)
    size = SIZES.get(elem)

    def bytes_of(e, fr, fk):
        a = amount(e["a"][-1] if short(e) != "deallocate" else e["a"][1], fr)
        if re.search(r"(std::)?allocator", e.get("fn", "")) and a and size:
            return (a[0] * size, a[1])
        return a

    for m in prog.record(cls)["methods"]:
        f = prog.fn(m["fk"])
        if not f or not f.get("body"):
            continue
        gets = [n for n in walk(f["body"]) if is_get(n)]
        frees = [n for n in walk(f["body"]) if is_free(n)]
        if not gets and not frees and m["n"] not in ("allocate", "deallocate"):
            continue
        g = Graph(prog, f, inline=lambda h, c, fr: h.get("cls") == cls and h["key"] != f["key"])

        def step(nd, s):
            e = nd.n
            net, got = s
            if nd.kind == "ev" and e["k"] == "call":
                if e.get("fk") in charge or e.get("fk") in refund:
                    a = amount(e["a"][0], nd.fr)
                    sign = 1 if e.get("fk") in charge else -1
                    return [(plus(net, a, sign), got)]
                if is_get(e):
                    b = bytes_of(e, nd.fr, e.get("fk"))
                    if m["n"] == "allocate" and net != ((b, 1),):
                        rep.viol("charge", "order", nd.loc(), "%s obtains %s bytes when %s was taken from the budget" % (f["qn"], txt(b), net_txt(net)))
                    return [(net, got + ((b, 1),))]
                if is_free(e):
                    b = bytes_of(e, nd.fr, e.get("fk"))
                    return [(net, got + ((b, -1),))]
            return [s]

        def throws(nd):
            e = nd.n
            return e["k"] == "throw" or e["k"] == "call" and (e.get("fk") in charge or is_get(e))
        sim = Sim(g, ((), ()), step, None, throws)
        rule = "charge" if m["n"] == "allocate" or gets else "give-back"
        rep.inst(rule, f["key"])
        for s, env in sorted(sim.at.get(g.exit.i, ()), key=str):
            net, got = s
            if norm(net) != norm(got):
                rep.viol(rule, "%s amount" % f["n"], loc(f), "%s returns having changed the budget by %s while the memory in use changed by %s; path: %s" %
                         (f["qn"], net_txt(net), net_txt(got), path_text(sim.witness(g.exit, s))))
        for s, env in sorted(sim.at.get(g.xexit.i, ()), key=str):
            net, got = s
            if norm(net) != norm(got):
                rep.viol(rule, "%s failure" % f["n"], loc(f), "%s is left by an exception with %s taken from the budget but %s obtained: the budget shrinks for ever; "
                         "path: %s" % (f["qn"], net_txt(net), net_txt(got), path_text(sim.witness(g.xexit, s))))


def is_get(n):
    return n["k"] == "call" and (short(n) == "allocate" and "allocator" in n.get("fn", "") and ALLOC not in n.get("fn", "") or
                                 n.get("fn") in ("malloc", "operator new", "std::malloc"))


def is_free(n):
    return n["k"] == "call" and (short(n) == "deallocate" and "allocator" in n.get("fn", "") and ALLOC not in n.get("fn", "") or
                                 n.get("fn") in ("free", "operator delete", "std::free"))


def plus(net, a, sign):
    d = dict(net)
    d[a] = d.get(a, 0) + sign
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=str))


def norm(net):
    d = {}
    for (k, v) in net:
        d[k] = d.get(k, 0) + v
    return {k: v for k, v in d.items() if v}


def txt(a):
    return "an unknown number of" if a is None else " * ".join(([str(a[0])] if a[0] != 1 or not a[1] else []) + list(a[1]))


def net_txt(net):
    return " + ".join("%s(%s)" % ("" if v == 1 else "%d * " % v, txt(k)) for k, v in norm(net).items()) or "nothing"


def locked(prog, rep, R, fld):
    """The methods of the budget are called only through the pointer a lock hands out."""
    keys = {m["fk"] for m in R["methods"]}
    for k in prog.all_keys():
        if R["key"].split("::")[-1].encode() not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        if f.get("cls") == R["key"] or not f.get("body"):
            continue
        for n in walk(f["body"]):
            if n["k"] == "call" and n.get("fk") in keys:
                rep.inst("locked", "%s: %s at %s" % (f["qn"], show(n), loc(f, n)))
                locks = [x for x in walk(n.get("o") or {"k": "nop"}) if x["k"] == "call" and short(x) in ("wlock", "rlock", "withWriteLock")]
                refs = [x for x in walk(n.get("o") or {"k": "nop"}) if x["k"] == "ref" and "LockPtr" in x.get("t", "")]
                inlam = "withWriteLock" in str(prog.raw["F"][k])
                if not locks and not refs and not inlam:
                    rep.viol("locked", "%s %s" % (f["qn"], short(n)), loc(f, n), "%s uses the shared budget without holding its lock" % f["qn"])


def budgets(prog, rep, cg, R):
    """Functions that make a budget are not reachable from the handling of a query."""
    ctor = R["key"] + "::"
    makers = set()
    for k in prog.all_keys():
        if R["key"].split("::")[-1].encode() not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] in ("ctor", "new") and type_name(n.get("t", "")) == R["key"] and not n.get("cm2") or \
                        n["k"] == "call" and n.get("fn") in ("std::make_shared", "std::make_unique") and R["key"] in str(n.get("t", "")):
                    makers.add(k)
    if not makers:
        raise AnalysisError("anchor vanished: nothing makes a budget")
    virt = [m["fk"] for m in prog.record("Operation")["methods"] if m["n"] == "computeResult"][0]
    roots = prog.overriders(virt) + [f["key"] for f in prog.fns("Server::process")] + [f["key"] for f in prog.fns("Operation::getResult")]
    seen = cg.reach(roots)
    for k in sorted(seen):
        rep.inst("one-budget", k)
        if k in makers:
            ch = cg.chain(seen, k)
            rep.viol("one-budget", ch[-2] if len(ch) > 1 else ch[-1], loc(prog.fn(seen[k][0]), seen[k][1]) if seen[k] else k,
                     "a budget of its own is made while a query is handled (%s): memory charged to it does not count for the limit of the server" % " -> ".join(ch[-4:]))


def tables(prog, rep, cg):
    for k in sorted(prog.records):
        if k.startswith("T:") or not re.match(r"(detail::)?IdTable(Templated|VectorWrapper|Impl)<", k):
            continue
        rep.inst("tables", k)
        if ALLOC not in k:
            rep.viol("tables", k, prog.record(k)["file"], "tables of type %s do not use the limited allocator" % k)
    # allocators handed to tables
    virt = [m["fk"] for m in prog.record("Operation")["methods"] if m["n"] == "computeResult"][0]
    seen = cg.reach(prog.overriders(virt) + [f["key"] for f in prog.fns("Operation::getResult")])
    for k in sorted(seen):
        f = prog.fn(k)
        if not f or not f["file"].startswith("src/"):
            continue
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] != "ctor" or n.get("cm2"):
                    continue
                if not re.match(r"(const )?((detail::)?IdTableTemplated<|ResultTable$|CacheValue$|IdTable$)", n.get("t", "")):
                    continue
                for a in n["a"]:
                    s = strip(a)
                    if ALLOC not in s.get("t", "") or "IdTable" in s.get("t", ""):
                        continue
                    rep.inst("context", "%s: %s at %s" % (f["qn"], show(n), loc(f, n)))
                    if s["k"] == "ctor" or s["k"] == "call" and short(s) not in ("getAllocator", "get_allocator") and "move" not in short(s):
                        rep.viol("context", "%s %s" % (f["qn"], show(s)[:40]), loc(f, n), "%s builds a table on an allocator made on the spot (%s) instead of the one of the query" %
                                 (f["qn"], show(s)))


def limit(prog, rep, R):
    for f in prog.fns("Server::Server"):
        for i in f.get("inits", []):
            if not i.get("e") or ALLOC not in str((i["e"] or {}).get("t", "")):
                continue
            mk = [n for n in walk(i["e"]) if n["k"] == "call" and n["a"] and "emory" in short(n)]
            for n in mk:
                from cfg import Frame
                a = amount(n["a"][0], Frame(f))
                rep.inst("limit", "budget of the server: %s" % txt(a))
                if not a or a[0] != 1 << 30 or len(a[1]) != 1 or not re.search(r"mem", a[1][0], re.I):
                    rep.viol("limit", "server", loc(f, n), "the budget of the server is %s, not the configured number of gigabytes" % txt(a))


run("C05", check, explanation="Typestate simulation of the allocator and the budget over control-flow graphs with exception edges, symbolic comparison of charged and "
    "obtained amounts, call-graph reachability of budget constructors, and compile-time witnesses on the table types.")
