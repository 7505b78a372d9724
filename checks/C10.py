"""C10: a result, once shared through the cache, is never modified."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from cg import CallGraph
from effects import Effects, Body, text, norm, pointee, bare, PTR
import witness
import importlib.util


def result_class(prog):
    """The class of the tables operations compute: what Operation::computeResult is given."""
    ts = {pointee(f["params"][0]["t"]) for f in prog.all_fns() if f["n"] == "computeResult" and f.get("params") and f.get("cls") and prog.bases(f["cls"])}
    ts = {t for t in ts if t in prog.records}
    if len(ts) != 1:
        raise AnalysisError("the class of computed results is not unique: %s" % sorted(ts))
    return ts.pop()


def check(prog, rep):
    rep.rule("input", "an operation changes nothing in the results of its inputs", 19)
    rep.rule("stored", "what is stored in the cache is changed by nobody, also not by the operation that computed it, once it is stored", 3)
    rep.rule("strings", "the strings of a result are changed only by the operation that created them, not by one that shares them with its input", 19)
    rep.rule("mutable", "no part of a result can be changed while the result itself is constant", 4)
    rep.rule("view", "tables cannot be written through views and constant tables (compile-time)", 8)
    rep.part(witness.check, rep, "view", "C10")
    R = result_class(prog)
    cg = CallGraph(prog)
    E = Effects(prog, cg)
    ops = [f for f in prog.all_fns() if f["n"] == "computeResult" and f.get("params") and pointee(f["params"][0]["t"]) == R and f.get("body") and not f["key"].startswith("T:")]
    servers = [f["key"] for f in prog.fns("Server::process")] or [f["key"] for f in prog.all_fns() if f.get("cls") == "Server"]
    if not servers:
        raise AnalysisError("no request handling found")
    keys = E.analyse(servers + [f["key"] for f in ops])
    # the class that is stored in the cache: holds a pointer to a result
    holders = {}
    for k, r in prog.records.items():
        for f in r["fields"]:
            if PTR.match(f["t"].strip()) and pointee(f["t"]) == R and not k.startswith("T:"):
                holders["%s::%s" % (k, f["n"])] = k
    stored = {k for k in holders.values() if any("ConcurrentCache<" in q and re.search(r"\b%s\b" % re.escape(k), q) for q in prog.records)}
    if not stored:
        raise AnalysisError("no class that is stored in the cache and holds a result found")
    rn = norm(R)
    sn = {norm(k) for k in stored}
    parts = set()       # classes that are part of a result
    for k in list(stored) + [R]:
        parts.add(k)
    # all effects on results that are reached other than through the parameter of the operation
    done = set()

    def report(place, where, what, who):
        root, path = place
        if root[0] != "t":
            return
        if root[1] == rn:
            if root[2].startswith("local:") and holders.get(root[2][6:]) in stored:
                return      # the result that is being computed, not yet stored
            if root[2] == "?":
                return
            if (where, what) in done:
                return
            done.add((where, what))
            rep.viol("input", "%s:%s" % (who["qn"].split("<")[0], text(place)), where, f"{text(place)} of a result that other queries may share is changed: {what}")
        elif root[1] in sn and not root[2].startswith("local:"):
            if (where, what) in done:
                return
            done.add((where, what))
            rep.viol("stored", "%s:%s" % (who["qn"].split("<")[0], text(place)), where, f"{text(place)} of a value that is stored in the cache is changed: {what}")
    for f in ops:
        rep.inst("input", "%s %s" % (loc(f), f["qn"]))
        for pl, (w, txt) in sorted(E.eff[f["key"]].items(), key=str):
            report(pl, w, txt, f)
    for k in servers:
        f = prog.fn(k)
        rep.inst("stored", "%s %s" % (loc(f), f["qn"]))
        for pl, (w, txt) in sorted(E.eff[k].items(), key=str):
            report(pl, w, txt, f)
    for k in sorted(stored):
        rep.inst("stored", k)
    for k in keys:
        f = prog.fn(k)
        if f.get("cls") and "ConcurrentCache<" in f["cls"] and f["n"].startswith("compute"):
            rep.inst("stored", f["qn"])
    # a result or its holder must not be reachable for writing from an operation after the computation
    for k in keys:
        f = prog.fn(k)
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] == "cast" and n.get("st") == "const":
                    src, dst = strip(n["e"]).get("t", ""), n.get("t", "")
                    if norm(dst) in {rn} | sn | part_names(prog, R) and re.match(r"^const\b", pointee_const(src)) and f.get("cls") not in part_keys(prog, R):
                        rep.viol("input", "%s:const_cast" % f["qn"].split("<")[0], loc(f, n), f"the constness of a result is cast away: {show(n)}")
    # strings
    ptrs = ["%s::%s" % (R, x["n"]) for x in prog.records[R]["fields"] if PTR.match(x["t"].strip()) and "optional<" not in x["t"]]
    for f in ops:
        rep.inst("strings", "%s %s" % (loc(f), f["qn"]))
        for p in ptrs:
            shared = [(w, t) for (root, path), (w, t) in E.eff[f["key"]].items() if root == ("p", 0) and path == ("*", p)]
            changed = [(w, t) for (root, path), (w, t) in E.eff[f["key"]].items() if root == ("p", 0) and path[:3] == ("*", p, "*")]
            if shared and changed and not all(fresh(prog, keys, R, p, w) for w, _ in shared):
                rep.viol("strings", "%s:%s" % (f["cls"], p.rsplit("::", 1)[-1]), changed[0][0],
                         f"{f['cls']} adds to {p.rsplit('::', 1)[-1]} ({changed[0][1]}), which it may share with its input ({shared[0][0]}: {shared[0][1]})")
    # mutable parts
    seen, todo = set(), [R] + sorted(stored)
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.records:
            continue
        seen.add(k)
        for x in prog.records[k]["fields"]:
            rep.inst("mutable", "%s::%s" % (k.split("<")[0], x["n"]))
            if x.get("mut"):
                rep.viol("mutable", "%s::%s" % (k.split("<")[0], x["n"]), "%s:%d" % (prog.records[k]["file"], x["l"]), f"{k.split('<')[0]}::{x['n']} can be changed although the result is constant")
            t = bare(x["t"])
            todo += [q for q in prog.records if norm(q) == norm(t)]
        todo += prog.records[k]["bases"]


def pointee_const(t):
    return re.sub(r"^(std::)?(shared_ptr|unique_ptr)<", "", t.strip())


def part_keys(prog, R):
    out, todo = set(), [R]
    while todo:
        k = todo.pop()
        if k in out or k not in prog.records:
            continue
        out.add(k)
        for x in prog.records[k]["fields"]:
            t = norm(x["t"])
            todo += [q for q in prog.records if norm(q) == t]
        todo += prog.records[k]["bases"]
    return out


def part_names(prog, R):
    return {norm(k) for k in part_keys(prog, R)}


def fresh(prog, keys, R, p, where):
    """Is the pointer assigned at this place one to a new object?"""
    file, line = where.rsplit(":", 1)
    for k in keys:
        f = prog.fn(k)
        if f["file"] != file or not f.get("body"):
            continue
        for n in walk(f["body"]):
            if n.get("l") == int(line) and n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0]).get("f") == p:
                y = strip(n["a"][1])
                return y["k"] == "call" and y.get("fn", "").startswith("std::make_shared") and not any(strip(a).get("k") == "mem" for a in y["a"] if False)
    return False


run("C10", check, level="checked-over-all-paths", explanation="Interprocedural write-effect analysis of every operation and of request handling: every write is traced back through aliases, calls, "
    "returned pointers and casts to the object it changes; results reached other than through the table being computed must not be among them. Views of tables are decided by the compiler.")
