"""C01: the text an operation is cached under determines its result."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from flow import Flow, Val, EXACT, LOSSY, COL, SIZE

QET = "QueryExecutionTree"
VARMAPS = {"getVariableColumns"}


def is_tree(e):
    t = ""
    if e is not None:
        t = e.get("t", "")
    return QET in t


def special(flow, call, env, consume):
    if call["k"] != "call":
        return None
    fn = call.get("fn", "")
    name = short(call)
    if fn.startswith("QueryExecutionTree::"):
        ov = flow.ev(call.get("o"), env, False)
        if name == "asString":
            flow.key_children.update(ov.al)
            return Val((), {p: EXACT for p in ov.al})
        flow.log(ov, call)
        if name in VARMAPS:
            return Val((), {p: EXACT for p in ov.al}, "varmap")
        if name == "getVariableColumn":
            kv = flow.ev(call["a"][0], env, False)
            return flow.colval(kv, call)
        if name == "getResult":
            return Val((), {p: LOSSY for p in ov.al}, "result")
        if name == "getRootOperation":
            return ov
        return Val((), {p: LOSSY for p in ov.al})
    return None


def skip_call(call):
    fn = call.get("fn", "")
    t = call.get("t", "")
    if fn.startswith(("RuntimeInformation", "ad_semsearch::Exception")) or "RuntimeInformation" in t:
        return True
    if fn.rsplit("::", 1)[-1] == "getDescriptor":
        return True
    return False


class OpFlow(Flow):
    def __init__(self, prog, cls, mode=None):
        super().__init__(prog, mode, skip_call, special)
        self.cls = cls
        self.key_children = set()

    def generic_call(self, e, ov, av, args, env, obj):
        # virtual calls on this stay within the class under analysis
        if e.get("virt") and not e.get("qual") and () in ov.al:
            t = self.prog.method(self.cls, short(e))
            if t and len(ov.al) == 1:
                return self.call_fn(t[0], ov, av, env)
        return super().generic_call(e, ov, av, args, env, obj)


# Fields that the result reads but that other printed parts determine.
DETERMINED = {
    ("GroupBy", ("_aliases", "*", "_isAggregate")):
        "the constructor keeps aggregate aliases only, so it is always true",
    ("GroupBy", ("_groupByVariables", "*", COL)):
        "the input is sorted by the group columns first (see C06), so the key of the input and the number of "
        "group columns determine them",
    ("TransitivePath", ("_resultWidth",)): "two plus the width of the bound side minus one, all printed",
    ("Bind", ("_bind", "_expressionVariant", "<Constant>", "_intValue")):
        "both constructors of Constant make _kbValue the text of the value",
    ("Bind", ("_bind", "_expressionVariant", "<Constant>", "_type")):
        "a KB constant is an IRI or a quoted literal, a VERBATIM one a plain number",
}
INFEASIBLE = [
    ("Filter", {("_type",): "PREFIX", ("_regexIgnoreCase",): "true"},
     "the parser makes a PREFIX filter only of a case-sensitive regex and the planner sets the flag for REGEX only"),
    ("OptionalJoin", {("_leftOptional",): "true"},
     "the planner joins the plan built so far, which is never optional, with the next graph pattern"),
    ("OptionalJoin", {("_rightOptional",): "false"},
     "the planner makes an OptionalJoin only if one side is optional, and the left one never is"),
]
SAME_OPERATION = [{"Sort", "OrderBy"}]   # equal text on purpose: both give the same table


def fmt(p):
    return ".".join(p).replace(".*", "[*]").replace("." + COL, "'s column").replace("." + SIZE, "'s size") \
        .replace(".#", "#")


def covers(k, p):
    """Does printing path k determine the value at path p?"""
    if len(k) > len(p):
        return False
    for a, b in zip(k, p):
        if a != b and not (a == "*" and b.startswith("#") and b[1:].isdigit()):
            return False
    rest = p[len(k):]
    return COL not in rest


def covered(p, K, looped=()):
    if p[-1] == SIZE and p[:-1] in looped:
        return True
    exact = [k for k, q in K.items() if q == EXACT]
    if any(covers(k, p) for k in exact):
        return True
    base = p[:-1] if p[-1] == SIZE else p
    # a container all of whose elements are printed
    if any(len(k) > len(base) and covers(k[:len(base)], base) and k[len(base)] == "*" and k[:len(base)] == base
           for k in exact):
        return True
    # which alternative of a variant is active
    if p[-1].startswith("<") and any(k[:len(p) - 1] == p[:-1] for k in exact):
        return True
    return False


def partial(k, K, D, p):
    """Is path k rendered only under a condition that says nothing about p being read?
    Returns the offending condition's paths."""
    em = K.emitted.get(k)
    if not em:
        return None
    rest = set()
    for guards in em:
        g = []
        for ident, pol, _, tests in guards:
            foreign = set()
            for t in tests:
                if t and not any(b and (k[:len(q)] == q or q[:len(k)] == k) for q, b in t):
                    foreign |= {q for q, _ in t}
            if foreign and not foreign <= D.read_guards.get(p, set()):
                g.append((ident, pol, frozenset(foreign)))
        if not g:
            return None
        rest.add(tuple(g))
    # both branches of one condition
    for g in rest:
        if len(g) == 1 and any(len(h) == 1 and h[0][0] == g[0][0] and h[0][1] != g[0][1] for h in rest):
            return None
    g = sorted(rest, key=str)[0]
    return sorted(set().union(*[x[2] for x in g]))


def mode_fields(prog, cls, comp, D):
    """Finite-valued fields of the operation: [(path, {name: value})]"""
    res = []
    for f in prog.record(cls)["fields"]:
        t = f["t"].replace("const ", "")
        p = (f["n"],)
        if not any(r[:1] == p for r in D):
            continue
        e = prog.enums.get(t)
        if e:
            res.append((p, dict(e["e"])))
        elif t == "bool":
            res.append((p, {"false": 0, "true": 1}))
        elif t.startswith("std::vector<") or t.startswith("vector<"):
            # an enum inside the elements: one case per value, the same for all elements
            el = prog.records.get(t[t.index("<") + 1:].rstrip(">").split(",")[0].strip())
            for ef in (el or {}).get("fields", []):
                ee = prog.enums.get(ef["t"])
                q = (f["n"], "*", ef["n"])
                if ee and q in D:
                    res.append((q, dict(ee["e"])))
        elif "QueryExecutionTree" in t and "shared_ptr" in t and "[" not in t and "vector" not in t:
            probe = OpFlow(prog, cls, {p: 1})
            probe.run(comp)
            if p in probe.consulted:
                res.append((p, {"null": 0, "set": 1}))
    return res


def runs(prog, cls, comp, key, mode):
    D = OpFlow(prog, cls, mode)
    D.run(comp)
    K = OpFlow(prog, cls, mode)
    K.guard_contexts = True
    v = K.run(key)
    return D, K, v


def header(lits):
    for l in lits:
        if isinstance(l, str) and l.strip() and l not in ("32", "10"):
            return l.strip()
    return ""


def check(prog, rep):
    rep.rule("key-covers", "every part of an operation's state that computing its result reads is rendered in asString()", 120)
    rep.rule("key-modes", "two values of a flag or type field that change the computation give different key texts", 25)
    rep.rule("key-loops", "asString() renders all elements of the lists it loops over", 8)
    rep.rule("key-separated", "two numbers are not printed next to each other without separator", 19)
    rep.rule("key-distinct", "different operations start their key with different words", 19)
    rep.rule("key-used", "results are stored and looked up only under asString() of the operation computed", 3)
    rep.rule("key-fresh", "the memoised text of a tree is dropped whenever its operation is replaced or changed", 2)
    rep.rule("tree-key", "the text of a tree contains its root operation's text", 1)
    ops = [c for c in prog.subclasses("Operation") if prog.method(c, "computeResult", False)]
    heads = {}
    for cls in ops:
        comp = prog.method(cls, "computeResult", False)[0]
        ks = prog.method(cls, "asString")
        if not ks:
            raise AnalysisError("%s has no asString" % cls)
        key = ks[0]
        D0, K0, v0 = runs(prog, cls, comp, key, None)
        fields = mode_fields(prog, cls, comp, D0.reads)
        # --- loops of the key
        for fn, node, path, full, why in K0.loops:
            rep.inst("key-loops", "%s: loop over %s at %s:%d" % (cls, fmt(path), fn["file"], node["l"]))
            if not full:
                rep.viol("key-loops", "%s %s" % (cls, fmt(path)), "%s:%d" % (fn["file"], node["l"]),
                         "the key of %s lists only part of %s (%s)" % (cls, fmt(path), why))
        looped = {l[2] for l in K0.loops if l[3]}
        # --- headers
        heads[cls] = (header(K0.lits), key)
        # --- per mode
        names = [list(vals) for _, vals in fields]
        combos = list(itertools.product(*names)) if fields else [()]
        if len(combos) > 400:
            raise AnalysisError("%s: %d combinations of flags" % (cls, len(combos)))
        table = {}
        for combo in combos:
            mode = {p: vals[n] for (p, vals), n in zip(fields, combo)}
            D, K, v = runs(prog, cls, comp, key, mode)
            for (p, vals), n in zip(fields, combo):
                if n == "null":   # an unset child contributes nothing
                    D.reads = {r: l for r, l in D.reads.items() if r[:len(p)] != p}
            if any(c == cls and all(dict(zip((f for f, _ in fields), combo)).get(f) == n for f, n in m.items())
                   for c, m, _ in INFEASIBLE):
                continue
            table[combo] = (D, tuple(K.lits), {p for p, q in v.fl.items() if q == EXACT})
            mtxt = ", ".join("%s=%s" % (fmt(p), n) for (p, _), n in zip(fields, combo))
            for p, where in sorted(D.reads.items()):
                if any(p == f for f, _ in fields):
                    continue
                if (cls, p) in DETERMINED:
                    rep.inst("key-covers", "%s: %s (%s)" % (cls, fmt(p), DETERMINED[cls, p]))
                    continue
                rep.inst("key-covers", "%s [%s]: %s read at %s" % (cls, mtxt, fmt(p), where[0]))
                if not covered(p, v.fl, looped):
                    q = [x for x in v.fl if covers(x, p)]
                    rep.viol("key-covers", "%s %s" % (cls, fmt(p)), where[0],
                             "%s::computeResult reads %s but %s::asString (%s)%s does not render it%s: two queries that "
                             "differ only in it share one cache entry" %
                             (cls, fmt(p), cls, loc(key), " with " + mtxt if mtxt else "", " exactly" if q else ""))
                else:
                    ks = [k for k, q in v.fl.items() if q == EXACT and covers(k, p)]
                    bad = [partial(k, K, D, p) for k in ks]
                    if ks and all(b is not None for b in bad):
                        rep.viol("key-covers", "%s %s" % (cls, fmt(p)), where[0],
                                 "%s::computeResult reads %s but %s::asString (%s)%s renders it only under a condition on %s: "
                                 "two queries that differ only in it share one cache entry" %
                                 (cls, fmt(p), cls, loc(key), " with " + mtxt if mtxt else "", fmt(bad[0][0])))
            # adjacency
            prev = None
            for l in K.lits:
                if isinstance(l, tuple) and l:
                    num = any(x[-1] == COL or is_num(K, x) for x in l)
                    if num and prev:
                        rep.viol("key-separated", "%s %s" % (cls, fmt(l[0])), loc(key),
                                 "%s::asString prints %s directly after %s, so different pairs of numbers give the same text"
                                 % (cls, fmt(l[0]), fmt(prev[0])))
                    prev = l if num else None
                else:
                    prev = None if l != "" else prev
        rep.inst("key-separated", "%s: %d printed parts" % (cls, len(K0.lits)))
        # --- modes give different texts
        for i, (p, vals) in enumerate(fields):
            for combo in combos:
                for n2 in vals:
                    if vals[n2] <= vals[combo[i]]:
                        continue
                    if combo not in table or combo[:i] + (n2,) + combo[i + 1:] not in table:
                        continue
                    other = combo[:i] + (n2,) + combo[i + 1:]
                    d1, t1, k1 = table[combo]
                    d2, t2, k2 = table[other]
                    used = p in d1.consulted or p in d2.consulted or p in d1.reads or p in d2.reads
                    if not used or set(d1.reads) == set(d2.reads) and d1.visited == d2.visited and \
                            p not in d1.consulted and p not in d1.reads:
                        continue
                    rest = ", ".join("%s=%s" % (fmt(f), n) for j, ((f, _), n) in enumerate(zip(fields, combo)) if j != i)
                    rep.inst("key-modes", "%s: %s=%s / %s=%s%s" % (cls, fmt(p), combo[i], fmt(p), n2, " with " + rest if rest else ""))
                    if t1 == t2 and not (p in k1 and p in k2):
                        rep.viol("key-modes", "%s %s" % (cls, fmt(p)) if vals.keys() <= {"false", "true", "null", "set"}
                                 else "%s %s=%s/%s" % (cls, fmt(p), combo[i], n2), loc(key),
                                 "%s::asString gives the same text for %s=%s and %s=%s%s although computeResult depends on it"
                                 % (cls, fmt(p), combo[i], fmt(p), n2, " (with %s)" % rest if rest else ""))
    for a, b in itertools.combinations(sorted(heads), 2):
        if any({a, b} <= g for g in SAME_OPERATION):
            continue
        if heads[a][0] == heads[b][0]:
            rep.viol("key-distinct", "%s %s" % (a, b), loc(heads[a][1]),
                     "%s::asString and %s::asString both start with %r" % (a, b, heads[a][0]))
    for a in heads:
        rep.inst("key-distinct", "%s: %s" % (a, heads[a][0]))
        if not heads[a][0]:
            rep.viol("key-distinct", a, loc(heads[a][1]), "%s::asString has no leading word" % a)
    check_use(prog, rep)
    check_memo(prog, rep)


def is_num(K, p):
    t = K.ptype.get(p, "").replace("const ", "").rstrip(" &")
    return t in ("size_t", "unsigned long", "int", "long", "unsigned int", "Id", "uint64_t", "int64_t") or "value_type" in t


# ---------------------------------------------------------------- use of the key
CACHE_BY_KEY = {"computeOnce", "computeOncePinned", "resultAt", "cacheContains", "containsFinished"}


def is_own_text(e, fn, env=None, depth=0):
    """Is e the value of asString() called on this / its root operation?"""
    e = strip(e)
    while e["k"] == "ctor" and len(e["a"]) >= 1 and all(x["k"] == "defarg" for x in e["a"][1:]):
        e = strip(e["a"][0])
    if e["k"] == "call" and short(e) == "asString":
        return all(x["k"] == "defarg" for x in e["a"])
    if e["k"] == "ref" and "id" in e and depth < 4:
        decl, writes = None, 0
        for n in walk(fn["body"]):
            if n["k"] == "decl":
                for d in n["d"]:
                    if d["id"] == e["id"]:
                        decl = d.get("init")
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") \
                    and strip(n["x"]).get("id") == e["id"]:
                writes += 1
            if n["k"] == "call" and not n.get("cm") and n.get("o") and strip(n["o"]).get("id") == e["id"]:
                writes += 1
            if n["k"] == "call" and n.get("op") in ("=", "+=") and strip(n["a"][0]).get("id") == e["id"]:
                writes += 1
        return decl is not None and writes == 0 and is_own_text(decl, fn, env, depth + 1)
    return False


def check_use(prog, rep):
    for fn in prog.all_fns():
        if not fn.get("body") or not fn["file"].startswith("src/engine/"):
            continue
        for c in walk(fn["body"]):
            if c["k"] != "call":
                continue
            name = short(c)
            if name in CACHE_BY_KEY and "ConcurrentCache" in c.get("fn", "") and "ConcurrentCache" not in fn.get("qn", "") \
                    and c["a"] and ("QueryTreeCache" in show(c.get("o")) or "cache" in show(c.get("o")).lower()):
                rep.inst("key-used", "%s in %s" % (show(c), loc(fn, c)))
                if not is_own_text(c["a"][0], fn):
                    rep.viol("key-used", "%s %s" % (fn["qn"], name), loc(fn, c),
                             "%s is keyed by %s, which is not asString() of the operation" % (show(c), show(c["a"][0])))
            if c.get("op") == "[]" and "lock" in show(c["a"][0]) and "string" in c["a"][1].get("t", "string") \
                    and fn["qn"] == "Operation::getResult":
                rep.inst("key-used", "%s in %s" % (show(c), loc(fn, c)))
                if not is_own_text(c["a"][1], fn):
                    rep.viol("key-used", "%s pinned size" % fn["qn"], loc(fn, c),
                             "pinned size is stored under %s" % show(c["a"][1]))


def check_memo(prog, rep):
    """QueryExecutionTree: members whose change alters asString() reset the memo."""
    tree = prog.record(QET)
    asstr = prog.method(QET, "asString")[0]
    memo = None
    for n in walk(asstr["body"]):
        if n["k"] == "ret" and n.get("e"):
            e = strip(n["e"])
            if e["k"] == "mem":
                memo = e["n"]
    called = [c for c in walk(asstr["body"]) if c["k"] == "call" and short(c) == "asString" and "Operation" in c.get("fn", "")]
    rep.inst("tree-key", "QueryExecutionTree::asString")
    F = Flow(prog, None)
    if not called:
        rep.viol("tree-key", "root text", loc(asstr), "QueryExecutionTree::asString does not include the root operation's text")
    if memo is None:
        rep.inst("key-fresh", "no memoised text")
        rep.inst("key-fresh", "no memoised text")
        return
    for m in tree["methods"]:
        f = prog.fn(m["fk"])
        if f is None or not f.get("body") or f["n"] == "asString" or f.get("ctor"):
            continue
        changes = False
        for n in walk(f["body"]):
            tgt = None
            if n["k"] == "bin" and n["op"] == "=":
                tgt = strip(n["x"])
            if n["k"] == "call" and n.get("op") == "=":
                tgt = strip(n["a"][0])
            if tgt is not None and tgt["k"] == "mem" and tgt["n"] == "_rootOperation":
                changes = True
            if n["k"] == "call" and n.get("fn", "").startswith("Operation::set") and not n.get("cm"):
                changes = True
        if not changes:
            continue
        rep.inst("key-fresh", "%s in %s" % (f["qn"], loc(f)))
        if not any(resets(n, memo, prog) for n in walk(f["body"])):
            rep.viol("key-fresh", f["qn"], loc(f), "%s changes the root operation but keeps the memoised text %s" % (f["qn"], memo))


def resets(n, memo, prog, depth=0):
    if n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0]).get("n") == memo:
        return True
    if n["k"] == "call" and short(n) in ("clear", "assign") and n.get("o") and strip(n["o"]).get("n") == memo:
        return True
    if n["k"] == "call" and depth < 3 and n.get("o", {}).get("k") == "this":
        for t in prog.targets(n):
            f = prog.fn(t)
            if f.get("body") and any(resets(x, memo, prog, depth + 1) for x in walk(f["body"])):
                return True
    return False


if __name__ == "__main__":
    run("C01", check, explanation="Access-path flow analysis of all operation classes: the state read by computeResult "
        "(interprocedurally, per value of each flag/type field) is compared with the state rendered by asString.")
