"""C17: every ordering used for sorting and searching is a consistent strict order."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, AnalysisError
from cmpfn import Table, Mixed, Unknown, strict, three_way, unused
from effects import bare

SORTS = {"sort", "stable_sort", "partial_sort", "partial_sort_copy", "nth_element", "parallel_sort", "min_element", "max_element", "minmax_element", "merge", "inplace_merge", "set_union",
         "set_intersection", "set_difference", "includes", "is_sorted", "is_sorted_until", "push_heap", "pop_heap", "make_heap", "sort_heap", "multiway_merge", "min", "max", "ksort"}
SEARCHES = {"lower_bound", "upper_bound", "equal_range", "binary_search", "partition_point"}
OTHER = {"unique", "unique_copy", "equal", "is_permutation", "search", "adjacent_find", "mismatch", "find_first_of", "find_end", "accumulate", "reduce", "transform", "for_each", "inner_product",
         "generate", "visit", "apply", "invoke", "async", "thread", "find_if", "count_if", "all_of", "any_of", "none_of", "replace_if", "remove_if", "copy_if", "distinct"}


class Where:
    """A comparison function with its place."""

    def __init__(self, key, f, node, body, params, this=None):
        self.key, self.f, self.node, self.body, self.params, self.this = key, f, node, body, params, this

    @property
    def loc(self):
        return loc(self.f, self.node) if self.node is not None else loc(self.f)


def same_types(ps):
    a, b = bare(ps[0]["t"]), bare(ps[1]["t"])
    return a == b or "type-parameter" in a or "type-parameter" in b or "auto" in (a, b)


def lambdas(prog):
    """{lambda key: (function, lambda node, [(consumer name, call)])}"""
    out = {}
    for k in sorted(prog.all_keys()):
        if b'"lambda"' not in prog.raw["F"][k] or k.startswith("T:"):
            continue
        f = prog.fn(k)
        if not f["file"].startswith("src/") or not f.get("body"):
            continue
        roots = [f["body"]] + [i for i in (f.get("inits") or []) if isinstance(i, dict)]
        held = {}
        for r in roots:
            par = {}
            for n in walk(r if "k" in r else {"k": "x", "i": r}):
                for c in children(n):
                    if c is not None:
                        par[id(c)] = n
            for n in walk(r if "k" in r else {"k": "x", "i": r}):
                if n["k"] != "lambda" or len(n.get("params") or []) != 2 or not n.get("body"):
                    continue
                use = uses(n, par, r)
                if n["key"] in out:
                    old = out[n["key"]]
                    out[n["key"]] = (old[0], old[1], old[2] + use)
                else:
                    out[n["key"]] = (f, n, use)
    return out


def uses(n, par, root):
    """Who is given the lambda: [(name, call)], ("called", ...) for direct calls, ("", ...) otherwise."""
    p = par.get(id(n))
    while p is not None and (p["k"] in ("cast", "gen", "list") or p["k"] == "ctor" and len(p["a"]) == 1):
        n, p = p, par.get(id(p))
    if p is None:
        return [("", None)]
    if p["k"] == "call":
        if p.get("op") == "()" and p["a"] and p["a"][0] is n:
            return [("called", p)]
        return [(short(p), p)]
    if p["k"] == "ctor":
        return [(bare(p.get("t", "")).split("<")[0].split("::")[-1], p)]
    if p["k"] == "var":
        out = []
        for m in walk(root if "k" in root else {"k": "x", "i": root}):
            if m["k"] == "ref" and m.get("id") == p["id"]:
                out += uses(m, par, root) if par.get(id(m)) is not p else []
        return out or [("unused", None)]
    if p["k"] == "ret":
        return [("", p)]
    if p["k"] == "lambda":
        return []
    return [("", p)]


def candidates(prog):
    out = []
    for key, (f, n, us) in sorted(lambdas(prog).items()):
        names = {u[0] for u in us}
        if names <= {"called", "unused"} | OTHER:
            continue
        rt = n.get("rt", "")
        if rt and "bool" not in rt and "auto" not in rt and "type" not in rt and "dependent" not in rt:
            continue
        nm = ", ".join(sorted(x for x in names if x)) or "a returned comparison"
        out.append((Where("%s: comparison for %s (%s)" % (f["qn"], nm, text_of(n)), f, n, n["body"], n["params"]), names))
    seen = set()
    for k in sorted(prog.all_keys()):
        if not re.search(r"operator\(\)|operator[<>]=?[(<]", k) or "lambda@" in k:
            continue
        f = prog.fn(k)
        if not f["file"].startswith("src/") or not f.get("body") or f["n"].startswith(("operator<<", "operator>>")):
            continue
        if (f["file"], f["l"], f["n"]) in seen:
            continue
        ps = f["params"]
        if f["n"] == "operator()" and f.get("cls"):
            if len(ps) >= 2 and "bool" in f.get("rt", "bool") and (same_types(ps) or re.search(r"[Cc]omp|[Ll]ess|Sort", f["cls"])):
                seen.add((f["file"], f["l"], f["n"]))
                out.append((Where("%s(%s)" % (f["qn"], ", ".join(bare(p["t"]) for p in ps[:2])), f, None, f["body"], ps), {"functor"}))
        elif f["n"] in ("operator<", "operator>", "operator<=", "operator>="):
            seen.add((f["file"], f["l"], f["n"]))
            if f.get("cls") and len(ps) == 1:
                out.append((Where(f["qn"], f, None, f["body"], ps, this=True), {f["n"]}))
            elif len(ps) == 2:
                out.append((Where(f["qn"], f, None, f["body"], ps), {f["n"]}))
    return out


def text_of(n):
    for m in walk(n["body"]):
        if m["k"] == "ret" and m.get("e"):
            return show(m["e"])[:60]
    return ""


def table(prog, w, kind="bool"):
    """(table, hetero?) of a comparison."""
    types = w.this is None and not same_types(w.params)
    try:
        return Table(prog, w.body, w.params, w.this, types, kind), types
    except Mixed as m:
        g = w.this is None and any("type-parameter" in p["t"] or "auto" in p["t"] for p in w.params[:2])
        if g and any(re.search(r"@(?![.\[])", x) for x in (m.l, m.r)):
            return Table(prog, w.body, w.params, w.this, True, kind), True
        raise


def ordering(w):
    """Does the body order its arguments at all?"""
    for n in walk(w.body):
        if n["k"] in ("bin", "call") and n.get("op") in ("<", ">", "<=", ">="):
            return True
        if n["k"] == "call" and (n.get("op") == "()" or re.search(r"comp|less|cmp|before|great", short(n), re.I)):
            return True
    return False


def check(prog, rep):
    rep.rule("order", "every comparison given to a sort, a search or an ordered container is a strict weak order: for every arrangement of its keys", 20)
    rep.rule("search", "a binary search goes through the data in the direction the data is sorted", 8)
    rep.rule("three-way", "three-way comparisons change their sign when the arguments are exchanged and give 0 for equal elements", 3)
    rep.rule("siblings", "the relational operators of a class agree with each other", 1)
    rep.rule("sentinel", "the extreme values an external sort is given are smaller and larger than all elements", 8)
    rep.rule("level", "words are sorted at least as finely as they are searched", 4)
    tabs = {}
    for w, names in candidates(prog):
        if not ordering(w) and not names & (SORTS | SEARCHES | {"functor"}):
            continue
        op = names & {"operator<=", "operator>="}
        try:
            t, het = table(prog, w)
        except Mixed as m:
            rep.inst("order", w.key)
            rep.viol("order", w.key + " positions", loc(w.f, m.node) if m.node.get("l") else w.loc,
                     "%s of one element is compared with %s of the other" % (m.l.replace("@", "element"), m.r.replace("@", "element")))
            continue
        except Unknown as u:
            rep.extra.setdefault("not_decided", []).append("%s: %s" % (w.key, u))
            continue
        tabs.setdefault((w.f.get("cls") or "", tuple(sorted(names & {"operator<", "operator>", "operator<=", "operator>="}))), []).append((w, t))
        if op:
            continue
        if symmetric(t) and not names & (SORTS | SEARCHES):
            continue
        rep.inst("order", "%s: keys %s" % (w.key, ", ".join(sorted(t.keys)) or "none"))
        bad = strict(t)
        if bad:
            rep.viol("order", "%s %s" % (w.key, bad[0]), w.loc, bad[1])
            continue
        if not any(any(any(r) for r in x) for _, x in t.tabs):
            rep.viol("order", w.key + " empty", w.loc, "no element is ever 'less' than another")
            continue
        dead = [k for k in unused(t) if " ? " not in k]
        if dead:
            rep.viol("order", "%s %s" % (w.key, dead[0]), w.loc, "%s is compared but has no influence on the order" % dead[0].replace("@", "element"))
        if names & SEARCHES:
            if names & SORTS:
                rep.inst("search", "%s: the comparison the data is sorted with" % w.key)
            elif len(t.keys) == 1:
                k = list(t.keys)[0]
                rep.inst("search", "%s: by %s" % (w.key, k))
                for ext, x in t.tabs:
                    if any(x[i][j] != (a[k] < b[k]) for i, a in enumerate(t.els) for j, b in enumerate(t.els)):
                        rep.viol("search", w.key, w.loc, "the search does not take 'before' for 'smaller': data in ascending order is searched wrongly")
                        break
    siblings(rep, tabs)
    rep.part(threeway, prog, rep)
    rep.part(sentinels, prog, rep)
    rep.part(levels, prog, rep)


def symmetric(t):
    return all(x[i][j] == x[j][i] for _, x in t.tabs for i in range(len(x)) for j in range(i))


def siblings(rep, tabs):
    by = {}
    for (cls, ops), l in tabs.items():
        if ops:
            for w, t in l:
                by.setdefault((cls, w.f["file"]), {})[ops[0]] = (w, t)
    for (cls, _), ops in sorted(by.items()):
        if "operator<" not in ops:
            continue
        w, lt = ops["operator<"]
        for o in ("operator>", "operator<=", "operator>="):
            if o not in ops:
                continue
            v, t = ops[o]
            rep.inst("siblings", "%s and %s" % (w.key, v.key))
            if set(t.keys) != set(lt.keys) or t.ext != lt.ext or len(t.els) != len(lt.els):
                rep.viol("siblings", v.key, v.loc, "%s looks at %s, operator< at %s" % (o, ", ".join(sorted(t.keys)), ", ".join(sorted(lt.keys))))
                continue
            n = len(t.els)
            for (_, a), (_, b) in zip(lt.tabs, t.tabs):
                bad = [(i, j) for i in range(n) for j in range(n)
                       if b[i][j] != (a[j][i] if o == "operator>" else not a[j][i] if o == "operator<=" else not a[i][j])]
                if bad:
                    i, j = bad[0]
                    rep.viol("siblings", v.key, v.loc, "%s and operator< contradict each other for %s and %s" % (o, t.name(t.els[i]), t.name(t.els[j])))
                    break


def threeway(prog, rep):
    seen = set()
    for k in sorted(prog.all_keys()):
        f = prog.fn(k) if re.search(r"[cC]ompare|cmp", k.split("(")[0].rsplit("::", 1)[-1]) else None
        if f is None or not f["file"].startswith("src/") or not f.get("body") or (f["file"], f["l"]) in seen:
            continue
        if f.get("rt", "").strip() != "int":
            continue
        ps = f["params"]
        this = None
        if f.get("cls") and len(ps) == 1 and bare(ps[0]["t"]).rsplit("::", 1)[-1] == f["cls"].rsplit("::", 1)[-1]:
            this = True
        elif len(ps) < 2 or bare(ps[0]["t"]) != bare(ps[1]["t"]):
            continue
        seen.add((f["file"], f["l"]))
        w = Where("%s(%s)" % (f["qn"], bare(ps[0]["t"])), f, None, f["body"], ps, this)
        try:
            t, _ = table(prog, w, "int")
        except Mixed as m:
            rep.inst("three-way", w.key)
            rep.viol("three-way", w.key + " positions", loc(f, m.node), "%s of one element is compared with %s of the other" % (m.l.replace("@", "element"), m.r.replace("@", "element")))
            continue
        except Unknown as u:
            rep.extra.setdefault("not_decided", []).append("%s: %s" % (w.key, u))
            continue
        rep.inst("three-way", "%s: keys %s" % (w.key, ", ".join(sorted(t.keys))))
        bad = three_way(t)
        if bad:
            rep.viol("three-way", "%s %s" % (w.key, bad[0]), w.loc, bad[1])


def sentinels(prog, rep):
    """min_value / max_value of functors for external sorting."""
    for cls in sorted({prog.fn(k).get("cls") for k in prog.all_keys() if k.split("(")[0].endswith(("::min_value", "::max_value"))} - {None}):
        for nm, want in (("min_value", "lowest"), ("max_value", "highest")):
            for f in prog.fns(cls + "::" + nm):
                if not f["file"].startswith("src/") or not f.get("body"):
                    continue
                env = {}
                for n in walk(f["body"]):
                    if n["k"] == "var" and n.get("init") is not None:
                        env[n["id"]] = n["init"]
                for n in walk(f["body"]):
                    if n["k"] != "ret" or not n.get("e"):
                        continue
                    parts = leaves(n["e"], env, 0)
                    rep.inst("sentinel", "%s: %s" % (f["qn"], ", ".join(p for p, _ in parts)))
                    for p, x in parts:
                        if p != want and not (p == "0" and want == "lowest"):
                            rep.viol("sentinel", "%s %s" % (f["qn"], p), loc(f, x), "%s has the component %s: elements beyond it would be lost or misplaced" % (f["qn"], p))


def leaves(e, env, depth):
    e = strip(e)
    if e["k"] == "ref" and e.get("id") in env and depth < 5:
        return leaves(env[e["id"]], env, depth + 1)
    if e["k"] in ("ctor", "list") and e.get("a"):
        out = []
        for a in e["a"]:
            if a["k"] != "defarg":
                out += leaves(a, env, depth)
        return out
    if e["k"] == "call":
        if short(e) in ("max", "min", "lowest") and not e["a"]:
            return [("highest" if short(e) == "max" else "lowest", e)]
        if e["a"] and short(e) in ("make_tuple", "make_pair"):
            out = []
            for a in e["a"]:
                out += leaves(a, env, depth)
            return out
    c = const_int(e)
    if c is not None:
        if e["k"] == "bool":
            return [("highest" if c else "lowest", e)]
        if c in (2 ** 64 - 1, 2 ** 63 - 1, 2 ** 32 - 1, 2 ** 31 - 1, 2 ** 16 - 1, 255, -1):
            return [("highest", e)]
        return [(str(c), e)]
    return [(show(e), e)]


# ------------------------------------------------------------------ collation levels
def levels(prog, rep):
    en = next((prog.enum(q) for q in prog.enums if q.endswith("LocaleManager::Level")), None)
    if en is None:
        raise AnalysisError("the collation levels are not found")
    rank = {e["n"]: i for i, e in enumerate(sorted(({"n": x[0], "v": x[1]} if isinstance(x, list) else x for x in en["e"]), key=lambda e: e["v"]))}
    comps = {f["cls"] for f in prog.all_fns() if f["n"] == "compare" and f.get("cls") and any(bare(p["t"]).endswith("Level") for p in f["params"]) and f["file"].startswith("src/")
             and any(g["n"] == "operator()" for g in prog.all_fns() if g.get("cls") == f["cls"])}
    if not comps:
        raise AnalysisError("no string comparator with levels found")

    def lvl(e):
        """Name of the level an expression denotes, "arg" if it is passed on."""
        e = strip(e)
        if e["k"] == "ref":
            n = e["n"].rsplit("::", 1)[-1]
            return n if n in rank else "arg"
        if e["k"] == "mem":
            return e["n"] if e["n"] in rank else "arg"
        n = show(e).rsplit("::", 1)[-1]
        return n if n in rank else None

    def default(cls):
        for f in prog.all_fns():
            if f.get("cls") == cls and f["n"] == "operator()" and len(f["params"]) == 3 and f["params"][2].get("def"):
                return lvl(f["params"][2]["def"])
        return None

    searched, sorted_at = {}, []
    is_comp = lambda t: any(bare(t).endswith(c) for c in comps)
    for k in sorted(prog.all_keys()):
        if k.startswith("T:"):
            continue
        f = prog.fn(k)
        if not f["file"].startswith("src/") or not f.get("body"):
            continue
        for n in walk(f["body"]):
            if n["k"] not in ("call", "ctor"):
                continue
            nm = short(n) if n["k"] == "call" else ""
            args = [strip(a) for a in n["a"]]
            if nm in SORTS or nm in ("sortVocabVector", "mergeVocabulary") or any(is_comp(t.get("t", "")) for t in args) and n["k"] == "call" and not nm.startswith("operator") and not f.get("cls") in comps:
                for a in args:
                    if is_comp(a.get("t", "")) and nm not in ("lower_bound", "upper_bound") and a["k"] != "lambda":
                        if n["k"] == "call" and (nm in SORTS or prog.targets(n) and sorts_with(prog, n, args.index(a))):
                            sorted_at.append((f, n, default(bare_cls(a["t"], comps)), nm))
                    b = lam_of(prog, f, a)
                    if b is not None and (nm in SORTS or nm in ("sortVocabVector", "mergeVocabulary") or prog.targets(n)):
                        for c in walk(b["body"]):
                            if c["k"] == "call" and (c.get("op") == "()" or short(c) == "compare") and len(c["a"]) >= 3:
                                l = lvl(c["a"][-1])
                                if l and l != "arg" and any(x in (c.get("fn") or "") for x in comps):
                                    sorted_at.append((f, n, l, nm))
            if n["k"] == "call" and nm in ("lower_bound", "upper_bound") and len(args) == 2 and (n.get("fn") or "").startswith("Vocabulary"):
                l = lvl(args[1])
                if l in rank:
                    searched.setdefault(l, (f, n))
            if n["k"] == "call" and nm == "compare" and any(x in (n.get("fn") or "") for x in comps) and f.get("cls") not in comps and len(args) == 3:
                l = lvl(args[2])
                if l in rank:
                    searched.setdefault(l, (f, n))
    if not searched:
        raise AnalysisError("no search of words at a fixed level found")
    finest = max(searched, key=lambda l: rank[l])
    for l, (f, n) in sorted(searched.items()):
        rep.inst("level", "searched at %s in %s" % (l, f["qn"]))
    for f, n, l, nm in sorted_at:
        rep.inst("level", "sorted at %s in %s (%s)" % (l, f["qn"], nm))
        if l is None:
            continue
        if rank[l] < rank[finest]:
            rep.viol("level", "%s %s" % (f["qn"], nm), loc(f, n), "words are sorted at level %s here, but searched at level %s (%s)" % (l, finest, loc(*searched[finest])))


def bare_cls(t, comps):
    return next(c for c in comps if bare(t).endswith(c))


def lam_of(prog, f, a):
    if a["k"] == "lambda":
        return a
    if a["k"] == "ref" and "id" in a:
        for n in walk(f["body"]):
            if n["k"] == "var" and n["id"] == a["id"] and n.get("init") is not None:
                i = strip(n["init"])
                return i if i["k"] == "lambda" else None
    return None


def sorts_with(prog, call, i):
    """Does the callee order things by its i-th parameter?"""
    for t in prog.targets(call):
        g = prog.fn(t)
        if i >= len(g["params"]) or not g.get("body"):
            continue
        pid = g["params"][i]["id"]
        for n in walk(g["body"]):
            if n["k"] == "call" and (short(n) in SORTS and any(strip(a).get("id") == pid for a in n["a"]) or n.get("op") == "()" and n["a"] and strip(n["a"][0]).get("id") == pid):
                return True
    return False


if __name__ == "__main__":
    run("C17", check, level="checked-over-all-cases", explanation="Every comparison function is read from its syntax tree (callees and loops included) into a table of its outcomes for all arrangements of the "
        "values of the keys it looks at (at most three values per key, which is complete for the axioms of a strict weak order); the axioms are checked on the table. "
        "Collation levels and sentinels are compared between the places that sort and the places that search.")
