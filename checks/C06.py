"""C06: order-sensitive operations get inputs sorted on the columns they work on; declared orders are real."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, AnalysisError
from place import Fn, pathtext, conj, leaves

TREE = "QueryExecutionTree"
# operation -> how its inputs and columns belong together
NEEDS = {"Join": "cols", "OptionalJoin": "proj", "Minus": "proj", "MultiColumnJoin": "proj", "TwoColumnJoin": "two",
         "Distinct": "list", "CountAvailablePredicates": "cols"}
SORTS = ("Sort", "OrderBy")
ANYSIDE = "any"


def check(prog, rep):
    rep.rule("sorted-input", "every input of an order-sensitive operation is sorted on exactly its columns: by a sort built on them, or by a declared order that was compared with them", 13)
    rep.rule("skipped-sort", "a sort is left out only if the declared order of the same input was compared with the same columns", 5)
    rep.rule("pairing", "an operation keeps its inputs together with their columns when it reorders them", 4)
    rep.rule("declared", "the order an operation declares is one its computation produces", 15)
    rep.rule("result-order", "the order noted in a computed result is the declared one", 8)
    rep.rule("fresh-order", "an operation copied and then changed recomputes its declared order", 1)
    rep.rule("bounds", "elements of a declared order are read only after its length was tested", 5)
    rep.rule("sort-order", "Sort and OrderBy order by the columns they were given, ascending unless told otherwise", 2)
    n = 0
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b"make_shared" not in raw and b"setSubtree" not in raw and b"make_unique" not in raw:
            continue
        if not any(c.encode() in raw for c in NEEDS) and b"GroupBy" not in raw and b"OrderBy" not in raw and b"Sort" not in raw:
            continue
        f = prog.fn(k)
        if not f.get("body") or not f["file"].startswith("src/"):
            continue
        rep.part(sites, prog, rep, Fn(prog, f))
    rep.part(pairing, prog, rep)
    rep.part(declared, prog, rep)
    rep.part(result_order, prog, rep)
    rep.part(fresh, prog, rep)
    rep.part(bounds, prog, rep)
    rep.part(sort_ops, prog, rep)


# ------------------------------------------------------------------ construction sites
def made(n):
    """(class, args) if n builds an operation."""
    if n["k"] == "call" and n.get("fn") in ("std::make_shared", "std::make_unique"):
        m = re.match(r"(?:const )?std::(?:shared|unique)_ptr<(?:class )?(\w+)", n.get("t", ""))
        return (m.group(1), n["a"]) if m else None
    if n["k"] == "new":
        m = re.match(r"(\w+)", n.get("t", ""))
        c = [x for x in children(n) if x["k"] == "ctor"]
        return (m.group(1), c[0]["a"]) if m and c else None
    return None


def is_tree(a):
    a = strip(a)
    return TREE in a.get("t", "") and "_ptr" in a.get("t", "") or a["k"] == "cond" and is_tree(a["x"])


def is_num(a):
    return re.match(r"(const )?(unsigned long|int|unsigned int|long|size_t|Id)( &)?$", strip(a).get("t", "")) is not None


def sites(prog, rep, F):
    f = F.f
    for n in walk(f["body"]):
        m = made(n)
        if m and m[0] in NEEDS:
            cls, args = m
            trees = [a for a in args if is_tree(a)]
            if not trees:
                continue
            kind = NEEDS[cls]
            if kind == "cols":
                keys = [a for a in args if is_num(a)]
                reqs = [("cols", (F.text(k),)) for k in keys]
            else:
                lists = [a for a in args if "vector<" in strip(a).get("t", "")]
                if not lists:
                    continue
                p = F.path(lists[0])
                if kind == "list":
                    reqs = [("list", p)]
                else:
                    reqs = [(kind, p, s) for s in range(len(trees))]
            if len(reqs) < len(trees):
                raise AnalysisError("%s: cannot tell which columns of %s belong to which input" % (loc(f, n), cls))
            firsts = []
            for i, (t, r) in enumerate(zip(trees, reqs)):
                rep.inst("sorted-input", "%s: input %d of %s at %s" % (f["qn"], i + 1, cls, loc(f, n)))
                for val, guards, ctx in alternatives(prog, F, t, n):
                    why = judge(prog, ctx, val, guards + [(c, p, F) for c, p, _ in F.guards(n)], r, firsts, i)
                    if why:
                        rep.viol("sorted-input", "%s %s input %d: %s" % (f["qn"].split("::")[-1], cls, i + 1, why[0]), loc(f, n),
                                 "%s builds %s with an input that need not be sorted on %s: %s" % (f["qn"], cls, req_text(r), why[1]))
        if m and m[0] in SORTS:
            skipped(prog, rep, F, n, m)
        if n["k"] == "call" and short(n) == "setSubtree" and "GroupBy" in n.get("fn", "") and n["a"]:
            lists = [d for d in F.vars.values() if d.get("init") and any(x["k"] == "call" and short(x) == "computeSortColumns" for x in walk(d["init"]))]
            rep.inst("sorted-input", "%s: input of GroupBy at %s" % (f["qn"], loc(f, n)))
            if not lists:
                rep.viol("sorted-input", "%s GroupBy" % f["n"], loc(f, n), "%s gives GroupBy an input without asking on which columns it has to be sorted" % f["qn"])
                continue
            r = ("list", F.path(dict(k="ref", id=lists[0]["id"], n=lists[0]["n"])))
            for val, guards, ctx in alternatives(prog, F, n["a"][0], n):
                why = judge(prog, ctx, val, guards + [(c, p, F) for c, p, _ in F.guards(n)], r, [], 0)
                if why:
                    rep.viol("sorted-input", "%s GroupBy: %s" % (f["qn"].split("::")[-1], why[0]), loc(f, n),
                             "%s gives GroupBy an input that need not be sorted on %s: %s" % (f["qn"], req_text(r), why[1]))


def req_text(r):
    if r[0] == "cols":
        return "column " + ", ".join(r[1])
    if r[0] == "list":
        return "all columns of " + pathtext(r[1])
    return "the columns %s[..][%d]" % (pathtext(r[1]), r[2])


def alternatives(prog, F, e, use, depth=0):
    """Possible values [(value, guards, context)] of a tree expression; guards are (condition, polarity, context)."""
    e = strip(e)
    if depth > 12:
        return [(("unknown", show(e)), [], F)]
    if e["k"] == "cond":
        return [(v, g + [(e["c"], True, F)], c) for v, g, c in alternatives(prog, F, e["x"], use, depth + 1)] + \
               [(v, g + [(e["c"], False, F)], c) for v, g, c in alternatives(prog, F, e["y"], use, depth + 1)]
    if e["k"] == "ref" and e.get("id") in F.binds:
        a, c = F.binds[e["id"]]
        return alternatives(prog, c, a, F.callnode, depth + 1)
    # member of a plan chosen by pointer or of a plan returned by a function
    if e["k"] == "mem" and e.get("b"):
        b = strip(e["b"])
        while b["k"] == "un" and b["op"] == "*" or b["k"] == "call" and b.get("op") in ("->", "*") and len(b["a"]) == 1:
            b = strip(b["x"] if b["k"] == "un" else b["a"][0])
        if b["k"] == "ref" and b.get("id") in F.vars and b["id"] in F.assign and "*" in F.vars[b["id"]].get("t", ""):
            defs = [(F.vars[b["id"]].get("init"), F.vars[b["id"]])] + F.assign[b["id"]]
            out = []
            for rhs, node, extra in reaching(F, [d for d in defs if d[0] is not None], use):
                rhs = strip(rhs)
                if rhs["k"] == "un" and rhs["op"] == "&":
                    rhs = strip(rhs["x"])
                out += [(v, g + extra, c) for v, g, c in alternatives(prog, F, dict(k="mem", n=e["n"], b=rhs, t=e.get("t", "")), node, depth + 1)]
            return out
        if b["k"] == "cond":
            return [(v, g + [(b["c"], True, F)], c) for v, g, c in alternatives(prog, F, dict(e, b=b["x"]), use, depth + 1)] + \
                   [(v, g + [(b["c"], False, F)], c) for v, g, c in alternatives(prog, F, dict(e, b=b["y"]), use, depth + 1)]
        if b["k"] == "call" and not b.get("op"):
            return from_call(prog, F, b, e["n"], depth)
    if e["k"] == "call" and not e.get("op") and e.get("fk") and not made(e):
        return from_call(prog, F, e, None, depth)
    p = F.path(e)
    root = p[0]
    if root[0] == "v" and len(root) > 2 and root[2] in F.vars and root[1] == id(F.f) and F.vars[root[2]].get("of") is None:
        d = F.vars[root[2]]
        defs = []
        for n in walk(F.f["body"]):
            if n["k"] == "bin" and n["op"] == "=" or n["k"] == "call" and n.get("op") == "=":
                x, y = (n["x"], n["y"]) if n["k"] == "bin" else (n["a"][0], n["a"][1])
                px = F.path(x)
                if px == p:
                    defs.append((y, n))
                elif len(p) > 1 and px == p[:-1] and isinstance(p[-1], str):
                    defs.append((dict(k="mem", n=p[-1], b=y, t=""), n))
            elif n["k"] == "call" and short(n) == "setOperation" and n.get("o") and F.path(n["o"]) == p and len(n["a"]) == 2:
                defs.append((("op", n["a"][1]), n))
        init = d.get("init")
        if init is not None and not is_new(init):
            i = strip(init)
            if len(p) == 1:
                defs.insert(0, (init, d))
            elif len(p) == 2:
                defs.insert(0, (dict(k="mem", n=p[1], b=init, t=""), d))
        out = []
        for rhs, node, extra in reaching(F, defs, use):
            g0 = [(c, pl, F) for c, pl, _ in F.guards(node)] + extra
            if isinstance(rhs, tuple):
                out.append((op_value(prog, F, rhs[1], node), g0, F))
            else:
                out += [(v, g + g0, c) for v, g, c in alternatives(prog, F, rhs, node, depth + 1)]
        if out or defs:
            return out
        if init is not None and is_new(init):
            return [(("new",), [], F)]
    return [(("raw", p), [], F)]


def from_call(prog, F, call, field, depth):
    """Values a planner helper returns."""
    h = prog.fn(call.get("fk")) if call.get("fk") else None
    if not h or not h.get("body") or not h["file"].startswith("src/engine/") or depth > 6:
        return [(("unknown", show(call)), [], F)]
    if not (TREE in h.get("rt", "") or "SubtreePlan" in h.get("rt", "")):
        return [(("raw", F.path(call)), [], F)]
    args = call["a"][1:] if call.get("mo") else call["a"]
    G = Fn(prog, h, {p["id"]: (a, F) for p, a in zip(h["params"], args)}, F)
    G.callnode = call
    out = []
    for n in walk(h["body"]):
        if n["k"] == "ret" and n.get("e"):
            e = n["e"] if field is None else dict(k="mem", n=field, b=n["e"], t="")
            for v, g, c in alternatives(prog, G, e, n, depth + 1):
                out.append((v, g + [(cc, pl, G) for cc, pl, _ in G.guards(n)], c))
    return out or [(("unknown", show(call)), [], F)]


def is_new(e):
    e = strip(e)
    m = made(e)
    if m and m[0] == TREE:
        return True
    return e["k"] == "ctor" and ("SubtreePlan" in e.get("t", "")) and not e.get("cm2") and len([a for a in e["a"] if a["k"] != "defarg"]) <= 1


def reaching(F, defs, use):
    """Definitions that can reach use, with the negated guards of the definitions that would replace them."""
    uo = F.order.get(id(use), 10 ** 9)
    ds = [(r, n) for r, n in defs if F.order.get(id(n), -1) < uo]
    ds.sort(key=lambda d: F.order.get(id(d[1]), -1))
    out = []
    for i, (r, n) in enumerate(ds):
        gd = {id(g[2]) for g in F.guards(n)}
        extra, dead = [], False
        for r2, n2 in ds[i + 1:]:
            g2 = [g for g in F.guards(n2) if id(g[2]) not in gd]
            if not g2:
                if not contradict(F.guards(n), F.guards(n2)):
                    dead = True
            elif len(g2) == 1:
                extra.append((g2[0][0], not g2[0][1], F))
            else:
                extra.append((dict(k="bin", op="&&", x=wrap(g2[0]), y=wrap(g2[1]), l=0), False, F) if len(g2) == 2 else (g2[0][0], not g2[0][1], F))
        if dead or clash(extra + [(c, p, F) for c, p, _ in F.guards(n)]):
            continue
        out.append((r, n, extra))
    return out


def wrap(g):
    return g[0] if g[1] else dict(k="un", op="!", x=g[0], l=0)


def contradict(a, b):
    return any(id(x[0]) == id(y[0]) and x[1] != y[1] for x in a for y in b)


def clash(gs):
    return any(id(a[0]) == id(b[0]) and a[1] != b[1] for a in gs for b in gs)


def op_value(prog, F, e, use):
    e = strip(e)
    while e["k"] == "ctor" and len(e["a"]) == 1 and "_ptr<" in e.get("t", ""):
        e = strip(e["a"][0])
    if e["k"] == "ref" and "id" in e and e["id"] in F.vars:
        d = F.vars[e["id"]]
        if d.get("init") is not None and e["id"] not in F.assign:
            return op_value(prog, F, d["init"], use)
    m = made(e)
    if m:
        if m[0] in SORTS:
            trees = [a for a in m[1] if is_tree(a)]
            keys = [a for a in m[1] if (is_num(a) or "vector<" in strip(a).get("t", "")) and not is_tree(a)]
            if trees and keys:
                return ("sort", m[0], keyform(F, keys[0]), trees[0])
        return ("other", m[0])
    return ("unknown", show(e))


def keyform(F, e):
    """('cols', texts) | ('map', path, projection, asc) | ('list', path, asc)"""
    s = strip(e)
    if is_num(s):
        return ("cols", (F.text(s),), True)
    els = None
    if s["k"] == "ref" and s.get("id") in F.binds:
        a, c = F.binds[s["id"]]
        return keyform(c, a)
    p = F.path(s)
    els = list_elems(e)
    if els is not None:
        if els:
            return ("cols", tuple(F.text(first(x)[0]) for x in els), all(first(x)[1] for x in els))
    if s["k"] == "ref" and s.get("id") in F.vars:
        d = F.vars[s["id"]]
        pushes = [n for n in walk(F.f["body"]) if n["k"] == "call" and short(n) in ("push_back", "emplace_back") and n.get("o") and F.path(n["o"]) == p]
        if not pushes and d.get("init") is not None:
            els = list_elems(d["init"])
            if els:
                return ("cols", tuple(F.text(first(x)[0]) for x in els), all(first(x)[1] for x in els))
        cols, asc = [], True
        for n in pushes:
            el, up = first(n["a"][0]) if len(n["a"]) == 1 else (n["a"][0], const_int(n["a"][1]) == 0)
            asc = asc and up
            lp = next((a for a in F.ancestors(n) if a["k"] in ("for", "rfor", "while") and not F.inside(d, a)), None)
            if lp is None:
                cols.append(F.text(el))
                continue
            m = elem(F, el, lp)
            return ("map", m[0], m[1], asc) if m else ("list", p, asc)
        if cols:
            return ("cols", tuple(cols), asc)
        return ("list", p, True)
    return ("list", p, True)


def uncast(e):
    while e is not None and e["k"] in ("cast", "defarg"):
        e = e["e"]
    return e


def list_elems(e):
    """Elements of a braced list (also as an argument of a vector constructor), or None."""
    e = uncast(e)
    if e is None:
        return None
    if e["k"] == "list":
        a = [uncast(x) for x in e["a"]]
        if len(a) == 1 and (a[0]["k"] == "list" or a[0]["k"] == "ctor" and "vector" in a[0].get("t", "")):
            return list_elems(a[0])
        return e["a"]
    if e["k"] == "ctor" and "vector" in e.get("t", ""):
        a = [x for x in e["a"] if x["k"] != "defarg"]
        if not a:
            return []
        if len(a) == 1:
            return list_elems(a[0])
    return None


def first(x):
    """(first component, ascending) of a (column, descending) pair expression."""
    s = strip(x)
    while s["k"] == "ctor" and len(s["a"]) == 1:
        s = strip(s["a"][0])
    if s["k"] == "call" and short(s) == "make_pair" or s["k"] in ("ctor", "list") and len(s.get("a", [])) == 2:
        return s["a"][0], const_int(s["a"][1]) == 0
    return s, True


def elem(F, e, loop):
    """(list path, projection) if e is an element of the list the loop runs over."""
    p = F.path(e)
    if loop["k"] == "rfor":
        v = loop["var"]["id"]
        if p[0][0] == "v" and p[0][2] == v:
            return F.path(loop["range"]), tuple(p[1:])
        return None
    for i, x in enumerate(p):
        if isinstance(x, str) and x.startswith("[") and not x[1:-1].isdigit():
            return p[:i], tuple(p[i + 1:])
    return None


def judge(prog, F, val, guards, req, firsts, side):
    """None if the value is sorted as required, otherwise (key, reason)."""
    if val[0] == "new":
        return None
    if val[0] == "sort":
        kf = val[2]
        if not kf[2 if kf[0] != "map" else 3]:
            return ("descending", "the sort inserted for it may be descending")
        ok = False
        if req[0] == "cols":
            ok = kf[0] == "cols" and kf[1][:len(req[1])] == req[1]
        elif req[0] == "list":
            ok = kf[0] == "list" and kf[1] == req[1] or kf[0] == "map" and kf[1] == req[1] and kf[2] in ((), ("first",))
            if not ok and kf[0] == "cols" and len(kf[1]) == 1 and kf[1][0] == pathtext(req[1]) + "[0]":
                ok = any(sizeone(e, pl, c, req[1]) for e, pl, c in guards)
        elif req[0] == "proj":
            ok = kf[0] == "map" and kf[1] == req[1] and kf[2] == ("[%d]" % req[2],)
        elif req[0] == "two":
            base = pathtext(req[1])
            m = [re.match(re.escape(base) + r"\[(.*)\]\[(\d+)\]$", k) for k in (kf[1] if kf[0] == "cols" else ())]
            ok = len(m) >= 2 and all(m[:2]) and all(x.group(2) == str(req[2]) for x in m[:2]) and m[0].group(1) != m[1].group(1)
            if ok:
                firsts.append((side, m[0].group(1)))
                ok = len({x[1] for x in firsts}) == 1
        return None if ok else ("sorted on %s" % key_text(kf), "the sort inserted for it is on %s" % key_text(kf))
    if val[0] == "raw":
        at = set()
        for e, pl, c in guards:
            at |= atoms(prog, c, e, pl)
        T = strip_root(val[1])
        if satisfied(at, T, req):
            return None
        bad = [a[2] for a in at if a[0] == "bad" and a[1] == T]
        if bad:
            return ("test", bad[0])
        return ("no test", "%s is used as it is, without a test that its declared order starts with these columns" % pathtext(val[1]))
    if val[0] == "other":
        return ("other", "it is the result of %s, whose order was not compared" % val[1])
    return ("unknown", "its order cannot be determined (%s)" % val[1])


def strip_root(p):
    return tuple(x for x in p)


def key_text(kf):
    if kf[0] == "cols":
        return "column " + ", ".join(kf[1])
    if kf[0] == "map":
        return "the columns %s[..]%s" % (pathtext(kf[1]), pathtext(kf[2]) if kf[2] else "")
    return "the columns of " + pathtext(kf[1])


def unfold(F, e, pl):
    """The parts of a condition; a variable that only holds a condition stands for it."""
    for x, q in conj(e, pl):
        d = F.single(x["id"]) if x["k"] == "ref" and x.get("id") in F.vars else None
        if d is not None and strip(d) is not x:
            yield from unfold(F, d, q)
        else:
            yield x, q


def sizeone(e, pl, F, p):
    for x, q in unfold(F, e, pl):
        if x["k"] == "bin" and x["op"] == ("==" if q else "!="):
            for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                a = strip(a)
                if a["k"] == "call" and short(a) == "size" and a.get("o") and F.path(a["o"]) == p and const_int(b) == 1:
                    return True
    return False


# ------------------------------------------------------------------ what a condition says about declared orders
def sorted_of(F, e, depth=0):
    """Path of the tree whose declared order e denotes, or None."""
    e = strip(e)
    if depth > 8:
        return None
    if e["k"] == "call" and short(e) in ("resultSortedOn", "getResultSortedOn"):
        o = e.get("o")
        if o is None:
            return (("this",),)
        o = strip(o)
        while o["k"] == "call" and (o.get("op") in ("->", "*") or short(o) in ("getRootOperation", "get")):
            o = strip(o["a"][0] if o.get("op") else o["o"])
        return F.path(o)
    if e["k"] == "ref" and "id" in e:
        if e["id"] in F.binds:
            a, c = F.binds[e["id"]]
            return sorted_of(c, a, depth + 1)
        d = F.vars.get(e["id"])
        if d is not None and d.get("init") is not None and e["id"] not in F.assign:
            return sorted_of(F, d["init"], depth + 1)
    return None


def sorted_elem(F, e):
    """(tree, index text) if e is an element of a declared order."""
    e = strip(e)
    if e["k"] == "call" and (e.get("op") == "[]" and len(e["a"]) == 2):
        t = sorted_of(F, e["a"][0])
        return (t, F.text(e["a"][1])) if t is not None else None
    if e["k"] == "call" and short(e) in ("front", "at") and e.get("o"):
        t = sorted_of(F, e["o"])
        return (t, F.text(e["a"][0]) if e["a"] else "0") if t is not None else None
    return None


def atoms(prog, F, e, pol, depth=0):
    e = strip(e)
    if depth > 10:
        return set()
    if e["k"] == "un" and e["op"] == "!":
        return atoms(prog, F, e["x"], not pol, depth + 1)
    if e["k"] == "bin" and e["op"] in ("&&", "||"):
        a, b = atoms(prog, F, e["x"], pol, depth + 1), atoms(prog, F, e["y"], pol, depth + 1)
        if (e["op"] == "&&") == pol:
            return a | b
        return meet(a, b)
    if e["k"] == "bin" and e["op"] in ("==", "!="):
        if (e["op"] == "==") != pol:
            return set()
        for x, y in ((e["x"], e["y"]), (e["y"], e["x"])):
            s = sorted_elem(F, x)
            if s:
                return {("eq", s[0], s[1], F.text(y))}
            sx = strip(x)
            if sx["k"] == "call" and short(sx) == "getType" and "SCAN" in show(y):
                return {("scan", F.path(sx["o"]))}
            if sx["k"] == "call" and short(sx) == "size" and sx.get("o") and const_int(y) == 0:
                return {("empty", F.path(sx["o"]))}
        return set()
    if e["k"] == "call" and short(e) == "empty" and e.get("o") and pol:
        return {("empty", F.path(e["o"]))}
    if e["k"] == "ref" and "id" in e and pol and e["id"] in F.binds:
        a, c = F.binds[e["id"]]
        return atoms(prog, c, a, pol, depth + 1)
    if e["k"] == "ref" and "id" in e and e["id"] in F.vars and "bool" in F.vars[e["id"]].get("t", ""):
        return flag(prog, F, e["id"], pol, depth)
    if e["k"] == "call" and not e.get("op") and pol and e.get("t", "") == "bool":
        return predicate(prog, F, e, depth)
    return set()


def predicate(prog, F, e, depth):
    """A helper that compares an order with columns."""
    h = prog.fn(e.get("fk")) if e.get("fk") else None
    trees, lists, texts = set(), set(), set()
    args = list(e["a"])
    sides = [const_int(a) for a in args if const_int(a) is not None]
    for a in args:
        s = strip(a)
        t = s.get("t", "")
        if sorted_of(F, a) is not None:
            trees.add(sorted_of(F, a))
        elif s["k"] == "call" and short(s) in ("begin", "end", "cbegin", "cend") and s.get("o"):
            if sorted_of(F, s["o"]) is not None:
                trees.add(sorted_of(F, s["o"]))
            else:
                lists.add(F.path(s["o"]))
        elif "SubtreePlan" in t:
            trees.add(F.path(a) + ("_qet",))
        elif TREE in t:
            trees.add(F.path(a))
        elif "vector<" in t:
            lists.add(F.path(a))
        elif is_num(s):
            texts.add(F.text(a))
    if not trees or not (lists or texts):
        return set()
    return {("helper", frozenset(trees), frozenset(lists), frozenset(texts), sides[0] if len(sides) == 1 else None)}


def meet(a, b):
    sa, sb = {x[1] for x in a if x[0] == "scan"}, {x[1] for x in b if x[0] == "scan"}
    out = a & b
    # a scan is sorted on its columns in order: as a second column it needs no test of its own
    out |= {x for x in b if x[0] == "eq" and x[2] != "0" and x[1] in sa}
    out |= {x for x in a if x[0] == "eq" and x[2] != "0" and x[1] in sb}
    # nothing to sort on
    for x, y in ((a, b), (b, a)):
        if any(z[0] == "empty" for z in x):
            out |= {z for z in y if z[0] in ("prefix", "helper", "bad")}
    return out


def flag(prog, F, vid, pol, depth):
    """Atoms that hold when the local flag is true."""
    d = F.vars[vid]
    ass = F.assign.get(vid, [])
    if not ass:
        return atoms(prog, F, d["init"], pol, depth + 1) if d.get("init") is not None else set()
    if not pol:
        return set()
    out = set()
    exprs = [(d["init"], None)] if d.get("init") is not None else []
    cmps, sizes, helpers = [], [], set()
    problems = []
    for rhs, node in ass:
        exprs.append((rhs, node))
    for rhs, node in exprs:
        c = const_int(rhs)
        if c is not None:
            if node is not None and c == 0:
                for g, p, gn in F.guards(node):
                    scan_cmp(F, g, p, True, cmps, sizes, node)
            elif node is not None and c == 1 and d.get("init") is not None and const_int(d["init"]) == 0:
                for g, p, gn in F.guards(node):
                    scan_cmp(F, g, p, False, cmps, sizes, node)
            continue
        loops = [a for a in F.ancestors(node) if a["k"] in ("for", "while", "rfor")] if node is not None else []
        loops = [l for l in loops if not F.inside(d, l)]
        scan_cmp(F, rhs, True, False, cmps, sizes, node)
        for x in walk(rhs):
            if x["k"] == "call" and x.get("t", "") == "bool":
                helpers |= predicate(prog, F, x, depth)
            if x["k"] == "bin" and x["op"] == "||" and any(sorted_elem(F, y) for y in walk(x)):
                problems.append("the comparisons are combined with 'or'")
        if loops:
            keeps = any(y["k"] == "ref" and y.get("id") == vid for y in walk(rhs)) or \
                any(y["k"] == "ref" and y.get("id") == vid for l in loops if l.get("c") for y in walk(l["c"]))
            brk = any(y["k"] in ("break", "ret") for l in loops for y in walk(l["body"]))
            if not keeps and not brk and any(sorted_elem(F, y) for y in walk(rhs)):
                problems.append("only the last comparison counts")
            for l in loops:
                if l["k"] == "for" and l.get("init"):
                    for v in walk(l["init"]):
                        if v["k"] == "var" and v.get("init") is not None and const_int(v["init"]) not in (0, None):
                            problems.append("the comparison does not start with the first column")
    trees = {c[0] for c in cmps} | {s[0] for s in sizes}
    forms = set()
    for t, key, loop in cmps:
        forms.add((t, key))
    if helpers and not cmps:
        return helpers
    for t in {c[0] for c in cmps}:
        ks = {k for tt, k in forms if tt == t}
        bad = None
        if problems:
            bad = problems[0]
        elif len({x[0] for x in cmps}) > 1:
            bad = "the test compares the orders of two different inputs"
        elif len(ks) > 1:
            bad = "the test compares with different columns"
        elif not any(s[0] == t for s in sizes):
            bad = "the length of the declared order is not compared with the number of columns"
        elif any(c[2] is not None for c in cmps if c[0] == t) and all(s[3] is not None for s in sizes if s[0] == t):
            bad = "the length of the declared order is only compared with a constant"
        elif not all(s[2] for s in sizes if s[0] == t):
            bad = "the length of the declared order is compared the wrong way round"
        elif any(s[0] != t for s in sizes):
            bad = "the length of the order of another input is tested"
        k = next(iter(ks))
        if not bad and any(s[1] is not None and s[1] != k[0] for s in sizes if s[0] == t):
            bad = "the number of columns is taken from another list"
        if bad:
            out.add(("bad", t, bad))
        else:
            out.add(("prefix", t, k[0], k[1]))
    return out


def scan_cmp(F, e, pol, neg, cmps, sizes, node):
    """Collects element and size comparisons in e. neg: e (with polarity pol) leads to 'not sorted'."""
    for x in walk(e):
        if x["k"] != "bin":
            continue
        if x["op"] in ("==", "!="):
            for a, b in ((x["x"], x["y"]), (x["y"], x["x"])):
                s = sorted_elem(F, a)
                if s:
                    loop = next((l for l in F.ancestors(node) if l["k"] in ("for", "while", "rfor")), None) if node is not None else None
                    m = elem(F, b, loop) if loop is not None else None
                    cmps.append((s[0], m if m else (("t", F.text(b)), s[1]), loop))
        if x["op"] in ("<", "<=", ">", ">="):
            for a, b, flip in ((x["x"], x["y"], False), (x["y"], x["x"], True)):
                a, b = strip(a), strip(b)
                if a["k"] == "call" and short(a) == "size" and a.get("o"):
                    t = sorted_of(F, a["o"])
                    if t is not None:
                        op = x["op"]
                        if flip:
                            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                        lst = F.path(b["o"]) if b["k"] == "call" and short(b) == "size" and b.get("o") else None
                        want = (">=", ">") if not neg else ("<", "<=")
                        sizes.append((t, lst, op in want, const_int(b)))


def satisfied(at, T, req):
    for a in at:
        if a[0] == "helper" and T in a[1]:
            if req[0] == "cols" and (not a[3] or set(req[1]) & set(a[3]) or a[2]):
                return True
            if req[0] != "cols" and req[1] in a[2] and (req[0] == "list" or a[4] is None or a[4] == req[2]):
                return True
        if a[0] == "empty" and req[0] != "cols" and a[1] == req[1]:
            return True
        if a[0] == "prefix" and a[1] == T:
            if req[0] == "list" and a[2] == req[1] and a[3] in ((), ("first",)):
                return True
            if req[0] == "proj" and a[2] == req[1] and a[3] == ("[%d]" % req[2],):
                return True
    if req[0] == "cols":
        return all(("eq", T, str(i), k) in at for i, k in enumerate(req[1]))
    if req[0] == "two":
        base = pathtext(req[1])
        got = {}
        for a in at:
            if a[0] == "eq" and a[1] == T:
                m = re.match(re.escape(base) + r"\[(.*)\]\[(\d+)\]$", a[3])
                if m and m.group(2) == str(req[2]):
                    got[a[2]] = m.group(1)
        return "0" in got and "1" in got and got["0"] != got["1"]
    return False


def skipped(prog, rep, F, n, m):
    """If a sort is built only when a test on the declared order fails, the test has to be about the same input and columns."""
    val = op_value(prog, F, n, n)
    if val[0] != "sort":
        return
    T = F.path(val[3])
    kf = val[2]
    for c, pol, node in F.guards(n):
        neg = atoms(prog, F, c, not pol)
        rel = {a for a in neg if a[0] in ("eq", "prefix", "bad", "helper")}
        mention = mentions(F, c)
        if not rel and not mention:
            continue
        rep.inst("skipped-sort", "%s: %s of %s at %s" % (F.f["qn"], m[0], pathtext(T), loc(F.f, n)))
        name = "%s %s" % (F.f["qn"].split("::")[-1], m[0])
        bad = [a[2] for a in rel if a[0] == "bad"]
        if bad:
            rep.viol("skipped-sort", "%s: %s" % (name, bad[0]), loc(F.f, node), "%s leaves out a sort of %s on %s although it may not be sorted: %s" %
                     (F.f["qn"], pathtext(T), key_text(kf), bad[0]))
            continue
        ok = False
        if kf[0] == "cols":
            ok = satisfied(neg, T, ("cols", kf[1])) or len(kf[1]) == 1 and any(
                a[0] == "prefix" and a[1] == T and kf[1][0] == pathtext(a[2]) + "[0]" + "".join(x if x.startswith("[") else "." + x for x in a[3]) for a in neg)
        elif kf[0] == "list":
            ok = satisfied(neg, T, ("list", kf[1])) or any(a[0] == "prefix" and a[1] == T and a[2] == kf[1] for a in neg)
        elif kf[0] == "map":
            ok = any(a[0] == "prefix" and a[1] == T and (a[2], a[3]) in ((kf[1], kf[2]), (F.path(m[1][-1]), ()), (F.path(m[1][-1]), ("first",))) for a in neg) or \
                any(a[0] == "helper" and T in a[1] for a in neg)
        if not ok and kf[0] == "cols" and any(a[0] == "scan" for x in (c,) for a in [("scan",)] if "SCAN" in show(x)):
            ok = True
        if not ok and any(a[0] == "eq" and a[1] == T and kf[0] == "cols" and a[3] == kf[1][0] and a[2] == "0" for a in neg) and len(kf[1]) == 2 and \
                any(a[0] == "eq" and a[1] == T and a[3] == kf[1][1] and a[2] == "1" for a in neg):
            ok = True
        asc = kf[3] if kf[0] == "map" else kf[2]
        if ok and not asc:
            ids = {x["id"] for x in walk(c) if x["k"] == "ref" and "id" in x}
            exprs = [c] + [r for i in ids for r, _ in F.assign.get(i, [])]
            if not any(x["k"] == "mem" and x["n"] in ("second", "_desc") for e in exprs for x in walk(e)):
                ok = False
                rep.viol("skipped-sort", "%s: direction" % name, loc(F.f, node), "%s leaves out a sort that may be descending because the input is sorted ascending" % F.f["qn"])
                continue
        if not ok:
            rep.viol("skipped-sort", "%s: other columns" % name, loc(F.f, node),
                     "%s leaves out a sort of %s on %s, but the test that decides this (%s) does not establish that order" % (F.f["qn"], pathtext(T), key_text(kf), show(c)[:120]))


def mentions(F, e, depth=0):
    if depth > 4:
        return False
    for x in walk(e):
        if sorted_elem(F, x) or x["k"] == "call" and short(x) in ("size", "empty") and x.get("o") is not None and sorted_of(F, x["o"]) is not None:
            return True
        if x["k"] == "ref" and x.get("id") in F.vars and "bool" in F.vars[x["id"]].get("t", ""):
            d = F.vars[x["id"]]
            if any(mentions(F, r, depth + 1) for r in ([d["init"]] if d.get("init") is not None else []) + [r for r, _ in F.assign.get(x["id"], [])]):
                return True
    return False


# ------------------------------------------------------------------ constructors
def pairing(prog, rep):
    """Abstract execution of the constructors of two-input operations: inputs and columns stay together."""
    for cls, kind in sorted(NEEDS.items()):
        ctors = [f for f in prog.fns("%s::%s" % (cls, cls)) if f.get("body") is not None and sum(TREE in p["t"] for p in f["params"]) == 2]
        for f in ctors:
            trees = [p for p in f["params"] if TREE in p["t"]]
            nums = [p for p in f["params"] if re.match(r"(const )?(unsigned long|size_t|Id)", p["t"])]
            lists = [p for p in f["params"] if "vector<" in p["t"]]
            env = {p["id"]: (("tree", i),) for i, p in enumerate(trees)}
            env.update({p["id"]: (("col", i),) for i, p in enumerate(nums)})
            if kind in ("proj", "two") and lists:
                env[lists[0]["id"]] = (("list", "keep"),)
            for e2, mems in execute(f, env):
                rep.inst("pairing", "%s: %s" % (f["qn"], ", ".join("%s=%s" % (k, v) for k, v in sorted(mems.items()))))
                side = {}
                for m, v in mems.items():
                    if v and v[0][0] == "tree":
                        side[v[0][1]] = m
                if len(side) < 2:
                    rep.viol("pairing", "%s inputs" % cls, loc(f), "%s does not keep both of its inputs" % f["qn"])
                    continue
                left = "eft" in side[0]     # is the first argument the left one?
                for m, v in mems.items():
                    if v and v[0][0] == "col" and re.search("eft|ight", m):
                        is_left = "eft" in m
                        want_first = v[0][1] % 2 == 0
                        if (is_left == left) != want_first:
                            rep.viol("pairing", "%s %s" % (cls, m), loc(f), "%s stores in %s the column that belongs to the other input" % (f["qn"], m))
                    if v and v[0][0] == "proj" and re.search("eft|ight", m):
                        if (("eft" in m) == left) != (v[0][1] == 0):
                            rep.viol("pairing", "%s %s" % (cls, m), loc(f), "%s stores in %s the column that belongs to the other input" % (f["qn"], m))
                lv = [v for m, v in mems.items() if v and v[0][0] == "list"]
                for v in lv:
                    if (v[0][1] == "keep") != left:
                        rep.viol("pairing", "%s columns" % cls, loc(f), "%s exchanges its inputs without exchanging their columns" % f["qn"])


def execute(f, env):
    """All abstract end states [(env, members)] of a straight constructor (branches forked, loops run once)."""
    states = [(dict(env), {})]
    for i in f.get("inits", []):
        if i.get("f") and i.get("e") is not None:
            for e, m in states:
                v = value(i["e"], e, m)
                if v:
                    m[i["f"]] = v
    out = []

    def stmt(s, sts):
        if s is None:
            return sts
        k = s["k"]
        if k == "blk":
            for x in s["s"]:
                sts = stmt(x, sts)
            return sts
        if k == "if":
            a = stmt(s["x"], [(dict(e), dict(m)) for e, m in sts])
            b = stmt(s.get("y"), [(dict(e), dict(m)) for e, m in sts])
            uniq = []
            for st in a + b:
                if st not in uniq:
                    uniq.append(st)
            return uniq[:64]
        if k in ("for", "while", "rfor"):
            body = s["body"]
            if k == "rfor" and s.get("range"):
                for e, m in sts:
                    v = value(s["range"], e, m)
                    if v:
                        e[s["var"]["id"]] = (("elem", strip(s["range"])),)
            # exchanging the two columns of every element exchanges the list
            sw = [x for x in walk(body) if x["k"] == "call" and x.get("fn") == "std::swap"]
            for x in sw:
                t = [strip(a) for a in x["a"]]
                idx = [const_int(y["a"][1]) if y["k"] == "call" and y.get("op") == "[]" else None for y in t]
                if sorted(i for i in idx if i is not None) == [0, 1]:
                    for e, m in sts:
                        for d in (e, m):
                            for kk, v in list(d.items()):
                                if v and v[0][0] == "list":
                                    d[kk] = (("list", "swapped" if v[0][1] == "keep" else "keep"),)
            return sts
        if k == "decl":
            for d in s["d"]:
                if d.get("k") == "var" and d.get("init") is not None:
                    for e, m in sts:
                        v = value(d["init"], e, m)
                        if v:
                            e[d["id"]] = v
            return sts
        for e, m in sts:
            effect(s, e, m)
        return sts
    return stmt(f["body"], states)


def effect(s, e, m):
    s = strip(s)
    if s["k"] == "call" and s.get("fn") == "std::swap" and len(s["a"]) == 2:
        a, b = strip(s["a"][0]), strip(s["a"][1])
        va, vb = value(a, e, m), value(b, e, m)
        put(a, vb, e, m)
        put(b, va, e, m)
    elif s["k"] == "bin" and s["op"] == "=":
        put(strip(s["x"]), value(s["y"], e, m), e, m)
    elif s["k"] == "call" and s.get("op") == "=":
        put(strip(s["a"][0]), value(s["a"][1], e, m), e, m)
    elif s["k"] == "call" and short(s) == "swap" and s.get("o") and len(s["a"]) == 1:
        a, b = strip(s["o"]), strip(s["a"][0])
        va, vb = value(a, e, m), value(b, e, m)
        put(a, vb, e, m)
        put(b, va, e, m)


def put(x, v, e, m):
    if x["k"] == "ref" and "id" in x:
        e[x["id"]] = v
    elif x["k"] == "mem":
        m[x["n"]] = v


def value(x, e, m):
    x = strip(x)
    if x["k"] == "ctor" and len(x["a"]) == 1:
        return value(x["a"][0], e, m)
    if x["k"] == "ref" and "id" in x:
        return e.get(x["id"])
    if x["k"] == "mem" and (not x.get("b") or x["b"]["k"] == "this"):
        return m.get(x["n"])
    if x["k"] == "call" and x.get("op") == "[]":
        b = value(x["a"][0], e, m)
        i = const_int(x["a"][1])
        if b and b[0][0] == "list" and i is not None:
            return (("row", i, b[0][1]),)
        if b and b[0][0] == "row" and i is not None:
            return (("proj", i if b[0][2] == "keep" else 1 - i),)
    return None


# ------------------------------------------------------------------ declared orders
# what the computation of an operation guarantees: alternatives of its declared order that are justified
ALLOWED = {
    "Sort": ["cols:_sortCol"], "Join": ["cols:_leftJoinCol", "cols:(2 + _rightJoinCol)"],
    "OptionalJoin": ["map:_joinColumns[0]"], "MultiColumnJoin": ["map:_joinColumns[0]"],
    "Minus": ["child:_left"], "Filter": ["child:_subtree"], "Distinct": ["child:_subtree"], "Bind": ["child:_subtree"],
    "HasPredicateScan": ["cols:0", "child:_subtree"], "OrderBy": ["map:_sortIndices.first"],
    "TwoColumnJoin": ["cols:_jc1Left,_jc2Left", "cols:_jc1Right,_jc2Right", "cols:_jc1Left", "cols:_jc1Right"],
    "GroupBy": ["map:_groupByVariables"], "TransitivePath": ["cols:0", "cols:1"],
    "IndexScan": ["cols:0", "cols:0,1", "cols:0,1,2"],
    "Union": [], "Values": [], "CountAvailablePredicates": [],
    "TextOperationWithFilter": ["cols:0"], "TextOperationWithoutFilter": ["cols:0"],
}


def forms(prog, f):
    """Alternatives [(form, guards, node)] of the columns a function returns."""
    F = Fn(prog, f)
    out = []
    for n in walk(f["body"]):
        if n["k"] != "ret" or not n.get("e"):
            continue
        out += ret_forms(prog, F, n["e"], n)
    return F, out


def ret_forms(prog, F, e, use):
    els = list_elems(e)
    e = strip(e)
    g = F.guards(use)
    if els is not None:
        return [("cols:" + ",".join(norm(F.text(x)) for x in els), g, use)] if els else [("empty", g, use)]
    if e["k"] == "cond":
        return [(a, gg + [(e["c"], True, e)], n) for a, gg, n in ret_forms(prog, F, e["x"], use)] + \
               [(a, gg + [(e["c"], False, e)], n) for a, gg, n in ret_forms(prog, F, e["y"], use)]
    t = sorted_of(F, e)
    if t is not None:
        return [("child:" + pathtext(t).replace("this.", ""), g, use)]
    if e["k"] == "ref" and e.get("id") in F.vars:
        d = F.vars[e["id"]]
        p = F.path(e)
        pushes = [n for n in walk(F.f["body"]) if n["k"] == "call" and short(n) in ("push_back", "emplace_back", "insert") and n.get("o") and F.path(n["o"]) == p]
        out = []
        if e["id"] in F.assign:
            for r, n in F.assign[e["id"]]:
                out += ret_forms(prog, F, r, n)
        for n in pushes:
            lp = next((a for a in F.ancestors(n) if a["k"] in ("for", "rfor", "while")), None)
            v = strip(n["a"][0])
            while v["k"] == "ref" and v.get("id") in F.vars and F.single(v["id"]) is not None:
                v = strip(F.single(v["id"]))
            m = elem(F, v, lp) if lp is not None else None
            if m is None and lp is not None and lp["k"] == "rfor" and any(x["k"] == "ref" and x.get("id") == lp["var"]["id"] for x in walk(n["a"][0])):
                m = (F.path(lp["range"]), ())
            if m is None and lp is not None:
                for x in walk(n["a"][0]):
                    m2 = elem(F, x, lp) if x["k"] in ("call", "mem") else None
                    if m2:
                        m = (m2[0], ())
                        break
            if m:
                pr = "".join(x if x.startswith("[") else "." + x for x in m[1])
                out.append(("map:" + pathtext(m[0]).replace("this.", "") + pr, F.guards(n), n))
            else:
                out.append(("cols:" + norm(F.text(n["a"][0])), F.guards(n), n))
        stores = {}
        for n in walk(F.f["body"]):
            if n["k"] == "bin" and n["op"] == "=" and strip(n["x"])["k"] == "call" and strip(n["x"]).get("op") == "[]" and F.path(strip(n["x"])["a"][0]) == p:
                i = const_int(strip(n["x"])["a"][1])
                key = tuple((id(c), pl) for c, pl, _ in F.guards(n))
                stores.setdefault(key, {})[i] = (norm(F.text(n["y"])), n)
        if stores and not pushes:
            base = stores.pop((), {}) if len(stores) > 1 else {}
            for key, st in stores.items():
                st = {**base, **st}
                if None in st or sorted(st) != list(range(len(st))):
                    return [("unknown:" + show(e)[:60], g, use)]
                n = max((x[1] for x in st.values()), key=lambda x: F.order[id(x)])
                out.append(("cols:" + ",".join(st[i][0] for i in sorted(st)), F.guards(n), n))
            return out
        if not pushes and d.get("init") is not None and e["id"] not in F.assign:
            return ret_forms(prog, F, d["init"], use)
        return out or [("empty", g, use)]
    if e["k"] == "call" and e.get("fk") and prog.fn(e["fk"]) and prog.fn(e["fk"]).get("body") and prog.fn(e["fk"])["file"].startswith("src/engine"):
        h = prog.fn(e["fk"])
        return forms(prog, h)[1]
    return [("unknown:" + show(e)[:60], g, use)]


def norm(t):
    return t.replace("this.", "").replace("(_rightJoinCol + 2)", "(2 + _rightJoinCol)")


def declared(prog, rep):
    virt = [m["fk"] for m in prog.record("Operation")["methods"] if m["n"] == "resultSortedOn"][0]
    for k in prog.overriders(virt):
        f = prog.fn(k)
        cls = f["cls"]
        F, fs = forms(prog, f)
        for a, g, n in fs:
            rep.inst("declared", "%s declares %s" % (cls, a))
            if a == "empty":
                continue
            if cls not in ALLOWED:
                rep.viol("declared", cls, loc(f, n), "%s declares the order %s, but nothing is known about the order it produces" % (cls, a))
            elif a not in ALLOWED[cls]:
                rep.viol("declared", "%s %s" % (cls, a), loc(f, n), "%s declares its result as sorted on %s; its computation guarantees %s" %
                         (cls, a, " or ".join(ALLOWED[cls]) or "no order"))
            why = condition(prog, F, cls, a, g, n)
            if why:
                rep.viol("declared", "%s %s condition" % (cls, a), loc(f, n), why)


def condition(prog, F, cls, a, g, n):
    """Conditions under which the declared order is real."""
    cj = [x for c, p, _ in g for x in unfold(F, c, p)]
    txt = [(show(e), p) for e, p in cj]
    if cls == "OrderBy" and a.startswith("map"):
        lp = next((x for x in F.ancestors(n) if x["k"] in ("for", "rfor", "while")), None)
        asc = any(e["k"] == "mem" and e["n"] == "second" and not p for e, p in cj)
        if not asc:
            return "OrderBy declares descending columns as sorted"
        stops = any(x["k"] == "if" and any(y["k"] == "mem" and y["n"] == "second" for y in walk(x["c"])) and
                    any(y["k"] in ("break", "ret") for y in walk(x)) for x in walk(lp["body"])) or \
            (lp.get("c") is not None and any(y["k"] == "mem" and y["n"] == "second" for y in walk(lp["c"])))
        if not stops:
            return "OrderBy declares columns after a descending one as sorted, although they are sorted only where that column is equal"
    if cls == "Join":
        dummy = [(e, p) for e, p in cj if e["k"] == "call" and "Dummy" in show(e)]
        left = any(("_left" in show(e)) and not p for e, p in dummy)
        leftd = any(("_left" in show(e)) and p for e, p in dummy)
        if a == "cols:_leftJoinCol" and not left:
            return "Join declares the order of its left column although the left side may be the full index scan"
        if a != "cols:_leftJoinCol" and not leftd:
            return "Join declares the order of its right column although the left side is not the full index scan"
    if cls == "TransitivePath":
        ats = set()
        for c, p, _ in g:
            ats |= atoms(prog, F, c, p)
        eqs = {(pathtext(x[1]).replace("this.", ""), x[3].replace("this.", "")) for x in ats if x[0] == "eq" and x[2] == "0"}
        if a == "cols:0" and not ({("_leftSideTree", "_leftSideCol"), ("_subtree", "_leftSubCol")} & eqs):
            return "TransitivePath declares its left column as sorted without a test that its input is sorted on the left column"
        if a == "cols:0" and ("_leftSideTree", "_leftSideCol") not in eqs:
            need = {"_leftSideTree": "bound on the left", "_rightSideTree": "bound on the right", "_leftIsVar": "with a fixed left side", "_rightIsVar": "with a fixed right side"}
            have = " ".join(t for t, _ in txt)
            for v, w in need.items():
                if v not in have:
                    return "TransitivePath declares the order of its unbound computation although it may be %s" % w
        if a == "cols:1" and ("_rightSideTree", "_rightSideCol") not in eqs:
            return "TransitivePath declares its right column as sorted without a test that its right input is sorted on it"
    if cls == "HasPredicateScan":
        return None
    return None


def result_order(prog, rep):
    """computeResult and its helpers note the declared order."""
    virt = [m["fk"] for m in prog.record("Operation")["methods"] if m["n"] == "resultSortedOn"][0]
    for k in prog.overriders(virt):
        cls = prog.fn(k)["cls"]
        allowed = set(ALLOWED.get(cls, [])) | {"empty"}
        for m in prog.record(cls)["methods"]:
            f = prog.fn(m["fk"])
            if not f or not f.get("body"):
                continue
            F = None
            for n in walk(f["body"]):
                if n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0])["k"] == "mem" and strip(n["a"][0])["n"] == "_sortedBy":
                    F = F or Fn(prog, f)
                    for a, g, _ in ret_forms(prog, F, n["a"][1], n):
                        rep.inst("result-order", "%s: %s at %s" % (f["qn"], a, loc(f, n)))
                        if a in allowed or a == "child:" or a.startswith("child:") and a[6:] in ("", "this"):
                            continue
                        if a.startswith("cols:") and cls in ("TwoColumnJoin", "TransitivePath"):
                            continue
                        if a.startswith("child:") and a in allowed:
                            continue
                        if a.startswith("unknown") and "_sortedBy" in a:
                            continue
                        rep.viol("result-order", "%s %s" % (f["qn"], a), loc(f, n), "%s notes the order %s in its result, which is not the order %s guarantees" % (f["qn"], a, cls))


def fresh(prog, rep):
    """A copy of an operation whose order-relevant members are changed gets its order recomputed."""
    virt = [m["fk"] for m in prog.record("Operation")["methods"] if m["n"] == "resultSortedOn"][0]
    for k in prog.overriders(virt):
        f = prog.fn(k)
        cls = f["cls"]
        reads = {x["n"] for x in walk(f["body"]) if x["k"] == "mem" and (not x.get("b") or strip(x["b"])["k"] == "this")}
        for m in prog.record(cls)["methods"]:
            h = prog.fn(m["fk"])
            if not h or not h.get("body") or h.get("ctor"):
                continue
            for d in walk(h["body"]):
                if d["k"] != "var" or d.get("init") is None:
                    continue
                mk = made(strip(d["init"]))
                copy = mk and mk[0] == cls and len(mk[1]) == 1 and any(x["k"] == "this" for x in walk(mk[1][0])) or \
                    strip(d["init"])["k"] in ("ctor", "un") and any(x["k"] == "this" for x in walk(d["init"])) and d.get("t", "").endswith(cls)
                if not copy:
                    continue
                w = [n for n in walk(h["body"]) for x in [strip(n["x"]) if n["k"] == "bin" and n["op"] == "=" else strip(n["a"][0]) if n["k"] == "call" and n.get("op") == "=" else None]
                     if x is not None and x["k"] == "mem" and x["n"] in reads and x.get("b") and any(y["k"] == "ref" and y.get("id") == d["id"] for y in walk(x["b"]))]
                if not w:
                    continue
                rep.inst("fresh-order", "%s changes a copy of %s" % (h["qn"], cls))
                last = max(n.get("l", 0) for n in w)
                ok = any(n["k"] == "call" and short(n) == "setResultSortedOn" and n.get("o") and
                         any(y["k"] == "ref" and y.get("id") == d["id"] for y in walk(n["o"])) and n.get("l", 0) >= last for n in walk(h["body"]))
                if not ok:
                    rep.viol("fresh-order", "%s" % h["qn"], loc(h, w[-1]), "%s changes a copy of an operation (%s) that may have inherited the remembered order of the original" %
                             (h["qn"], show(w[-1])[:60]))


def bounds(prog, rep):
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b"esultSortedOn" not in raw:
            continue
        f = prog.fn(k)
        if not f.get("body") or not f["file"].startswith("src/engine/"):
            continue
        F = Fn(prog, f)
        for n in walk(f["body"]):
            s = sorted_elem(F, n) if n["k"] == "call" else None
            if not s:
                continue
            rep.inst("bounds", "%s: %s at %s" % (f["qn"], show(n), loc(f, n)))
            t = s[0]
            ok = False
            gs = list(F.guards(n))
            # the statement the element occurs in may be controlled by a flag that was computed from the length
            exprs = [c for c, p, _ in gs]
            seen = set()
            while exprs:
                e = exprs.pop()
                for x in walk(e):
                    if x["k"] == "call" and short(x) in ("size", "empty") and x.get("o") and sorted_of(F, x["o"]) == t:
                        ok = True
                    if x["k"] == "ref" and x.get("id") in F.vars and x["id"] not in seen and "bool" in F.vars[x["id"]].get("t", ""):
                        seen.add(x["id"])
                        d = F.vars[x["id"]]
                        exprs += ([d["init"]] if d.get("init") is not None else []) + [r for r, _ in F.assign.get(x["id"], [])]
            for a in F.ancestors(n):
                if a["k"] in ("call", "gen") and "CHECK" in show(a)[:20]:
                    ok = True
            if not ok:
                # an assertion about the length earlier in the function
                for x in walk(f["body"]):
                    if x["k"] == "if" and leaves(x["x"]) and any(y["k"] == "call" and short(y) in ("size", "empty") and y.get("o") and sorted_of(F, y["o"]) == t for y in walk(x["c"])) \
                            and F.order[id(x)] < F.order[id(n)]:
                        ok = True
            if not ok:
                rep.viol("bounds", "%s %s" % (f["qn"], show(n)), loc(f, n), "%s reads %s without having tested that the declared order is that long" % (f["qn"], show(n)))


def sort_ops(prog, rep):
    """Engine::sort gets the column / comparator built from the members of Sort and OrderBy."""
    for cls, mem in (("Sort", "_sortCol"), ("OrderBy", "_sortIndices")):
        fs = [f for f in prog.fns("%s::computeResult" % cls) if f.get("body")]
        if not fs:
            raise AnalysisError("anchor vanished: %s::computeResult" % cls)
        f = fs[0]
        calls = [n for n in walk(f["body"]) if n["k"] == "call" and "sort" in short(n).lower() and "Engine" in n.get("fn", "") or
                 n["k"] == "call" and n.get("fn") in ("std::sort", "std::stable_sort")]
        rep.inst("sort-order", "%s: %d sort calls" % (f["qn"], len(calls)))
        if not calls:
            # reached through the fixed-size dispatch; look for the member anywhere
            pass
        if not any(x["k"] == "mem" and x["n"] == mem for x in walk(f["body"])):
            rep.viol("sort-order", cls, loc(f), "%s does not use the columns it was given (%s)" % (f["qn"], mem))


run("C06", check, explanation="For every construction of an order-sensitive operation all possible values of its input trees are determined from the definitions that reach "
    "the construction; each must be a sort on the required columns or be guarded by a comparison of its declared order with them. Declared orders are compared with what the "
    "computations guarantee.")
