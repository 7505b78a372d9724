"""C07: the six triple orders and all scans on them agree about the positions of subject, predicate and object."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, AnalysisError
from place import Fn, pathtext
from peval import Spec, Env
import order

NAMES = "SPO"


def pos(name):
    """Position 0 (subject), 1 (predicate), 2 (object) a name stands for."""
    n = name.lstrip("_").lower()
    for i, (full, one) in enumerate((("sub", "s"), ("pred", "p"), ("obj", "o"))):
        if n.startswith(full) or n == one:
            return i
    return None


def ints(e):
    return [n["v"] for n in walk(e) if n["k"] == "int"] if e is not None else []


def word(o):
    return "".join(NAMES[i] for i in o)


def check(prog, rep):
    rep.rule("orders", "comparator, key order, name and file suffix of a triple order say the same, and no two orders share a file", 6)
    rep.rule("build", "orders are built in pairs that differ in the last two positions, sorted and split by the key order of the first", 5)
    rep.rule("load", "every order that is declared is written by the builder and opened by the server", 6)
    rep.rule("scan", "a scan reads the order whose leading positions are its bound values, in that sequence", 9)
    rep.rule("shape", "width, columns, types and order of a scan belong to the remaining positions", 15)
    rep.rule("columns", "the variables of a scan are assigned to columns in the sequence of its order", 9)
    rep.rule("statistics", "size estimates and multiplicities of a scan are taken from the same position or order", 15)
    rep.rule("full-scan", "a join with a full index scan reads the order named by the scan and writes its columns where they are announced", 6)
    rep.rule("seed", "the planner gives a scan the parts of its triple at their positions and picks a scan type whose bound positions are bound", 15)
    rep.rule("cardinality", "the number of triples of a subject, predicate or object is read from an order that starts with it", 3)
    P = rep.part(orders, prog, rep)
    if P:
        rep.part(build, prog, rep, P)
        rep.part(switched, prog, rep)
        rep.part(unique, prog, rep, P)
        T = rep.part(scans, prog, rep, P)
        rep.part(cardinality, prog, rep, P)
        if T:
            rep.part(full, prog, rep, P, T)
            rep.part(seed, prog, rep, P, T)


def orders(prog, rep):
    P = {}
    files = {}
    for f in prog.record("Index")["fields"]:
        m = re.match(r"Permutation::PermutationImpl<(\w+)", f["t"])
        if not m:
            continue
        init = f.get("init")
        if not init:
            raise AnalysisError("anchor vanished: no initialiser of Index::%s" % f["n"])
        strs = [n["v"] for n in walk(init) if n["k"] == "str"]
        lists = [n for n in walk(init) if n["k"] == "list" and len(ints(n)) == 3]
        where = "src/index/Index.h:%d" % f["l"]
        if not lists or len(strs) < 2:
            raise AnalysisError("%s: cannot read the properties of Index::%s" % (where, f["n"]))
        key = ints(lists[0])
        comp = [g for g in prog.fns("%s::operator()" % m.group(1)) if g.get("body")]
        if not comp:
            raise AnalysisError("anchor vanished: %s::operator()" % m.group(1))
        seq, why = order.lexicographic(prog, comp[0])
        rep.inst("orders", "%s: comparator %s sorts by %s, key order %s, name %s, suffix %s" % (f["n"], m.group(1), seq, key, strs[0], strs[1]))
        if seq is None:
            rep.viol("orders", "%s comparator" % f["n"], loc(comp[0]), "%s is not a comparison of the three positions one after the other: %s" % (comp[0]["qn"], why))
        else:
            if sorted(key) != [0, 1, 2] or seq != key:
                rep.viol("orders", "%s key order" % f["n"], where, "Index::%s is sorted by %s (%s) but announced and written as %s" %
                         (f["n"], word(seq), m.group(1), word(key) if sorted(key) == [0, 1, 2] else key))
        if sorted(key) == [0, 1, 2]:
            if sorted(strs[0].upper()) == sorted(NAMES) and strs[0].upper() != word(key):
                rep.viol("orders", "%s name" % f["n"], where, "Index::%s is called %s but has the order %s" % (f["n"], strs[0], word(key)))
            if strs[1] in files:
                rep.viol("orders", "%s file" % f["n"], where, "Index::%s and Index::%s are stored in the same file (suffix %s)" % (f["n"], files[strs[1]], strs[1]))
            if word(key) in [word(p) for p in P.values()]:
                rep.viol("orders", "%s twice" % f["n"], where, "two orders are both %s" % word(key))
        files[strs[1]] = f["n"]
        P[f["n"]] = key
    if len(P) < 6:
        raise AnalysisError("anchor vanished: %d of 6 triple orders found" % len(P))
    return P


def perm_of(spec, e, env, P):
    n, _ = spec.resolve(e, env)
    return perm(n, P)


def perm(n, P, prog=None):
    n = strip(n)
    while n["k"] == "un" and n["op"] in ("&", "*"):
        n = strip(n["x"])
    if n["k"] == "mem" and n["n"] in P:
        return n["n"]
    if n["k"] == "call" and "_" + short(n) in P:
        return "_" + short(n)
    return None


def build(prog, rep, P):
    written, opened = set(), set()
    builder = None
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b'"_PSO"' not in raw and b'"_SPO"' not in raw:
            continue
        f = prog.fn(k)
        if not f.get("body") or not f["file"].startswith("src/index/"):
            continue
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) == "createPermutationPair":
                ps = [perm(a, P) for a in n["a"] if perm(a, P)]
                if len(ps) != 2:
                    continue
                builder = n["fk"]
                if f["cls"] == "Index":
                    key = (f["qn"], tuple(ps))
                    rep.inst("build", "%s builds %s and %s" % (f["qn"], ps[0], ps[1]))
                    a, b = P[ps[0]], P[ps[1]]
                    if [a[0], a[2], a[1]] != b:
                        rep.viol("build", "pair %s %s" % tuple(ps), loc(f, n), "%s derives the order %s from %s by exchanging the last two positions, which gives %s" %
                                 (f["qn"], word(b), word(a), word([a[0], a[2], a[1]])))
                    bools = [x for x in n["a"] if strip(x).get("t", "bool") in ("bool", "const bool") or strip(x)["k"] == "bool"]
                    written |= set(ps)
                    pats = [x for x in n["a"] if any(y["k"] == "mem" and "attern" in y["n"] for y in walk(x))]
                    if pats and P[ps[0]] != [0, 1, 2]:
                        rep.viol("build", "patterns", loc(f, n), "the patterns are built from triples that are sorted by %s, not by subject" % word(P[ps[0]]))
            if n["k"] == "call" and short(n) == "loadFromDisk" and n.get("o") and perm(n["o"], P):
                opened.add(perm(n["o"], P))
    for p in sorted(P):
        rep.inst("load", p)
        if p not in written:
            rep.viol("load", "%s written" % p, "src/index/Index.cpp", "the index builder never writes the order %s" % p)
        if p not in opened:
            rep.viol("load", "%s opened" % p, "src/index/Index.cpp", "the server never opens the order %s" % p)
    # the functions that build a pair
    for f in prog.fns("Index::createPermutations"):
        if not f.get("body"):
            continue
        F = Fn(prog, f)
        perms = [p for p in f["params"] if "PermutationImpl" in p["t"]]
        sorts = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "sort"]
        rep.inst("build", "%s sorts" % f["key"][:80])
        for n in sorts:
            roots = [x for a in n["a"] for x in walk(a) if x["k"] == "ref" and any(x.get("id") == p["id"] for p in perms)]
            if not any(x["id"] == perms[0]["id"] for x in roots):
                rep.viol("build", "sort", loc(f, n), "%s sorts the triples by the comparator of %s instead of the first order" % (f["qn"], roots[0]["n"] if roots else "something else"))
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) == "createPermutationPairImpl":
                if not sorts or F.order[id(sorts[0])] > F.order[id(n)]:
                    rep.viol("build", "sort first", loc(f, n), "%s writes the orders before the triples are sorted" % f["qn"])
                key = [F.path(a) for a in n["a"] if "_keyOrder" in show(a)]
                want = [(perms[0]["n"], "_keyOrder[%d]" % i) for i in range(3)]
                got = [pathtext(p) for p in key]
                if got != ["%s._keyOrder[%d]" % (perms[0]["n"], i) for i in range(3)]:
                    rep.viol("build", "key order", loc(f, n), "%s hands over the key order %s" % (f["qn"], ", ".join(got)))
                suf = [x["b"]["n"] for a in n["a"] for x in walk(a) if x["k"] == "mem" and x["n"] == "_fileSuffix" and x["b"]["k"] == "ref"]
                if suf != [p["n"] for p in perms]:
                    rep.viol("build", "files", loc(f, n), "%s writes the two orders to the files of %s" % (f["qn"], ", ".join(suf)))
        break
    for f in prog.fns("Index::createPermutationPairImpl"):
        if not f.get("body"):
            continue
        rep.inst("build", f["key"][:80])
        c = [p for p in f["params"] if re.match(r"(const )?(unsigned long|size_t)", p["t"])]
        if len(c) != 3:
            raise AnalysisError("%s: expected the three positions as parameters" % f["qn"])
        ids = [p["id"] for p in c]

        def col(e):
            e = strip(e)
            if e["k"] == "call" and e.get("op") == "[]" and len(e["a"]) == 2:
                i = strip(e["a"][1])
                if i["k"] == "ref" and i.get("id") in ids:
                    return ids.index(i["id"])
            return None
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) in ("push_back", "emplace_back") and n["a"]:
                cols = [col(x) for x in walk(n["a"][0]) if col(x) is not None]
                if cols and cols != [1, 2]:
                    rep.viol("build", "pairs", loc(f, n), "%s writes the pairs (%s) of a relation instead of (second, third)" % (f["qn"], ", ".join("position %d" % (x + 1) for x in cols)))
            if n["k"] == "var" and n["n"].lower().endswith("rel") and n.get("init") is not None and col(n["init"]) not in (None, 0):
                rep.viol("build", "relation", loc(f, n), "%s takes relations from position %d" % (f["qn"], col(n["init"]) + 1))
            if n["k"] == "bin" and n["op"] in ("!=", "=", "=="):
                for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                    o = strip(b)
                    if col(a) is not None and o["k"] == "ref":
                        want = 0 if "el" in o["n"] and "Lhs" not in o["n"] else 1
                        if col(a) != want:
                            rep.viol("build", "boundary", loc(f, n), "%s compares %s with position %d" % (f["qn"], o["n"], col(a) + 1))
        # everything numbered 1 goes together, everything numbered 2 goes together
        for n in walk(f["body"]):
            if n["k"] == "call" and not n.get("op") or n["k"] == "var" and n.get("init") is not None:
                nums = set()
                for x in walk(n):
                    if x["k"] == "ref" and re.search(r"[a-z](\d)$", x.get("n", "")) and not re.match(r"c\d", x["n"]) and "istinct" not in x["n"]:
                        nums.add(x["n"][-1])
                if n["k"] == "var" and re.search(r"[a-z](\d)$", n["n"]) and nums and "istinct" not in n["n"]:
                    nums.add(n["n"][-1])
                if len(nums) > 1 and short(n) not in ("make_pair", "make_tuple") if n["k"] == "call" else len(nums) > 1:
                    rep.viol("build", "mixed %s" % (short(n) if n["k"] == "call" else n["n"]), loc(f, n), "%s mixes the first and the second order: %s" % (f["qn"], show(n)[:100]))
        break
    for f in prog.fns("Index::createPermutationPair"):
        if not f.get("body"):
            continue
        perms = [p for p in f["params"] if "PermutationImpl" in p["t"]]
        sufs = []
        rep.inst("build", f["key"][:80])
        F = Fn(prog, f)
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) == "appendToFile" and n.get("o") is not None:
                which = [x["n"] for x in walk(n["o"]) if x["k"] == "mem" and x["n"] in ("first", "second")]
                fid = [x for a in n["a"] for x in walk(a) if x["k"] == "ref" and x.get("id") in F.vars]
                if which and fid:
                    d = F.vars[fid[0]["id"]]
                    s = [x["b"]["n"] for x in walk(d["init"]) if x["k"] == "mem" and x["n"] == "_fileSuffix" and x["b"]["k"] == "ref"] if d.get("init") is not None else []
                    want = perms[0]["n"] if which[0] == "first" else perms[1]["n"]
                    if s and s[0] != want:
                        rep.viol("build", "meta %s" % which[0], loc(f, n), "%s writes the metadata of the %s order to the file of the other one" % (f["qn"], which[0]))
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) == "createPermutations":
                a = [x["n"] for y in n["a"] for x in [strip(y)] if x["k"] == "ref" and any(x.get("id") == p["id"] for p in perms)]
                if a != [p["n"] for p in perms]:
                    rep.viol("build", "exchanged", loc(f, n), "%s hands the two orders over in the sequence %s" % (f["qn"], ", ".join(a)))
        break


def switched(prog, rep):
    """The second order of a pair: every pair of a relation is exchanged and the relation sorted again before it is written."""
    fs = [f for f in prog.fns("Index::writeSwitchedRel") if f.get("body")]
    if not fs:
        raise AnalysisError("anchor vanished: Index::writeSwitchedRel")
    f = fs[0]
    F = Fn(prog, f)
    rep.inst("build", f["qn"])
    swaps = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("swap", "iter_swap", "reverse")]
    sorts = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("sort", "stable_sort")]
    wr = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "writeRel"]
    if not wr or not swaps:
        raise AnalysisError("%s: cannot find the exchange of the columns or the writing" % f["qn"])
    if not sorts:
        rep.viol("build", "switched unsorted", loc(f), "%s writes the exchanged pairs without sorting them" % f["qn"])
        return
    for s in sorts:
        if F.guards(s) or F.order[id(s)] < max(F.order[id(x)] for x in swaps) or F.order[id(s)] > F.order[id(wr[0])]:
            rep.viol("build", "switched order", loc(f, s), "%s does not always sort the exchanged pairs between the exchange and the writing" % f["qn"])
        lam = [x for a in s["a"] for x in walk(a) if x["k"] == "lambda"]
        for x in lam[:1]:
            g = prog.fn(x["fk"]) if x.get("fk") else x
            if g and g.get("body") and g.get("params"):
                seq, why = order.lexicographic(prog, g)
                if seq != [0, 1]:
                    rep.viol("build", "switched comparison", loc(f, s), "%s sorts the exchanged pairs by %s" % (f["qn"], seq if seq else "something that is not their lexicographic order"))
    for s in swaps:
        for c, pol, _ in F.guards(s):
            rep.viol("build", "switched some", loc(f, s), "%s exchanges only some of the pairs: %s" % (f["qn"], show(c)[:60]))


def unique(prog, rep, P):
    """Duplicates are removed from the triples before the first order is written."""
    for f in prog.fns("Index::createFromFile"):
        if not f.get("body"):
            continue
        calls = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "createPermutationPair"]
        if not calls:
            continue
        rep.inst("build", "duplicates: %s" % f["key"][:80])
        n = calls[0]
        g = prog.fn(n["fk"])
        flags = [i for i, p in enumerate(g["params"]) if p["t"] == "bool"]
        used = [i for i in flags if any(x["k"] == "call" and short(x) == "createPermutations" and any(y["k"] == "ref" and y.get("id") == g["params"][i]["id"] for a in x["a"] for y in walk(a))
                                        for x in walk(g["body"]))]
        for i in used:
            v = strip(n["a"][i])
            while v["k"] == "defarg" and v.get("e") is not None:
                v = strip(v["e"])
            if v["k"] == "bool" and not v["v"]:
                rep.viol("build", "duplicates", loc(f, n), "%s does not remove duplicate triples before the first pair of orders is written" % f["qn"])
    for f in prog.fns("Index::createPermutations"):
        if not f.get("body"):
            continue
        F = Fn(prog, f)
        rep.inst("build", "duplicates: %s" % f["key"][:80])
        u = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("unique", "unique_copy")]
        s = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "sort"]
        w = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "createPermutationPairImpl"]
        r = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("resize", "erase")]
        if not u or not r:
            rep.viol("build", "duplicates removed", loc(f), "%s never removes duplicate triples" % f["qn"])
        elif s and w and not (F.order[id(s[0])] < F.order[id(u[0])] < F.order[id(w[0])]):
            rep.viol("build", "duplicates sorted", loc(f, u[0]), "%s removes duplicates from triples that are not sorted yet or already written" % f["qn"])
        break


def scans(prog, rep, P):
    types = prog.enum("IndexScan::ScanType")["e"]
    rec = prog.record("IndexScan")
    tf = [f["n"] for f in rec["fields"] if "ScanType" in f["t"]]
    if not tf:
        raise AnalysisError("anchor vanished: IndexScan has no scan type")
    R = {}
    posf = {f["n"]: pos(f["n"]) for f in rec["fields"] if pos(f["n"]) is not None and "string" in f["t"]}
    if len(set(posf.values())) != 3:
        raise AnalysisError("anchor vanished: members of IndexScan for subject, predicate and object")

    def method(name):
        m = [prog.fn(x["fk"]) for x in rec["methods"] if x["n"] == name]
        m = [x for x in m if x and x.get("body")]
        if not m:
            raise AnalysisError("anchor vanished: IndexScan::%s" % name)
        return m[0]
    for name, v in types:
        sp = Spec(prog, "IndexScan", {tf[0]: v})
        # what is read
        keys = cols = sorted_by = pm = None
        f = method("computeResult")
        typs = 0
        found = []
        for p in sp.paths(f):
            kc = None
            for n, env in p.events:
                if n["k"] == "call" and short(n) == "scan" and n.get("fn", "").startswith("Index::"):
                    ks, q = [], None
                    for a in n["a"]:
                        x, e2 = sp.resolve(a, env)
                        if x["k"] == "mem" and x["n"] in posf:
                            ks.append(posf[x["n"]])
                        elif perm(x, P):
                            q = perm(x, P)
                    found.append((tuple(ks), q, n))
                if n["k"] == "call" and short(n) == "setCols" and n["a"]:
                    cols = sp.const(n["a"][0], env)
                if n["k"] == "call" and short(n) in ("push_back", "emplace_back") and n.get("o") and "_resultTypes" in show(n["o"]):
                    typs += 1
                if n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0])["k"] == "mem" and strip(n["a"][0])["n"] == "_sortedBy":
                    sorted_by = ints(n["a"][1])
        width = sp.const(dict(k="call", fn="IndexScan::getResultWidth", fk=method("getResultWidth")["key"], a=[], o=dict(k="this")), Env())
        s_on = [ints(p.ret[0]) for p in sp.paths(method("resultSortedOn")) if p.ret]
        vc = None
        for p in sp.paths(method("getVariableColumns")):
            seq = []
            for n, env in p.events:
                t = None
                if n["k"] in ("bin", "call") and n.get("op") == "=":
                    t = strip(n["x"] if n["k"] == "bin" else n["a"][0])
                    t = t["a"][1] if t["k"] == "call" and t.get("op") == "[]" else None
                elif n["k"] == "call" and short(n) in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                    t = n
                if t is not None:
                    x = [y["n"] for y in walk(sp.resolve(t, env)[0]) if y["k"] == "mem" and y["n"] in posf]
                    if x:
                        seq.append(posf[x[0]])
                    else:
                        for y in walk(t):
                            z = sp.resolve(y, env)[0] if y["k"] == "ref" and "id" in y else None
                            if z is not None and z["k"] == "mem" and z["n"] in posf:
                                seq.append(posf[z["n"]])
                                break
            if seq and (vc is None or len(seq) > len(vc[0])):
                vc = (seq, p)
        full_scan = not found
        R[name] = dict(v=v, full=full_scan, width=width, vc=vc[0] if vc else None)
        if vc is None:
            raise AnalysisError("IndexScan::getVariableColumns: no columns found for %s" % name)
        if full_scan:
            rep.inst("shape", "%s: width %s, sorted on %s" % (name, width, s_on))
            if width != 3 or any(s != [0, 1, 2] for s in s_on):
                rep.viol("shape", name, loc(method("getResultWidth")), "the full scan %s has width %s and is sorted on %s" % (name, width, s_on))
        else:
            ks, q, n = found[0]
            R[name].update(keys=list(ks), perm=q)
            rep.inst("scan", "%s reads %s with the values at %s" % (name, q, word(ks)))
            if q is None:
                raise AnalysisError("%s: cannot tell which order %s reads" % (loc(f, n), name))
            for ks2, q2, n2 in found:
                if (ks2, q2) != (ks, q):
                    rep.viol("scan", "%s varies" % name, loc(f, n2), "%s reads %s or %s" % (name, q, q2))
            o = P[q]
            if not ks or list(ks) != o[:len(ks)]:
                rep.viol("scan", name, loc(f, n), "%s looks up the values of %s in the order %s, which starts with %s" % (name, word(ks), q, word(o[:max(1, len(ks))])))
            w = 3 - len(ks)
            rep.inst("shape", "%s: width %s, sorted on %s, columns set %s, types %d, noted order %s" % (name, width, s_on, cols, typs, sorted_by))
            for what, val, want in (("declared width", width, w), ("number of columns", cols, w), ("number of column types", typs, w), ("noted order", sorted_by, list(range(w)))):
                if val is not None and val != want:
                    rep.viol("shape", "%s %s" % (name, what), loc(f), "%s binds %d positions but its %s is %s" % (name, len(ks), what, val))
            for s in s_on:
                if s != list(range(w)):
                    rep.viol("shape", "%s declared order" % name, loc(method("resultSortedOn")), "%s has %d columns but declares the order %s" % (name, w, s))
            rep.inst("columns", "%s: %s" % (name, word(vc[0])))
            rest = [x for x in vc[0] if x not in ks]
            if rest != o[len(ks):]:
                rep.viol("columns", name, loc(method("getVariableColumns")), "%s reads %s but assigns its variables to columns in the sequence %s" % (name, q, word(vc[0])))
            if len(vc[0]) > w:
                # positions with a bound value must be told apart by a test
                pass
            text(prog, rep, sp, name, method("asString"), ks, posf)
            stats(prog, rep, sp, name, method, ks, q, posf, P)
    return R


def text(prog, rep, sp, name, f, ks, posf):
    got = set()
    for p in sp.paths(f):
        for n, env in p.events:
            if n["k"] == "mem" and n["n"] in posf:
                got.add(posf[n["n"]])
    missing = [k for k in ks if k not in got]
    if missing:
        rep.viol("scan", "%s text" % name, loc(f), "the cache text of %s does not contain its bound %s" % (name, word(missing)))


def stats(prog, rep, sp, name, method, ks, q, posf, P):
    for fname in ("computeSizeEstimate", "determineMultiplicities"):
        f = method(fname)
        seen = False
        for p in sp.paths(f):
            for n, env in p.events:
                if n["k"] != "call":
                    continue
                if short(n) == "sizeEstimate" and len(n["a"]) == 3:
                    seen = True
                    given = []
                    for i, a in enumerate(n["a"]):
                        x, _ = sp.resolve(a, env)
                        if x["k"] == "mem" and x["n"] in posf:
                            given.append((i, posf[x["n"]]))
                    rep.inst("statistics", "%s: size estimate for %s" % (name, [word([b]) for a, b in given]))
                    if given != [(k, k) for k in sorted(ks)]:
                        rep.viol("statistics", "%s size" % name, loc(f, n), "%s binds %s but its size is estimated from %s" %
                                 (name, word(ks), ", ".join("%s as %s" % (word([b]), word([a])) for a, b in given) or "nothing"))
                if short(n) == "getMultiplicities" and n.get("fn", "").startswith("Index::"):
                    k2 = [posf[x["n"]] for a in n["a"] for x in [sp.resolve(a, env)[0]] if x["k"] == "mem" and x["n"] in posf]
                    q2 = [perm(sp.resolve(a, env)[0], P) for a in n["a"] if perm(sp.resolve(a, env)[0], P)]
                    rep.inst("statistics", "%s: multiplicities of %s for %s" % (name, q2, word(k2)))
                    if k2 != list(ks) or q2 != [q]:
                        rep.viol("statistics", "%s multiplicities" % name, loc(f, n), "%s reads %s for %s but its multiplicities come from %s for %s" %
                                 (name, q, word(ks), ", ".join(q2), word(k2)))


def full(prog, rep, P, T):
    tv = {n: t["v"] for n, t in T.items()}
    fs = [prog.fn(m["fk"]) for m in prog.record("Join")["methods"]]
    cand = [f for f in fs if f and f.get("body") and any(n["k"] == "call" and short(n) == "getType" and "IndexScan" in n.get("fn", "") for n in walk(f["body"]))
            and any(n["k"] == "mem" and n["n"] in P for n in walk(f["body"]))]
    if not cand:
        raise AnalysisError("anchor vanished: the function of Join that chooses the order of a full scan")
    multi = [prog.fn(m["fk"]) for m in prog.record("IndexScan")["methods"] if m["n"] == "determineMultiplicities"][0]
    tf = [f["n"] for f in prog.record("IndexScan")["fields"] if "ScanType" in f["t"]][0]
    for name, t in T.items():
        if not t["full"]:
            continue
        for f in cand:
            sp = Spec(prog, "Join", {}, calls={"getType": t["v"]})
            got = set()
            for p in sp.paths(f):
                if p.end == "throw":
                    continue
                for n, env in p.events:
                    if perm(n, P):
                        got.add(perm(n, P))
            rep.inst("full-scan", "%s reads %s" % (name, ", ".join(sorted(got))))
            if len(got) != 1:
                rep.viol("full-scan", name, loc(f), "%s reads %s for the full scan %s" % (f["qn"], ", ".join(sorted(got)) or "no order", name))
                continue
            q = got.pop()
            if t["vc"] != P[q]:
                rep.viol("full-scan", name, loc(f), "%s reads %s for the full scan %s, whose columns are announced as %s" % (f["qn"], q, name, word(t["vc"])))
            t["perm"] = q
        sp = Spec(prog, "IndexScan", {tf: t["v"]})
        for p in sp.paths(multi):
            for n, env in p.events:
                if n["k"] == "call" and short(n) == "getMultiplicities":
                    q2 = [perm(sp.resolve(a, env)[0], P) for a in n["a"] if perm(sp.resolve(a, env)[0], P)]
                    rep.inst("statistics", "%s: multiplicities of %s" % (name, q2))
                    if q2 and P[q2[0]] != t["vc"]:
                        rep.viol("statistics", "%s multiplicities" % name, loc(multi, n), "the multiplicities of %s are taken from %s, its columns are %s" % (name, q2[0], word(t["vc"])))


def seed(prog, rep, P, T):
    rec = prog.record("IndexScan")
    setters = {}
    posf = {f["n"]: pos(f["n"]) for f in rec["fields"] if pos(f["n"]) is not None}
    for m in rec["methods"]:
        f = prog.fn(m["fk"])
        if f and f.get("body") and len(f["params"]) == 1 and m["n"].startswith("set"):
            for n in walk(f["body"]):
                if n["k"] == "call" and n.get("op") == "=" and strip(n["a"][0])["k"] == "mem" and strip(n["a"][0])["n"] in posf:
                    setters[m["n"]] = posf[strip(n["a"][0])["n"]]
    if len(set(setters.values())) != 3:
        raise AnalysisError("anchor vanished: the setters of IndexScan")
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b"shared_ptr<IndexScan>" not in raw:
            continue
        f = prog.fn(k)
        if not f.get("body") or not f["file"].startswith("src/engine/"):
            continue
        F = Fn(prog, f)
        for d in list(F.vars.values()):
            i = strip(d["init"]) if d.get("init") is not None else None
            if not i or i["k"] != "call" or i.get("fn") != "std::make_shared" or "IndexScan>" not in i.get("t", ""):
                continue
            ty = [strip(a) for a in i["a"] if strip(a).get("en", "").endswith("ScanType")]
            if not ty:
                continue
            name = ty[0]["n"]
            t = T.get(name)
            if t is None:
                continue
            rep.inst("seed", "%s: %s at %s" % (f["qn"], name, loc(f, i)))
            given = {}
            blk = next(a for a in F.ancestors(d) if a["k"] == "blk")
            for n in walk(blk):
                if n["k"] == "call" and short(n) in setters and n.get("o") is not None and any(x["k"] == "ref" and x.get("id") == d["id"] for x in walk(n["o"])):
                    given[setters[short(n)]] = (n["a"][0], n)
            for p0, (a, n) in given.items():
                tp = part(F, a)
                if tp is not None and tp != p0:
                    rep.viol("seed", "%s %s" % (name, NAMES[p0]), loc(f, n), "%s gives the scan %s the %s of the triple as its %s" %
                             (f["qn"], name, ("subject", "predicate", "object")[tp], ("subject", "predicate", "object")[p0]))
            # announced columns
            tree_cols = {}
            for n in walk(blk):
                if n["k"] == "call" and short(n) == "setVariableColumn" and len(n["a"]) == 2 and const_int(n["a"][1]) is not None:
                    tp = part(F, n["a"][0])
                    if tp is None and given:
                        same = [p0 for p0, (a, _) in given.items() if F.text(a) == F.text(n["a"][0])]
                        tp = same[0] if same else None
                    if tp is not None:
                        tree_cols[const_int(n["a"][1])] = (tp, n)
            if t.get("perm"):
                want = P[t["perm"]][len(t.get("keys", [])):]
                for c, (tp, n) in tree_cols.items():
                    if c >= len(want) or want[c] != tp:
                        rep.viol("seed", "%s column %d" % (name, c), loc(f, n), "%s announces the %s as column %d of the scan %s, which delivers %s" %
                                 (f["qn"], ("subject", "predicate", "object")[tp], c, name, word(want)))
            # bound positions are bound
            if t.get("keys"):
                known = {}
                for c, pol, _ in F.guards(i):
                    for e, q in literal(c, pol):
                        if e["k"] == "call" and short(e) == "isVariable" and e["a"]:
                            tp = part(F, e["a"][0])
                            if tp is not None:
                                known[tp] = q
                for p0 in t["keys"]:
                    if known.get(p0) is True:
                        rep.viol("seed", "%s bound %s" % (name, NAMES[p0]), loc(f, i), "%s uses the scan %s, which looks up the %s, for triples whose %s is a variable" %
                                 (f["qn"], name, ("subject", "predicate", "object")[p0], ("subject", "predicate", "object")[p0]))
                free = [x for x in range(3) if x not in t["keys"]]
                for p0 in free:
                    if known.get(p0) is False:
                        rep.viol("seed", "%s free %s" % (name, NAMES[p0]), loc(f, i), "%s uses the scan %s, which leaves the %s free, for triples whose %s is given" %
                                 (f["qn"], name, ("subject", "predicate", "object")[p0], ("subject", "predicate", "object")[p0]))


def literal(e, pol):
    from place import conj
    return conj(e, pol)


def part(F, e):
    """Position of a part of a triple."""
    p = F.path(e)
    for i in range(len(p) - 1, -1, -1):
        if isinstance(p[i], str) and p[i] in ("_s", "_p", "_o"):
            return "spo".index(p[i][1])
    return None


def cardinality(prog, rep, P):
    fs = [f for f in prog.fns("Index::sizeEstimate") if f.get("body")]
    if not fs:
        raise AnalysisError("anchor vanished: Index::sizeEstimate")
    f = fs[0]
    F = Fn(prog, f)
    ids = [p["id"] for p in f["params"]]
    for n in walk(f["body"]):
        if n["k"] != "call" or n.get("op") or not n.get("fk") or len(n["a"]) != 1:
            continue
        a = strip(n["a"][0])
        if a["k"] != "ref" or a.get("id") not in ids:
            continue
        i = ids.index(a["id"])
        h = prog.fn(n["fk"])
        if not h or not h.get("body"):
            continue
        ps = {perm(x, P) for x in walk(h["body"]) if perm(x, P)}
        rep.inst("cardinality", "%s of the %s reads %s" % (h["qn"], ("subject", "predicate", "object")[i], ", ".join(sorted(ps))))
        for p in ps:
            if P[p][0] != i:
                rep.viol("cardinality", h["n"], loc(h), "%s counts the triples of a %s in the order %s" % (h["qn"], ("subject", "predicate", "object")[i], p))
    # the argument that is tested as given is the one that is passed on
    for n in walk(f["body"]):
        if n["k"] == "ret" and n.get("e"):
            a = [x["id"] for x in walk(n["e"]) if x["k"] == "ref" and x.get("id") in ids]
            given, absent = set(), set()
            for c, pol, _ in F.guards(n):
                for e, q in literal(c, pol):
                    if e["k"] == "bin" and e["op"] in (">", "==", "!=") and strip(e["x"])["k"] == "call" and short(strip(e["x"])) == "size":
                        x = [y["id"] for y in walk(e["x"]) if y["k"] == "ref" and y.get("id") in ids]
                        pos_ = (e["op"] in (">", "!=")) == q
                        if x:
                            (given if pos_ else absent).add(x[0])
            for x in a:
                if x in absent:
                    rep.viol("cardinality", "dispatch", loc(f, n), "%s passes on an argument that is empty here" % f["qn"])


run("C07", check, explanation="Comparators, key orders and file names of the six triple orders are read from the source and compared; for each of the 15 scan types the statements "
    "reachable with that type are determined and what they read, announce and estimate is compared with the order they use.")
