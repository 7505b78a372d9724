"""C13: looking up what is not in the index yields nothing rather than garbage."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from cfg import Graph, Sim
from cg import CallGraph
from place import Fn, conj, leaves

ITER = ("lower_bound", "upper_bound", "find", "find_if", "equal_range")
# containers whose keys are numbered densely or fixed by the program, with the reason
DENSE = {"_nodeMap": "the nodes of a triple graph are numbered from 0 without gaps", "_factors": "every name of a factor is set by the constructor (rule factors)",
         "_varColMap": "the constructor of GroupBy enters every variable it groups by and every alias"}
PRE = {"getRmd": "relationExists", "getBlockInfoByEntityId": "existsTextBlockForEntityId"}
OUT = re.compile(r"(\bId\b|IdRange|unsigned long|size_t) ?[*&]$")


def check(prog, rep):
    rep.rule("end", "what a search returns is dereferenced only where it is known not to be the end", 50)
    rep.rule("found", "the neighbour found by a sorted search is used as the element only after it was compared with the key", 6)
    rep.rule("lookup", "the id a lookup stores is used only where the lookup succeeded", 18)
    rep.rule("exact", "a lookup succeeds only if the position is inside the structure and the element there equals the key", 2)
    rep.rule("exists", "metadata of a relation or an entity is requested only where it is known to exist", 8)
    rep.rule("bounds", "the position of an entity in a table that covers only a part of the ids is compared with the table's size before use", 12)
    rep.rule("halves", "a binary search keeps every candidate and ends", 1)
    rep.rule("factors", "every named cost factor that is requested is set", 5)
    rep.rule("loop", "a loop over the positions of a container ends before its size", 100)
    rep.rule("first", "a position is decreased only where it is not the first", 1)
    rep.rule("unbound", "a value of a result is written as number or text only where it is known to be bound", 2)
    cg = CallGraph(prog)
    fns = []
    for k in sorted(prog.all_keys()):
        if k.startswith("T:"):
            continue
        f = prog.fn(k)
        if f["file"].startswith("src/") and f.get("body"):
            fns.append(f)
    rep.part(iterators, prog, rep, fns)
    rep.part(lookups, prog, rep, fns, cg)
    rep.part(exists, prog, rep, fns, cg)
    rep.part(bounds, prog, rep, fns)
    rep.part(halves, prog, rep, fns)
    rep.part(factors, prog, rep, fns)
    rep.part(loops, prog, rep, fns)
    rep.part(unbound, prog, rep, fns)


# ---------------------------------------------------------------- facts from conditions
def rel(e):
    """(op, x, y) of a comparison, overloaded ones included."""
    if e["k"] == "bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">="):
        return e["op"], e["x"], e["y"]
    if e["k"] == "call" and e.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(e["a"]) == 2:
        return e["op"], e["a"][0], e["a"][1]
    return None


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def body_return(prog, call):
    """The returned expression of a function that consists of one return, with the parameter bindings of the call."""
    if call["k"] != "call":
        return None
    for t in prog.targets(call):
        f = prog.fn(t) if isinstance(t, str) else t
        if not f or not f.get("body"):
            continue
        ss = [s for s in f["body"].get("s", []) if s is not None and s["k"] != "nop"]
        if len(ss) == 1 and ss[0]["k"] == "ret" and ss[0].get("e"):
            return ss[0]["e"], {p["id"]: a for p, a in zip(f.get("params", []), call["a"])}
    return None


def facts(prog, c, pol, bind=None, depth=0):
    """[(expr, polarity, bindings)] implied by condition c being pol; one-line helper functions are looked into."""
    out = []
    for e, p in conj(c, pol):
        out.append((e, p, bind or {}))
        if e["k"] == "call" and not e.get("op") and depth < 3:
            b = body_return(prog, e)
            if b:
                m = {k: subst(v, bind) for k, v in b[1].items()}
                out += facts(prog, b[0], p, m, depth + 1)
    return out


def subst(e, bind):
    e = strip(e)
    while e["k"] == "ctor" and len(e["a"]) == 1:
        e = strip(e["a"][0])
    if bind and e["k"] == "ref" and e.get("id") in bind:
        return bind[e["id"]]
    return e


def txt(e, bind=None):
    e = subst(e, bind)
    if e["k"] == "bin":
        return "%s %s %s" % (txt(e["x"], bind), e["op"], txt(e["y"], bind))
    if e["k"] == "call" and e.get("o") and not e.get("op"):
        return "%s.%s(%s)" % (txt(e["o"], bind), short(e), ", ".join(txt(a, bind) for a in e["a"] if a["k"] != "defarg"))
    if e["k"] == "call" and e.get("op") in ("*", "->") and len(e["a"]) == 1:
        return "*" + txt(e["a"][0], bind)
    if e["k"] == "call" and e.get("op") in ("+", "-", "[]") and len(e["a"]) == 2:
        return "%s %s %s" % (txt(e["a"][0], bind), e["op"], txt(e["a"][1], bind))
    if e["k"] == "mem":
        b = strip(e["b"]) if e.get("b") else None
        return e["n"] if b is None or b["k"] == "this" else "%s.%s" % (txt(b, bind), e["n"])
    return show(e).replace("this->", "").replace("->", "")


def is_end(F, e, bind=None):
    e = subst(e, bind)
    if e["k"] == "call" and short(e) in ("end", "cend") and not e.get("op"):
        return True
    if e["k"] == "ref" and "id" in e:
        i = F.single(e["id"])
        return i is not None and is_end(F, i)
    return False


def lookup_of(e):
    e = strip(e)
    while e["k"] == "ctor" and len(e["a"]) == 1:
        e = strip(e["a"][0])
    if e["k"] == "call" and short(e) in ITER and "basic_string" not in e.get("fn", "") and "regex" not in e.get("fn", ""):
        t = e.get("t", "")
        if not re.search(r"^(unsigned long|size_t|Id|bool|int)$", t):
            return e
    return None


def deref(n):
    if n["k"] == "un" and n["op"] == "*":
        return strip(n["x"])
    if n["k"] == "call" and n.get("op") in ("*", "->") and len(n["a"]) == 1:
        return strip(n["a"][0])
    if n["k"] == "mem" and n.get("arrow") and n.get("b"):
        x = strip(n["b"])
        if not (x["k"] == "call" and x.get("op") == "->"):
            return x
    return None


def base_var(x):
    """Variable and text of `it`, `it + 1`."""
    y = x
    if y["k"] == "bin" and y["op"] in ("+", "-"):
        y = strip(y["x"])
    elif y["k"] == "call" and y.get("op") in ("+", "-") and len(y["a"]) == 2:
        y = strip(y["a"][0])
    return y["id"] if y["k"] == "ref" and "id" in y else None


def iterators(prog, rep, fns):
    for f in fns:
        if not any(x.encode() in prog.raw["F"][f["key"]] for x in ITER):
            continue
        F = Fn(prog, f)
        its = {}
        for v, d in F.vars.items():
            for y in [d.get("init")] + [y for y, _ in F.assign.get(v, [])]:
                if y is not None and lookup_of(y) is not None:
                    its[v] = lookup_of(y)
        done = set()
        for n in walk(f["body"]):
            x = deref(n)
            if x is None:
                continue
            v = base_var(x)
            src = its.get(v) if v is not None else lookup_of(x)
            if src is None:
                continue
            key = (n["l"], txt(x))
            where = "%s:%d" % (f["file"], n["l"])
            c = src.get("o")
            cname = c["n"] if c is not None and strip(c)["k"] == "mem" and (c := strip(c)) else None
            if key not in done:
                done.add(key)
                rep.inst("end", "%s: *%s in %s" % (where, txt(x)[:40], f["qn"]))
                if cname in DENSE:
                    continue
                if not known(prog, F, n, x, v, src) and not (src.get("o") and collected(prog, F, txt(src["o"]))):
                    rep.viol("end", "%s *%s" % (f["qn"], txt(x)[:60]), where,
                             "%s uses what %s returned (%s) without having excluded that nothing was found" % (f["qn"], short(src), txt(x)[:40]))
            if short(src) == "lower_bound" and not any(a["k"] == "lambda" for a in F.ancestors(n)):
                par = enclosing(F, n)
                if par is None:
                    rep.inst("found", "%s: *%s in %s" % (where, txt(x)[:40], f["qn"]))
                    if not compared(prog, F, n, v):
                        rep.viol("found", "%s *%s" % (f["qn"], txt(x)[:60]), where,
                                 "%s takes the element at the position found by a sorted search without comparing it with the key" % f["qn"])


def enclosing(F, n):
    """The comparison this dereference is an operand of."""
    for a in F.ancestors(n):
        if rel(a) and a["k"] in ("bin", "call"):
            return a
        if a["k"] in ("blk", "decl", "ret", "if", "while", "for", "throw") or a["k"] == "bin" and a["op"] in ("&&", "||"):
            return None
    return None


def mutations(F, v):
    for n in walk(F.f["body"]):
        if n["k"] == "un" and n["op"].lstrip("p") in ("++", "--") or n["k"] == "call" and n.get("op") in ("++", "--", "+=", "-="):
            x = strip(n["x"] if n["k"] == "un" else n["a"][0])
            if x["k"] == "ref" and x.get("id") == v:
                yield n, n["op"].lstrip("p")
    for _, n in F.assign.get(v, []):
        yield n, "="


def known(prog, F, n, x, v, src):
    t = txt(x)
    last = txt(src["a"][1]) if not src.get("o") and len(src["a"]) > 1 else None
    cont = txt(src["o"]) if src.get("o") else None
    key = txt(src["a"][0]) if src.get("o") and src["a"] else None
    muts = list(mutations(F, v)) if v is not None else []

    def stale(g):
        """Was the iterator advanced between the test and the use?"""
        o, o2 = F.order[id(g)], F.order[id(n)]
        return any(op in ("++", "+=", "=") and o < F.order[id(m)] < o2 for m, op in muts)
    for c, pol, g in F.guards(n):
        for e, p, b in facts(prog, c, pol):
            r = rel(e)
            if r:
                op, a, d = r
                op = op if p else NEG[op]
                if op == ">":
                    op, a, d = "<", d, a
                if op == "<" and txt(a, b) == t and (is_end(F, d, b) or txt(d, b) == last) and not stale(g):
                    return True
                if op == "!=":
                    for y, z in ((a, d), (d, a)):
                        if txt(y, b) == t and (is_end(F, z, b) or txt(z, b) == last) and (v is None or not stale(g)):
                            return True
                        q = lookup_of(subst(y, b))
                        if q is not None and is_end(F, z, b) and cont and txt(q["o"], b) == cont and txt(q["a"][0], b) == key:
                            return True
                if op == "==":   # at the first position, or equal to an element: not the end (a structure with blocks has at least one)
                    for y, z in ((a, d), (d, a)):
                        z = subst(z, b)
                        if txt(y, b) == t and z["k"] == "call" and short(z) in ("begin", "cbegin") and not stale(g):
                            return True
                if cont and op == "<" and is_count(subst(d, b), cont, key, b) and const_int(a) == 0:
                    return True
                if cont and op in ("!=", ">=") and is_count(subst(a, b), cont, key, b) and (const_int(d) == (1 if op == ">=" else 0)):
                    return True
                if cont and op == "==" and is_count(subst(a, b), cont, key, b) and const_int(d) == 1:
                    return True
            if cont and p and is_count(e, cont, key, b):
                return True
            if e["k"] == "call" and p and short(e) == "hasBlocks":
                return True     # the block data of a relation with blocks is stored with it (C08)
    # if (it == end) { it = insert(...); }  or  { --it; }
    for blk in F.ancestors(n):
        if blk["k"] != "blk":
            continue
        for s in blk["s"]:
            if s is None or F.inside(n, s):
                break
            if s["k"] != "if" or s.get("y") and leaves(s["y"]):
                continue
            for e, p, b in facts(prog, s["c"], False):
                r = rel(e)
                if r and (r[0] if p else NEG[r[0]]) == "!=" and any(base_var(strip(y)) == v and txt(y, b) == txt_v(F, v) and is_end(F, z, b) for y, z in ((r[1], r[2]), (r[2], r[1]))):
                    ms = [m for m, op in muts if F.inside(m, s["x"]) and op in ("=", "--")]
                    if ms or leaves(s["x"]):
                        if t == txt_v(F, v) and not any(op in ("++", "+=") and F.order[id(s)] < F.order[id(m)] < F.order[id(n)] and not guarded_step(prog, F, m, v) for m, op in muts):
                            return True
    return False


def guarded_step(prog, F, m, v):
    """++it where it + 1 is known not to be the end."""
    for c, pol, g in F.guards(m):
        for e, p, b in facts(prog, c, pol):
            r = rel(e)
            if r and (r[0] if p else NEG[r[0]]) == "!=":
                for y, z in ((r[1], r[2]), (r[2], r[1])):
                    if base_var(strip(y)) == v and txt(y, b) != txt_v(F, v) and is_end(F, z, b):
                        return True
    return False


def txt_v(F, v):
    return F.vars[v]["n"] if v in F.vars else "?"


def collected(prog, F, cont):
    """Is there a local collection that receives only keys known to be in the container?"""
    cols = {}
    for n in walk(F.f["body"]):
        c = x = None
        if n["k"] == "call" and short(n) in ("push_back", "insert", "emplace_back") and n.get("o") and n["a"]:
            c, x = strip(n["o"]), n["a"][0]
        elif n["k"] == "call" and n.get("op") == "[]" and len(n["a"]) == 2 and "ap" in strip(n["a"][0]).get("t", ""):
            c, x = strip(n["a"][0]), n["a"][1]
        if c is None or c["k"] != "ref" or c.get("id") not in F.vars:
            continue
        ok = False
        for g in F.guards(n):
            for e, p, b in facts(prog, g[0], g[1]):
                r = rel(e)
                if r and (r[0] if p else NEG[r[0]]) in (">", "!=") and const_int(r[2]) == 0:
                    e, p = strip(r[1]), True
                elif r and (r[0] if p else NEG[r[0]]) == "!=" and is_end(F, r[2], b) and lookup_of(r[1]) is not None:
                    q = lookup_of(r[1])
                    ok = ok or bool(q.get("o")) and txt(q["o"], b) == cont and txt(q["a"][0], b) == txt(x)
                if p and is_count(e, cont, txt(x), b):
                    ok = True
        cols.setdefault(c["id"], []).append(ok)
    return any(all(v) for v in cols.values())


def is_count(e, cont, key, b):
    e = strip(e)
    return e["k"] == "call" and short(e) in ("count", "contains") and e.get("o") and e["a"] and txt(e["o"], b) == cont and txt(e["a"][0], b) == key


def compared(prog, F, n, v):
    """Is the use reached only after the element was compared with something?"""
    for c, pol, g in F.guards(n):
        for e in walk(c):
            if rel(e):
                for y in rel(e)[1:]:
                    for z in walk(y):
                        x = deref(z)
                        if x is not None and base_var(x) == v:
                            return True
    # a test before that ends in changing the position or in leaving
    for blk in F.ancestors(n):
        if blk["k"] != "blk":
            continue
        for s in blk["s"]:
            if s is None or F.inside(n, s):
                break
            if s["k"] in ("if", "while"):
                for e in walk(s["c"]):
                    if rel(e) and any(deref(z) is not None and base_var(deref(z)) == v for y in rel(e)[1:] for z in walk(y)):
                        return True
    return False


# ---------------------------------------------------------------- lookups that report success
def is_lookup(prog, call):
    """Index of the output argument if the call is a lookup that reports success and stores an id."""
    if call["k"] != "call" or call.get("op") or call.get("t") != "bool":
        return None
    for t in prog.targets(call):
        f = prog.fn(t) if isinstance(t, str) else t
        if not f:
            continue
        if f.get("rt") != "bool" or not f["file"].startswith("src/") or not (f.get("cls") or "").startswith(("Vocabulary", "ExternalVocabulary", "Index")):
            continue
        for i, p in enumerate(f.get("params", [])):
            if OUT.search(p["t"]) and not p["t"].startswith("const"):
                return i
    return None


def root(e):
    """Variable (id) of &v, &v._first, v (reference argument)."""
    e = strip(e)
    if e["k"] == "un" and e["op"] == "&":
        e = strip(e["x"])
    while e["k"] == "mem" and e.get("b"):
        e = strip(e["b"])
    return e["id"] if e["k"] == "ref" and "id" in e else None


def lookups(prog, rep, fns, cg):
    names = {"getId", "getIdRangeForFullTextPrefix"}
    for f in fns:
        if f.get("rt") == "bool" and (f.get("cls") or "").startswith(("Vocabulary", "ExternalVocabulary", "Index")) and any(
                OUT.search(p["t"]) and not p["t"].startswith("const") for p in f.get("params", [])):
            names.add(f["n"])
            exact(prog, rep, f)
    serving = cg.reach([k for k in prog.all_keys() if prog.fn(k)["qn"] == "Server::process"])
    done = set()
    for f in fns:
        raw = prog.raw["F"][f["key"]]
        if not any(x.encode() in raw for x in names):
            continue
        calls = [(n, is_lookup(prog, n)) for n in walk(f["body"]) if n["k"] == "call" and short(n) in names]
        calls = [(n, i) for n, i in calls if i is not None and i < len(n["a"])]
        if not calls:
            continue
        tag = (f["file"], f["l"])
        roots = {}
        for n, i in calls:
            r = root(n["a"][i])
            if r is not None:
                roots.setdefault(r, []).append(n)
            if tag not in done:
                rep.inst("lookup", "%s:%d: %s in %s" % (f["file"], n["l"], show(n)[:60], f["qn"]))
        if tag in done:
            continue
        done.add(tag)
        F = Fn(prog, f)
        for r, cs in roots.items():
            cs2 = [n for n in cs if f["key"] in serving or not vocabulary_of_input(n)]
            if cs2 and r in F.vars:
                flow(prog, rep, f, F, r, cs2)


def vocabulary_of_input(n):
    """The builder looks up the words of the text file in the vocabulary it created from the same file."""
    o = strip(n["o"]) if n.get("o") else None
    return o is not None and o["k"] == "mem" and o["n"] == "_textVocab"


def flow(prog, rep, f, F, r, calls):
    g = Graph(prog, f, max_depth=0)
    cid = {id(n): i for i, n in enumerate(calls)}
    flags = {}
    for v, d in F.vars.items():
        if d.get("init") is not None:
            for c in calls:
                if any(x is c for x in walk(d["init"])):
                    flags[v] = cid[id(c)]
    bad = {}

    def skip(e):
        """Reads of the variable in e (apart from passing its address to a lookup)."""
        if id(e) in cid or e["k"] == "call" and is_lookup(prog, e) is not None:
            i = is_lookup(prog, e)
            for j, a in enumerate(e["a"]):
                if j != i and skip(a):
                    return True
            return False
        if e["k"] == "ref" and e.get("id") == r:
            return True
        if e["k"] == "lambda":
            return any(x["k"] == "ref" and x.get("id") == r for x in walk(e))
        if e["k"] == "bin" and e["op"] == "=" and strip(e["x"])["k"] == "ref":
            return skip(e["y"])
        if e["k"] in ("blk", "if", "for", "while", "do", "rfor", "switch", "try"):
            return False
        from base import children
        return any(skip(c) for c in children(e) if c is not None)

    def step(n, s):
        e = n.n
        if not isinstance(e, dict):
            return [s]
        if id(e) in cid:
            return [("T", cid[id(e)]), ("F", cid[id(e)])]
        if s and s[0] == "F" and n.kind != "dtor" and skip(e):
            bad.setdefault(s[1], (n, e))
        if e["k"] == "bin" and e["op"] == "=" and root(e["x"]) == r and strip(e["x"])["k"] == "ref" and n.kind not in ("br", "sw"):
            return [()]
        if e["k"] == "var" and e.get("id") == r:
            return [()]
        return [s]

    def refine(n, lab, s):
        if n.kind == "br" and s:
            e = strip(n.n)
            w = cid.get(id(e))
            if w is None and e["k"] == "ref" and e.get("id") in flags:
                w = flags[e["id"]]
            if w is not None and w == s[1]:
                return s if (s[0] == "T") == (lab in (True, "T", 1, "true")) else None
        return s
    Sim(g, (), step, refine=refine, track=True)
    for w, (n, e) in bad.items():
        c = calls[w]
        rep.viol("lookup", "%s %s #%d" % (f["qn"], short(c), w), "%s:%d" % (f["file"], c["l"]),
                 "%s uses what %s stored (line %d) where the lookup may have failed" % (f["qn"], show(c)[:60], e.get("l", 0)))


def exact(prog, rep, f):
    """A lookup function that searches by position itself."""
    outs = {p["id"] for p in f.get("params", []) if OUT.search(p["t"])}
    F = Fn(prog, f)
    search = None
    for n in walk(f["body"]):
        if n["k"] == "bin" and n["op"] == "=":
            x, y = strip(n["x"]), strip(n["y"])
            if x["k"] == "un" and x["op"] == "*" and strip(x["x"]).get("id") in outs and y["k"] == "call" and re.search(r"bound|[sS]earch", short(y)):
                search = n
    if search is None:
        return
    for n in walk(f["body"]):
        if n["k"] != "ret" or not n.get("e") or F.order[id(n)] < F.order[id(search)] or const_int(n["e"]) == 0:
            continue
        if not same_branch(F, search, n):
            continue
        rep.inst("exact", "%s:%d: %s" % (f["file"], n["l"], f["qn"]))
        fs = facts(prog, n["e"], True)
        for c, pol, g in F.guards(n):
            fs += facts(prog, c, pol)
        single = strip(n["e"])
        if single["k"] == "ref" and "id" in single and F.single(single["id"]) is not None:
            fs += facts(prog, F.single(single["id"]), True)
        inb = eq = False
        for e, p, b in fs:
            r = rel(e)
            if not r:
                continue
            op, a, d = r
            op = op if p else NEG[op]
            if op == "<" and "size" in txt(d, b) or op == ">" and "size" in txt(a, b) or op == "!=" and ("size" in txt(d, b) or "size" in txt(a, b)):
                inb = True
            if op == "==" and "size" not in txt(a, b) + txt(d, b) and const_int(a) is None and const_int(d) is None:
                eq = True
        if not inb:
            rep.viol("exact", "%s size" % f["qn"], "%s:%d" % (f["file"], n["l"]), "%s may report success for a position behind the last element" % f["qn"])
        if not eq:
            rep.viol("exact", "%s key" % f["qn"], "%s:%d" % (f["file"], n["l"]), "%s may report success for an element that differs from the key" % f["qn"])


def same_branch(F, a, n):
    """Can control go from a to n? (they are not in different arms of an if)"""
    ca = list(F.ancestors(a))
    for p in F.ancestors(n):
        if p["k"] == "if" and p in ca:
            ia = F.inside(a, p["x"]) if p.get("x") else False
            ib = F.inside(n, p["x"]) if p.get("x") else False
            return ia == ib
    for p in ca:                      # a is in an arm that returns on its own: another return is not reached from it
        if p["k"] == "if" and not F.inside(n, p):
            arm = p["x"] if F.inside(a, p["x"]) else p.get("y")
            if arm is not None and leaves(arm):
                return False
    return True


# ---------------------------------------------------------------- metadata is requested only for what exists
def exists(prog, rep, fns, cg):
    for get, pre in PRE.items():
        obligations(prog, rep, fns, cg, get, pre)


def obligations(prog, rep, fns, cg, get, pre):
    decl = {f["key"] for f in fns if f["n"] == get}
    if not decl:
        raise AnalysisError("anchor vanished: no function %s" % get)
    done = set()
    for f in fns:
        if get.encode() not in prog.raw["F"][f["key"]] or f["n"] == get:
            continue
        calls = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == get and n["a"]]
        tag = (f["file"], f["l"])
        if not calls or tag in done:
            continue
        done.add(tag)
        F = Fn(prog, f)
        for i, c in enumerate(calls):
            rep.inst("exists", "%s:%d: %s in %s" % (f["file"], c["l"], show(c)[:50], f["qn"]))
            if not holds(prog, f, F, c, c["a"][0], pre, txt(c["o"]) if c.get("o") else "", fns, 0):
                rep.viol("exists", "%s %s #%d" % (f["qn"], get, i), "%s:%d" % (f["file"], c["l"]), "%s calls %s where %s need not hold" % (f["qn"], show(c)[:60], pre))


def holds(prog, f, F, call, key, pre, recv, fns, depth):
    kt = txt(key)
    k = strip(key)
    # keys that are enumerated from the structure itself
    r = root(key)
    if r in F.vars and F.vars[r].get("of") is not None:
        return True
    g = Graph(prog, f, max_depth=0)
    ok = [True]
    ids = {id(call)}

    def match(e, b):
        e = strip(e)
        return e["k"] == "call" and short(e) == pre and e["a"] and txt(e["a"][0], b) == kt and (depth or not e.get("o") or txt(e["o"], b) == recv)

    def step(n, s):
        e = n.n
        if isinstance(e, dict):
            if id(e) in ids and s != "yes":
                ok[0] = False
            if e["k"] == "var" and e.get("id") == r:
                return ["no"]
            if e["k"] == "bin" and e["op"] == "=" and root(e["x"]) == r and n.kind not in ("br", "sw"):
                return ["no"]
            if e["k"] == "call" and is_lookup(prog, e) is not None and any(root(a) == r for a in e["a"] if strip(a)["k"] == "un"):
                return ["no"]
        return [s]

    def refine(n, lab, s):
        if n.kind == "br":
            t = lab in (True, "T", 1, "true")
            c = n.n
            e = strip(c)
            if e["k"] == "ref" and "id" in e and F.single(e["id"]) is not None:
                c = F.single(e["id"])
            for e, p, b in facts(prog, c, t):
                if p and match(e, b):
                    return "yes"
        return s
    Sim(g, "no", step, refine=refine, track=True)
    if ok[0]:
        return True
    # the key is a parameter: the callers must know
    if depth < 2 and r in F.params:
        i = [p["id"] for p in f["params"]].index(r)
        sites = []
        for h in fns:
            if f["n"].encode() in prog.raw["F"][h["key"]]:
                H = None
                for n in walk(h["body"]):
                    if n["k"] == "call" and short(n) == f["n"] and len(n["a"]) > i and f["key"] in [t if isinstance(t, str) else t["key"] for t in prog.targets(n)]:
                        H = H or Fn(prog, h)
                        sites.append((h, H, n))
        if sites and all(holds(prog, h, H, n, n["a"][i], pre, recv, fns, depth + 1) for h, H, n in sites):
            return True
    return False


# ---------------------------------------------------------------- tables that cover a part of the ids
def bounds(prog, rep, fns):
    done = set()
    for f in fns:
        raw = prog.raw["F"][f["key"]]
        if b"attern" not in raw and b"asPredicate" not in raw and b"_words" not in raw:
            continue
        tag = (f["file"], f["l"])
        if tag in done:
            continue
        done.add(tag)
        F = Fn(prog, f)
        seen = set()
        for n in walk(f["body"]):
            if n["k"] != "call" or n.get("op") != "[]" or len(n["a"]) != 2:
                continue
            c = strip(n["a"][0])
            t = c.get("t", "") or ""
            if c["k"] == "ref" and "id" in c and c["id"] in F.params:
                t = F.params[c["id"]]["t"]
            table = c["k"] == "ref" and "id" in c and c["id"] in F.params and t.startswith("const") and ("CompactStringVector" in t or re.search(r"vector<(PatternID|unsigned int|uint32_t)", t))
            words = c["k"] == "mem" and c["n"] == "_words" and "optional" in (f.get("rt") or "")
            if not table and not words:
                continue
            ct, it = txt(c), txt(n["a"][1])
            key = (n["l"], ct, it)
            if key in seen:
                continue
            seen.add(key)
            i = strip(n["a"][1])
            # a pattern's number comes from the table of the entities and was compared with "no pattern"
            if i["k"] == "call" and i.get("op") == "[]" or i["k"] == "mem" and "CompactStringVector" in t:
                inner = txt(i["a"][0]) if i["k"] == "call" else None
                if inner is not None:
                    rep.inst("bounds", "%s:%d: %s[%s] in %s" % (f["file"], n["l"], ct, it, f["qn"]))
                    if not any((r := rel(e)) and (r[0] if p else NEG[r[0]]) == "!=" and it in (txt(r[1], b), txt(r[2], b)) for g in F.guards(n) for e, p, b in facts(prog, g[0], g[1])):
                        rep.viol("bounds", "%s %s[%s]" % (f["qn"], ct, it), "%s:%d" % (f["file"], n["l"]), "%s uses the number of a pattern without having excluded that there is none" % f["qn"])
                continue
            rep.inst("bounds", "%s:%d: %s[%s] in %s" % (f["file"], n["l"], ct, it, f["qn"]))
            good = False
            for c2, pol, g in F.guards(n):
                for e, p, b in facts(prog, c2, pol):
                    r = rel(e)
                    if not r:
                        continue
                    op, a, d = r
                    op = op if p else NEG[op]
                    if op == ">":
                        op, a, d = "<", d, a
                    if op == "<" and txt(a, b) == it and txt(d, b) == ct + ".size()":
                        good = True
            if not good:
                rep.viol("bounds", "%s %s[%s]" % (f["qn"], ct, it), "%s:%d" % (f["file"], n["l"]), "%s reads %s[%s] without having compared the position with the size" % (f["qn"], ct, it))


# ---------------------------------------------------------------- hand-written binary searches
def halves(prog, rep, fns):
    done = set()
    for f in fns:
        F = None
        for n in walk(f["body"]):
            if n["k"] not in ("while", "for") or not n.get("c"):
                continue
            r = rel(strip(n["c"]))
            if not r or r[0] not in ("<", "<=", "!=", ">"):
                continue
            op, lo, hi = r
            if op == ">":
                op, lo, hi = "<", hi, lo
            lo, hi = strip(lo), strip(hi)
            if lo["k"] != "ref" or hi["k"] != "ref" or "id" not in lo or "id" not in hi:
                continue
            F = F or Fn(prog, f)
            mids = {}
            for v, d in F.vars.items():
                i = strip(d["init"]) if d.get("init") is not None else None
                if i is not None and F.inside(d, n) and is_mid(i, lo["id"], hi["id"]):
                    mids[v] = d
            if not mids or (f["file"], n["l"]) in done:
                continue
            done.add((f["file"], n["l"]))
            unsigned = "unsigned" in hi.get("t", "") or hi.get("t", "") in ("Id", "size_t", "uint64_t")
            rep.inst("halves", "%s:%d: search in %s" % (f["file"], n["l"], f["qn"]))
            for y, m in F.assign.get(lo["id"], []) + F.assign.get(hi["id"], []):
                if not F.inside(m, n["body"]):
                    continue
                x = strip(m["x"])["id"] if m["k"] == "bin" else strip(m["a"][0])["id"]
                d = delta(strip(y), mids)
                if d is None:
                    continue
                want = {lo["id"]: (1,), hi["id"]: ((0,) if op in ("<", "!=") else (-1,))}[x]
                if d not in want:
                    rep.viol("halves", "%s %s" % (f["qn"], F.vars[x]["n"] if x in F.vars else x), "%s:%d" % (f["file"], m["l"]),
                             "%s continues with %s = %s, which loses a candidate, wraps around at 0 or does not end" % (f["qn"], F.vars[x]["n"] if x in F.vars else "?", show(y)))
                elif d == -1 and unsigned:
                    rep.viol("halves", "%s %s wrap" % (f["qn"], x), "%s:%d" % (f["file"], m["l"]), "%s = %s wraps around at 0" % (show(m), show(y)))
    # positions that step back
    clamps = {}
    for f in fns:
        if (f.get("cls") or "").split("<")[0] not in ("Vocabulary", "ExternalVocabulary", "TextMetaData", "BlockBasedRelationMetaData", "IndexMetaData"):
            continue
        if (f["file"], f["l"], "f") in done:
            continue
        done.add((f["file"], f["l"], "f"))
        F = Fn(prog, f)
        for n in walk(f["body"]):
            if n["k"] == "un" and n["op"].lstrip("p") == "--":
                x = strip(n["x"])
            elif n["k"] == "call" and n.get("op") == "--":
                x = strip(n["a"][0])
            else:
                continue
            if x["k"] != "ref" or "id" not in x:
                continue
            rep.inst("first", "%s:%d: %s in %s" % (f["file"], n["l"], show(n)[:20], f["qn"]))
            t = txt(x)
            good = False
            for c, pol, g in F.guards(n):
                for e, p, b in facts(prog, c, pol):
                    r = rel(e)
                    if not r:
                        continue
                    o = r[0] if p else NEG[r[0]]
                    sides = [(r[1], r[2], o), (r[2], r[1], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o))]
                    for y, z, o2 in sides:
                        if txt(y, b) != t:
                            continue
                        zz = subst(z, b)
                        if o2 in (">", "!=") and const_int(z) == 0 or o2 in ("!=", ">") and zz["k"] == "call" and short(zz) in ("begin", "cbegin"):
                            good = True
                        if o2 == "==" and is_end(F, z, b) and f["n"] == "getBlockInfoByWordRange":
                            good = True     # called only with words of the text vocabulary, which has a block then (rule lookup)
            for p in F.ancestors(n):
                if p["k"] == "if" and not p.get("y") and F.inside(n, p["x"]) and good and any(
                        m["k"] == "ret" and m.get("e") and strip(m["e"]).get("id") == x["id"] for m in walk(f["body"])):
                    clamps[f["key"]] = f
            if not good:
                rep.viol("first", "%s %s" % (f["qn"], t), "%s:%d" % (f["file"], n["l"]), "%s decreases %s where it may be the first position" % (f["qn"], t))


    # a position that was kept at the first because there is none before it stands for "nothing": it must not be used
    for f in list(clamps.values()):
        for h in fns:
            if f["n"].encode() in prog.raw["F"][h["key"]]:
                for n in walk(h["body"]):
                    if n["k"] == "call" and short(n) == f["n"] and f["key"] in [t if isinstance(t, str) else t["key"] for t in prog.targets(n)]:
                        rets = [m for m in walk(h["body"]) if m["k"] == "ret" and m.get("e") and strip(m["e"]) is n]
                        if rets and h["key"] not in clamps:
                            clamps[h["key"]] = h
                        elif not rets:
                            rep.viol("first", "%s uses %s" % (h["qn"], f["n"]), "%s:%d" % (h["file"], n["l"]),
                                     "%s uses the position returned by %s, which is 0 both for the first word and if every word is larger" % (h["qn"], f["n"]))


def is_mid(e, lo, hi):
    e = strip(e)
    ids = {x["id"] for x in walk(e) if x["k"] == "ref" and "id" in x}
    return ids == {lo, hi} and any(x["k"] == "bin" and (x["op"] == "/" and const_int(x["y"]) == 2 or x["op"] == ">>" and const_int(x["y"]) == 1) for x in walk(e))


def delta(e, mids):
    if e["k"] == "ref" and e.get("id") in mids:
        return 0
    if e["k"] == "bin" and e["op"] in ("+", "-") and strip(e["x"]).get("id") in mids and const_int(e["y"]) is not None:
        return const_int(e["y"]) * (1 if e["op"] == "+" else -1)
    return None


# ---------------------------------------------------------------- loops over positions
def loops(prog, rep, fns):
    done = set()
    for f in fns:
        for n in walk(f["body"]):
            if n["k"] not in ("for", "while") or not n.get("c"):
                continue
            for e, p in conj(n["c"], True):
                r = rel(e)
                if not r or not p:
                    continue
                op, a, d = r
                if op in (">", ">="):
                    op, a, d = {">": "<", ">=": "<="}[op], d, a
                a, d = strip(a), strip(d)
                if a["k"] != "ref" or "id" not in a or d["k"] != "call" or short(d) != "size" or not d.get("o") or op not in ("<", "<=", "!="):
                    continue
                c = txt(d["o"])
                key = (f["file"], n["l"], c)
                if key in done:
                    continue
                done.add(key)
                rep.inst("loop", "%s:%d: %s in %s" % (f["file"], n["l"], show(e), f["qn"]))
                if op != "<=":
                    continue
                for x in walk(n["body"]):
                    if x["k"] == "call" and x.get("op") == "[]" and len(x["a"]) == 2 and txt(x["a"][0]) == c and strip(x["a"][1]).get("id") == a["id"]:
                        F = Fn(prog, f)
                        if any((q := rel(g)) and (q[0] if gp else NEG[q[0]]) in ("<", "!=") and txt(q[1], b) == txt(a) for gc, pol, gn in F.guards(x) if gn is not n for g, gp, b in facts(prog, gc, pol)):
                            continue
                        rep.viol("loop", "%s %s" % (f["qn"], c), "%s:%d" % (f["file"], x["l"]), "%s accesses %s for positions up to and including its size" % (f["qn"], show(x)))
                        break


# ---------------------------------------------------------------- names of cost factors
def factors(prog, rep, fns):
    ctor = [f for f in fns if f["qn"].endswith("QueryPlanningCostFactors::QueryPlanningCostFactors")]
    if not ctor:
        raise AnalysisError("anchor vanished: constructor of QueryPlanningCostFactors")
    have = set()
    for f in ctor:
        for n in walk({"k": "blk", "s": [f["body"]] + [i.get("e") for i in f.get("inits", []) if i.get("e")]}):
            if n["k"] == "str":
                have.add(n["v"])
    for f in fns:
        if b"getCostFactor" not in prog.raw["F"][f["key"]]:
            continue
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) == "getCostFactor" and n["a"]:
                s = [x["v"] for x in walk(n["a"][0]) if x["k"] == "str"]
                a = strip(n["a"][0])
                if not s and a["k"] == "ref" and a.get("id") in {p["id"] for p in f.get("params", [])}:
                    continue        # passed on
                rep.inst("factors", "%s:%d: %s in %s" % (f["file"], n["l"], s, f["qn"]))
                if not s or s[0] not in have:
                    rep.viol("factors", "%s %s" % (f["qn"], s[0] if s else show(n)[:40]), "%s:%d" % (f["file"], n["l"]), "%s requests the cost factor %s, which is not set" % (f["qn"], s))


# ---------------------------------------------------------------- values that are not bound
def unbound(prog, rep, fns):
    for f in fns:
        if not any("ResultType" in p["t"] and "optional" in p["t"] for p in f.get("params", [])):
            continue
        F = Fn(prog, f)
        for sw in walk(f["body"]):
            if sw["k"] != "switch" or "ResultType" not in (strip(sw["c"]).get("t") or ""):
                continue
            for n in walk(sw["body"]):
                what = None
                if n["k"] == "call" and short(n) in ("to_string", "getTextExcerpt", "memcpy"):
                    what = short(n)
                elif n["k"] == "call" and n.get("op") == "<<" and "unsigned long" in (strip(n["a"][-1]).get("t") or ""):
                    what = "<<"
                if not what:
                    continue
                rep.inst("unbound", "%s:%d: %s in %s" % (f["file"], n["l"], what, f["qn"]))
                if not any(says_bound(prog, F, c, pol) for c, pol, _ in F.guards(n)):
                    rep.viol("unbound", "%s %s" % (f["qn"], what), "%s:%d" % (f["file"], n["l"]), "%s writes a value with %s without having compared it with ID_NO_VALUE: a value that is not bound would appear as a number" % (f["qn"], what))


def says_bound(prog, F, c, pol, depth=0):
    """Whether a condition implies that a value is not ID_NO_VALUE."""
    c = strip(c)
    if c["k"] == "un" and c["op"] == "!":
        return says_bound(prog, F, c["x"], not pol, depth)
    if c["k"] == "bin" and c["op"] in ("&&", "||"):
        both = [says_bound(prog, F, c["x"], pol, depth), says_bound(prog, F, c["y"], pol, depth)]
        return any(both) if (c["op"] == "&&") == pol else all(both)
    r = rel(c)
    if r and r[0] in ("==", "!=") and any(z["k"] == "ref" and (z.get("n") or "").split("::")[-1] == "ID_NO_VALUE" for x in r[1:] for z in walk(x)):
        return (r[0] == "!=") == pol
    if depth < 3 and c["k"] == "ref" and "id" in c:
        for v in walk(F.f["body"]):
            if v["k"] == "var" and v.get("id") == c["id"] and v.get("init") is not None:
                return says_bound(prog, F, v["init"], pol, depth + 1)
    if depth < 3 and c["k"] == "call":
        bodies = [prog.fn(k).get("body") for k in prog.targets(c) if prog.fn(k)]
        o = strip(c["o"]) if c.get("o") is not None else strip(c["a"][0]) if c.get("op") == "()" and c["a"] else None
        if o is not None and o["k"] == "ref" and "id" in o:
            for v in walk(F.f["body"]):
                if v["k"] == "var" and v.get("id") == o["id"] and v.get("init") is not None:
                    bodies += [z["body"] for z in walk(v["init"]) if z["k"] == "lambda"]
        for b in bodies:
            rs = [z["e"] for z in walk(b or {"k": "nop"}) if z["k"] == "ret" and z.get("e") is not None]
            if len(rs) == 1 and says_bound(prog, F, rs[0], pol, depth + 1):
                return True
    return False


if __name__ == "__main__":
    run("C13", check, level="checked-over-all-paths",
        explanation="Every use of a search result in the sources is found in the resolved syntax tree: iterators returned by find / lower_bound, ids stored by lookups, metadata of relations "
                    "and entities, positions in tables that cover only a part of the ids. For each, the conditions that hold where it is used (guards, early exits, path-sensitive "
                    "simulation for lookups in several branches) must exclude that nothing was found.",
        assumptions=["a relation that is stored with blocks has at least one block", "the words of a text file are in the vocabulary created from it",
                     "a function that consists of one return stands for the returned expression; other helpers are not looked into"])
