"""C14: no clause of an accepted query is silently ignored."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, is_log, AnalysisError
from cfg import Graph, Sim, path_text
from cg import CallGraph
from place import Fn

PARSER = "SparqlParser"
# What the parser fills. Name of the class -> fields that need no reader (with the reason).
QUERY = {
    "ParsedQuery": {"_reduced": "REDUCED permits the removal of duplicates but does not ask for it", "_originalString": "the text itself", "_numGraphPatterns": "numbering"},
    "ParsedQuery::Alias": {},
    "ParsedQuery::GraphPattern": {"_id": "numbering"},
    "SparqlFilter": {}, "SparqlValues": {}, "SparqlTriple": {}, "OrderKey": {}, "PropertyPath": {}, "SparqlPrefix": {},
    "GraphPatternOperation::BasicGraphPattern": {}, "GraphPatternOperation::Values": {"_id": "numbering"}, "GraphPatternOperation::GroupGraphPattern": {},
    "GraphPatternOperation::Optional": {}, "GraphPatternOperation::Minus": {}, "GraphPatternOperation::Union": {}, "GraphPatternOperation::Subquery": {},
    "GraphPatternOperation::TransPath": {}, "GraphPatternOperation::Bind": {}, "GraphPatternOperation::Bind::Constant": {},
    "GraphPatternOperation::Bind::BinaryOperation": {}, "GraphPatternOperation::Bind::Rename": {},
}
ELEMENT = re.compile(r"\b(SparqlFilter|OrderKey|Alias|SparqlTriple|GraphPatternOperation|SparqlPrefix)\b")
CONTAINERS = ("_havingClauses", "_orderBy", "_groupByVariables", "_selectedVariables", "_aliases", "_filters", "_children", "_whereClauseTriples", "_additionalLhs",
              "_additionalPrefixes", "_variables", "_values", "_prefixes")
RENDER = ("asString", "toString", "getDescriptor", "writeToStream", "AggregateTypeAsString", "operationName", "recomputeIds", "operator==", "operator<<", "merge", "strings")


def check(prog, rep):
    rep.rule("token", "the value of every accepted token is used before the next token is read", 15)
    rep.rule("stored", "recognising a clause changes the query that is returned, or is an error", 15)
    rep.rule("consumed", "everything the parser stores in a query is read when the query is planned or its result is written", 45)
    rep.rule("subquery", "what takes effect for a query takes effect for a subquery", 8)
    rep.rule("each", "when a plan is extended by several clauses of a kind, each extension starts from the one before", 1)
    rep.rule("all", "clauses of a kind are treated from the first to the last, none is picked out by position", 10)
    rep.rule("filters", "the plans of a pattern are returned only after its filters were applied to them", 1)
    rep.rule("kinds", "every kind of a part of a pattern is planned from everything it consists of", 8)
    rep.rule("rows", "every step of planning a query starts from the plans of the step before, and the final plan is one of the last step", 4)
    rep.rule("export", "every output format applies the same clauses of the query", 2)
    rep.rule("whole", "nothing may follow an accepted query", 1)
    cg = CallGraph(prog)
    pf = []
    for m in prog.record(PARSER)["methods"]:
        f = prog.fn(m["fk"]) if m.get("fk") in prog.raw["F"] else None
        if f and f.get("body") and b"_lexer" in prog.raw["F"][m["fk"]]:
            pf.append(f)
    if len(pf) < 8:
        raise AnalysisError("anchor vanished: only %d parser functions use the lexer" % len(pf))
    rep.part(tokens, prog, rep, pf)
    rep.part(stored, prog, rep, pf)
    rep.part(consumed, prog, rep, cg)
    rep.part(loops, prog, rep)
    rep.part(planning, prog, rep)
    rep.part(export, prog, rep, cg)
    rep.part(whole, prog, rep)


def lexcall(n, names):
    return n["k"] == "call" and short(n) in names and "SparqlLexer" in n.get("fn", "")


VALUE = ("VARIABLE", "INTEGER", "FLOAT", "RDFLITERAL", "IRI", "AGGREGATE")


def value_token(n):
    """The token kind if this accept / expect takes a token whose text matters."""
    if not n["a"]:
        return None
    a = strip(n["a"][0])
    if a["k"] == "ref" and a.get("n") in VALUE:
        return a["n"]
    return None


# ---------------------------------------------------------------- every accepted value is used
def tokens(prog, rep, pf):
    for f in pf:
        g = Graph(prog, f, max_depth=0)
        takes = [n for n in g.nodes if n.n is not None and isinstance(n.n, dict) and lexcall(n.n, ("accept", "expect"))]
        for n in takes:
            if value_token(n.n):
                rep.inst("token", "%s: %s(%s) in %s" % (loc(f, n.n), short(n.n), value_token(n.n), f["n"]))
        bad = {}

        def step(n, s):
            e = n.n
            if not isinstance(e, dict) or n.kind in ("br", "sw"):
                return [s]
            if lexcall(e, ("current",)):
                return [None]
            if lexcall(e, ("accept", "expect")):
                if s is not None and not (short(e) == "accept"):
                    bad.setdefault(s, n)
                if short(e) == "expect":
                    return [(value_token(e), e["l"])] if value_token(e) else [None]
                # accept: the outcome is decided at the branch; remember both
                if value_token(e):
                    return [("?", value_token(e), e["l"], s), s]
                return [("?", None, e["l"], s), s]
            return [s]

        def refine(n, lab, s):
            if n.kind == "br":
                e = strip(n.n)
                if e["k"] == "call" and lexcall(e, ("accept",)):
                    t = isinstance(s, tuple) and s and s[0] == "?"
                    if lab in (True, "T", 1, "true"):
                        if not t or s[2] != e["l"]:
                            return None
                        if s[3] is not None:
                            bad.setdefault(s[3], n)
                        return (s[1], s[2]) if s[1] else None_
                    if t:
                        return None
                    return s
            if isinstance(s, tuple) and s and s[0] == "?" and n.kind != "br":
                # accept whose outcome is not tested
                pass
            return s
        None_ = ()
        sim = Sim(g, (), lambda n, s: [(() if x is None else x) for x in step(n, None if s == () else s)], refine=refine, track=True)
        for s, n in bad.items():
            if s and s[0] in VALUE:
                rep.viol("token", "%s %s %s" % (f["qn"], s[0], nth(f, s)), "%s:%d" % (f["file"], s[1]),
                         "%s takes a %s and reads the next token (line %d) without having used its text" % (f["qn"], s[0], n.n["l"] if isinstance(n.n, dict) else 0))
        for i, sts in sim.at.items():
            n = g.nodes[i]
            if n is g.exit:
                for s, env in sts:
                    if s and s[0] in VALUE:
                        rep.viol("token", "%s %s end %s" % (f["qn"], s[0], nth(f, s)), "%s:%d" % (f["file"], s[1]), "%s takes a %s and returns without having used its text" % (f["qn"], s[0]))


def nth(f, s):
    ls = sorted(n["l"] for n in walk(f["body"]) if lexcall(n, ("accept", "expect")) and value_token(n) == s[0])
    return "#%d" % ls.index(s[1]) if s[1] in ls else "#?"


# ---------------------------------------------------------------- recognised clauses have an effect
def writes_out(prog, f, F, body, depth=0):
    """Does the statement store something in what the caller sees (or in a variable of the enclosing code), or fail?"""
    for n in walk(body):
        if n["k"] in ("throw",):
            if not any(a["k"] in ("if", "for", "while", "rfor") and a is not body and F.inside(a, body) for a in F.ancestors(n)):
                return True
            continue
        if n["k"] == "ret":
            return True
        if n["k"] == "cont" or n["k"] == "break":
            continue
        x = None
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            x = n["x"]
        elif n["k"] == "call" and n.get("op") in ("=", "+=", "<<"):
            x = n["a"][0]
        elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
            x = n["x"]
        elif n["k"] == "call" and n.get("o") is not None and short(n) in ("push_back", "emplace_back", "insert", "emplace", "append"):
            x = n["o"]
        elif n["k"] == "call" and n.get("fn", "").startswith(PARSER + "::"):
            return True
        if x is None:
            continue
        while True:
            x = strip(x)
            if x["k"] == "mem" and x.get("b"):
                x = x["b"]
            elif x["k"] == "call" and x.get("op") in ("[]", "->", "*", "<<"):
                x = x["a"][0]
            elif x["k"] == "call" and x.get("o") is not None:
                x = x["o"]
            elif x["k"] == "un":
                x = x["x"]
            else:
                break
        if x["k"] == "ref" and "id" in x:
            d = F.vars.get(x["id"])
            if d is not None and describes(f, F, d):
                continue
            if d is None or not F.inside(d, body):
                return True
        elif x["k"] == "this" or x["k"] == "mem":
            return True
    return False


def describes(f, F, d):
    """A stream whose text becomes one field of an object whose other fields say what to do."""
    if "stringstream" not in d.get("t", ""):
        return False
    uses = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "str" and n.get("o") is not None and strip(n["o"]).get("id") == d["id"]]
    fields, objects = set(), set()
    for u in uses:
        a = next((p for p in F.ancestors(u) if p["k"] == "call" and p.get("op") == "=" or p["k"] == "bin" and p["op"] == "="), None)
        x = strip(a["a"][0] if a["k"] == "call" else a["x"]) if a is not None else None
        if x is None or x["k"] != "mem" or not x.get("b"):
            return False
        fields.add(x["n"])
        objects.add(strip(x["b"]).get("id"))
    others = {strip(w)["n"] for n in walk(f["body"]) for w in ([n["a"][0]] if n["k"] == "call" and n.get("op") == "=" else [n["x"]] if n["k"] == "bin" and n["op"] == "=" else [])
              if strip(w)["k"] == "mem" and strip(w).get("b") and strip(strip(w)["b"]).get("id") in objects}
    return bool(uses) and len(others - fields) >= 2


def stored(prog, rep, pf):
    for f in pf:
        F = Fn(prog, f)
        for n in walk(f["body"]):
            if n["k"] not in ("if", "while"):
                continue
            c = [x for x in walk(n["c"]) if lexcall(x, ("accept",))]
            if not c or strip(n["c"])["k"] == "un":
                continue
            body = n["x"] if n["k"] == "if" else n["body"]
            only = [x for x in walk(body) if x["k"] not in ("blk", "nop")]
            if only and all(x["k"] == "break" for x in only):
                continue
            what = " or ".join(show(x["a"][0])[:30] if x["a"] else "any" for x in c)
            key = "%s %s" % (f["n"], what)
            rep.inst("stored", "%s: %s" % (loc(f, n), key))
            if not writes_out(prog, f, F, body):
                rep.viol("stored", key, loc(f, n), "%s recognises %s but nothing of it reaches the query" % (f["qn"], what))


# ---------------------------------------------------------------- what is stored is used
def reads_of(prog, f, wanted):
    """Fields of the query classes a function reads."""
    out = set()
    if not f.get("body") and not f.get("inits"):
        return out
    roots = [i["e"] for i in f.get("inits", []) if i.get("e")] + ([f["body"]] if f.get("body") else [])
    writes = set()
    for r in roots:
        for n in walk(r):
            x = None
            if n["k"] == "bin" and n["op"] == "=":
                x = strip(n["x"])
            elif n["k"] == "call" and n.get("op") == "=":
                x = strip(n["a"][0])
            if x is not None and x["k"] == "mem":
                writes.add(id(x))
    for r in roots:
        for n in walk(r):
            if n["k"] == "mem" and id(n) not in writes and n.get("f"):
                out.add(n["f"])
    return out


def field_owner(prog):
    own = {}
    for cls in QUERY:
        if cls not in prog.records:
            raise AnalysisError("anchor vanished: class %s" % cls)
        for m in prog.records[cls]["fields"]:
            own["%s::%s" % (cls, m["n"])] = (cls, m["n"])
    return own


def memname(n):
    return n.get("f")


def consumed(prog, rep, cg):
    own = field_owner(prog)
    readers = {k: [] for k in own}
    writers = {k: [] for k in own}
    for k in prog.all_keys():
        if k.startswith("T:"):
            continue
        raw = prog.raw["F"][k]
        if b"\"mem\"" not in raw:
            continue
        f = prog.fn(k)
        if not f["file"].startswith("src/") or f.get("implicit"):
            continue
        parser = f["qn"].startswith((PARSER + "::", "SparqlLexer::", "PropertyPathParser::")) or f["qn"].startswith("OrderKey::")
        F = None
        for n, w in accesses(f):
            if n.get("dep"):
                F = F or (Fn(prog, f) if f.get("body") else None)
                qs = [q for q in dependent(F, n, own)] if F else []
            else:
                qs = [qual(prog, n)]
            q = next((x for x in qs if x in own), None)
            if q is None:
                continue
            for q2 in qs[1:]:
                if q2 in own and not w:
                    readers[q2].append((f, n))
            if w:
                writers[q].append((f, n))
            elif not parser and f["n"] not in RENDER and not f.get("qn", "").startswith("std::") and not own_ctor(f, own[q][0]) and not is_copy(f):
                readers[q].append((f, n))
    server = [f for f in [prog.fn(k) for k in prog.all_keys() if not k.startswith("T:") and b"Server::" in prog.raw["F"][k][:400]] if f["qn"].startswith("Server::")]
    plan = {k for k in cg.reach([g["key"] for g in prog.fns("QueryPlanner::createExecutionTree") if g.get("body")])}
    for q in sorted(own):
        cls, name = own[q]
        rep.inst("consumed", "%s read at %d places" % (q, len(readers[q])))
        if name in QUERY[cls]:
            continue
        if not readers[q]:
            rep.viol("consumed", q, writers[q][0][0]["file"] + ":%d" % writers[q][0][1]["l"] if writers[q] else "%s:%d" % (prog.records[cls].get("file", "?"), prog.records[cls].get("l", 0)),
                     "%s is set by the parser but nothing that plans a query or writes its result reads it" % q)
        if cls == "ParsedQuery":
            inplan = [f for f, n in readers[q] if f["key"] in plan or f["qn"].startswith("QueryPlanner::") or f["file"].startswith("src/parser")]
            rep.inst("subquery", "%s: %d readers below the planner" % (q, len(inplan)))
            if readers[q] and not inplan:
                f, n = readers[q][0]
                rep.viol("subquery", q, loc(f, n), "%s is applied only to the outermost query (%s); the parser also accepts it in a subquery, where nothing reads it" % (q, f["qn"]))


def own_ctor(f, cls):
    return f["qn"].startswith(cls + "::") and f["n"] == cls.split("::")[-1]


def is_copy(f):
    return f["n"] in ("operator=",)


def accesses(f):
    roots = [i["e"] for i in f.get("inits", []) if i.get("e")] + ([f["body"]] if f.get("body") else [])
    w = set()
    for r in roots:
        for n in walk(r):
            x = None
            if n["k"] == "bin" and n["op"] == "=":
                x = strip(n["x"])
            elif n["k"] == "call" and n.get("op") == "=":
                x = strip(n["a"][0])
            elif n["k"] == "call" and n.get("o") is not None and short(n) in ("push_back", "emplace_back", "clear", "insert", "emplace"):
                x = strip(n["o"])
            if x is not None and x["k"] == "mem":
                w.add(id(x))
    for r in roots:
        for n in walk(r):
            if n["k"] == "mem":
                yield n, id(n) in w


def same_types(c, pol):
    """Classes a condition made of is_same_v tests names when it has value pol."""
    c = strip(c)
    if c["k"] == "un" and c["op"] == "!":
        return same_types(c["x"], not pol)
    if c["k"] == "bin" and c["op"] in ("&&", "||"):
        a, b = same_types(c["x"], pol), same_types(c["y"], pol)
        return a | b
    if c["k"] == "ref" and c.get("n") == "is_same_v" and pol:
        return {t.strip() for t in c.get("ta", "").split(", ") if t.strip() in QUERY}
    return set()


def dependent(F, n, own):
    """Fields a member access in a generic lambda can denote, from the type tests around it."""
    cand = [q for q in own if own[q][1] == n["n"]]
    for c, pol, node in F.guards(n):
        ts = same_types(c, pol)
        if ts:
            return [q for q in cand if own[q][0] in ts]
        no = same_types(c, True) if not pol else set()
        cand = [q for q in cand if own[q][0] not in no]
    return cand


def alternatives(prog, rep, f, F):
    """Every kind of a part of a pattern is planned from all it consists of."""
    own = field_owner(prog)
    kinds = [c for c in QUERY if re.match(r"GraphPatternOperation::\w+$", c)]
    vis = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "visit" or n["k"] == "call" and n.get("fn") == "std::visit"]
    if not vis:
        raise AnalysisError("anchor vanished: %s visits no parts of a pattern" % f["qn"])
    body = None
    for v in vis:
        for l in walk(v):
            if l["k"] == "lambda":
                body = l
                break
    if body is None:
        raise AnalysisError("anchor vanished: no visitor in %s" % f["qn"])
    reads, whole = {}, set()
    for n in walk(body):
        if n["k"] == "mem" and n.get("dep"):
            for q in dependent(F, n, own):
                reads.setdefault(own[q][0], set()).add(own[q][1])
        if n["k"] in ("call", "ctor"):
            for a in n["a"]:
                a = strip(a)
                while a["k"] == "call" and short(a) in ("move", "forward") and a["a"]:
                    a = strip(a["a"][0])
                if a["k"] == "ref" and "type-parameter" in a.get("t", ""):
                    left = set(kinds)
                    for c, pol, node in F.guards(n):
                        ts = same_types(c, pol)
                        if ts:
                            left &= ts
                        elif not pol:
                            left -= same_types(c, True)
                    whole |= left
    for c in kinds:
        need = {m["n"] for m in prog.records[c]["fields"]} - set(QUERY[c])
        rep.inst("kinds", "%s: %s" % (f["qn"], c))
        if c in whole:
            continue
        for m in sorted(need - reads.get(c, set())):
            rep.viol("kinds", "%s::%s" % (c, m), loc(f), "%s plans a %s without its %s" % (f["qn"], c.split("::")[-1], m))


def qual(prog, n):
    """Class::field of a member access."""
    f = n.get("f")
    if isinstance(f, str) and "::" in f:
        return f
    b = n.get("b")
    t = (strip(b).get("t", "") if b else "")
    t = re.sub(r"\b(const|class|struct)\b|[&*]", "", t).strip()
    return "%s::%s" % (t, n["n"])


# ---------------------------------------------------------------- loops over clauses
def container(e):
    """Name of the clause container an expression denotes, or None."""
    e = strip(e)
    if e["k"] == "mem" and e["n"] in CONTAINERS:
        return e["n"]
    if e["k"] == "call" and short(e) == "children":
        return "_children"
    return None


def loops(prog, rep):
    seen = set()
    for k in prog.all_keys():
        if k.startswith("T:"):
            continue
        raw = prog.raw["F"][k]
        if not any(c.encode() in raw for c in CONTAINERS):
            continue
        f = prog.fn(k)
        if not f["file"].startswith(("src/engine/", "src/parser/ParsedQuery")) or not f.get("body") or f["n"] in RENDER:
            continue
        F = None
        sized = {container(n["o"]) for n in walk(f["body"]) if n["k"] == "call" and short(n) in ("size", "empty") and n.get("o") is not None and container(n["o"])}
        for n in walk(f["body"]):
            if n["k"] in ("rfor", "for"):
                c = container(n["range"]) if n["k"] == "rfor" else None
                if n["k"] == "for" and n.get("c"):
                    for x in walk(n["c"]):
                        if x["k"] == "call" and short(x) in ("size", "end") and x.get("o") is not None and container(x["o"]):
                            c = container(x["o"])
                            F = F or Fn(prog, f)
                            whole_range(prog, rep, f, F, n, c)
                            break
                t = n["var"].get("t", "") if n["k"] == "rfor" else ""
                over_params = n["k"] == "rfor" and ELEMENT.search(t)
                if not c and not over_params:
                    continue
                F = F or Fn(prog, f)
                key = "%s over %s" % (f["qn"], c or show(n["range"])[:30])
                if (f["qn"], n["l"]) not in seen:
                    seen.add((f["qn"], n["l"]))
                    rep.inst("each", "%s: %s" % (loc(f, n), key))
                carried(prog, rep, f, F, n, key)
            c = None
            if n["k"] == "call" and n.get("op") == "[]" and const_int(n["a"][1]) is not None:
                c = container(n["a"][0])
            elif n["k"] == "call" and short(n) in ("front", "back", "at") and n.get("o") is not None and (not n["a"] or const_int(n["a"][0]) is not None):
                c = container(n["o"])
            if c and c not in ("_children", "_values", "_variables"):
                rep.inst("all", "%s: %s in %s" % (loc(f, n), show(n)[:40], f["qn"]))
                F = F or Fn(prog, f)
                picked_fields(prog, rep, f, F, n, c)
                if not single_checked(prog, f, F, n, c):
                    rep.viol("all", "%s %s" % (f["qn"], c), loc(f, n), "%s uses only one element of %s, but a query may have several" % (f["qn"], c))


def picked_fields(prog, rep, f, F, n, c):
    """If one element is treated apart, what the loop over all of them reads of an element has to be read of this one too."""
    def fields(test):
        return {x["n"] for x in walk(f["body"]) if x["k"] == "mem" and x.get("b") and test(strip(x["b"]))}
    loops = [l for l in walk(f["body"]) if l["k"] == "rfor" and container(l["range"]) == c and excludes(F, n, l) and "id" in (l.get("var") or {})]
    mine = fields(lambda b: show(b) == show(strip(n)) or b["k"] == "ref" and b.get("id") in F.vars and F.vars[b["id"]].get("init") is not None and show(strip(F.vars[b["id"]]["init"])) == show(strip(n)))
    for l in loops:
        for x in sorted(fields(lambda b: b["k"] == "ref" and b.get("id") == l["var"]["id"]) - mine) if mine else []:
            rep.viol("all", "%s %s.%s" % (f["qn"], c, x), loc(f, n), "%s treats one element of %s apart and does not look at its %s, which counts for the others" % (f["qn"], c, x))


def excludes(F, a, b):
    """Are the two in different branches of the same if?"""
    for p in F.ancestors(a):
        if p["k"] in ("if", "cond") and p.get("y") is not None:
            for x, y in ((p["x"], p["y"]), (p["y"], p["x"])):
                if F.inside(a, x) and F.inside(b, y):
                    return True
    return False


def single_checked(prog, f, F, at, c):
    """Is the number of elements compared with one in the class of the function, or are all elements visited here too?"""
    for n in walk(f["body"]):
        if n["k"] in ("rfor", "for") and excludes(F, at, n):
            continue
        if n["k"] == "rfor" and container(n["range"]) == c:
            return True
        if n["k"] == "for" and n.get("c") and any(x["k"] == "call" and short(x) in ("size", "end") and x.get("o") is not None and container(x["o"]) == c for x in walk(n["c"])):
            return True
    cls = f.get("cls")
    for m in prog.records.get(cls, {"methods": []})["methods"]:
        g = prog.fn(m["fk"]) if m.get("fk") in prog.raw["F"] else None
        if not g or not g.get("body"):
            continue
        for n in walk(g["body"]):
            if n["k"] == "bin" and n["op"] in ("==", "!=", ">", "<", ">=", "<="):
                for a, b, op in ((n["x"], n["y"], n["op"]), (n["y"], n["x"], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(n["op"], n["op"]))):
                    a = strip(a)
                    if a["k"] == "call" and short(a) == "size" and a.get("o") is not None and container(a["o"]) == c:
                        v = const_int(b)
                        if (op, v) in (("==", 1), ("!=", 1), (">", 1), ("<=", 1), ("<", 2), (">=", 2)):
                            return True
    return False


def whole_range(prog, rep, f, F, n, c):
    key = "%s loop %s" % (f["qn"], c)
    rep.inst("all", "%s: %s" % (loc(f, n), key))
    # start
    for d in walk(n["init"]) if n.get("init") else []:
        if d["k"] == "var" and d.get("init") is not None:
            v = const_int(d["init"])
            if v is not None and v > 0 and not any(x["k"] == "call" and x.get("op") == "[]" and container(x["a"][0]) == c and const_int(x["a"][1]) == 0 or
                                                   x["k"] == "call" and short(x) in ("front", "begin") and x.get("o") is not None and container(x["o"]) == c for x in walk(f["body"])):
                rep.viol("all", key + " start", loc(f, n), "%s starts at element %d of %s; the elements before are not treated" % (f["qn"], v, c))
    co = strip(n["c"])
    for x in walk(co):
        if x["k"] == "bin" and x["op"] == "-" and any(y["k"] == "call" and short(y) == "size" for y in walk(x["x"])) and (const_int(x["y"]) or 0) > 0:
            # pairs (i, i + 1) need the shorter range
            if not any(y["k"] == "bin" and y["op"] == "+" and const_int(y["y"]) == 1 for y in walk(n["body"])):
                rep.viol("all", key + " end", loc(f, n), "%s stops before the last element of %s" % (f["qn"], c))


def carried(prog, rep, f, F, n, key):
    """A variable from outside the loop that every iteration overwrites must depend on its value before."""
    body = n["body"]
    if body["k"] != "blk":
        return
    for s in body["s"]:
        if s is None:
            continue
        e = strip(s) if s["k"] not in ("decl", "if", "for", "while", "rfor", "blk", "switch") else None
        if e is None:
            continue
        x = y = None
        if e["k"] == "bin" and e["op"] == "=":
            x, y = strip(e["x"]), e["y"]
        elif e["k"] == "call" and e.get("op") == "=":
            x, y = strip(e["a"][0]), e["a"][1]
        if x is None or x["k"] != "ref" or "id" not in x:
            continue
        d = F.vars.get(x["id"])
        if d is None or F.inside(d, n):
            continue
        # used after the loop?
        if not any(u["k"] == "ref" and u.get("id") == x["id"] and F.order[id(u)] > F.order[id(n)] and not F.inside(u, n) for u in walk(f["body"])):
            continue
        if depends(F, y, x["id"], n, set()):
            for c, a in other_start(F, n, d):
                rep.viol("each", "%s %s" % (key, x["n"]), loc(f, c), "%s: %s is extended over the clauses, but %s starts from %s, which is the same in every iteration; only the last clause takes effect" % (
                    f["qn"], x["n"], short(c), show(strip(a))))
            continue
        if not depends_var(F, y, n):
            continue
        rep.viol("each", "%s %s" % (key, x["n"]), loc(f, e), "%s: every iteration over the clauses replaces %s by something that does not depend on its value before; only the last clause takes effect" % (f["qn"], x["n"]))


def other_start(F, loop, d):
    """Calls that combine the element of the loop with something of the type of d from outside of the loop."""
    if loop["k"] != "rfor":
        return
    plain = lambda t: re.sub(r"\bconst\b|[&* ]", "", t or "")
    for c in walk(loop["body"]):
        if c["k"] != "call" or c.get("op") or is_log(c):
            continue
        args = [strip(a) for a in c["a"]]
        if not any(a["k"] == "ref" and a.get("id") == loop["var"]["id"] for a in args):
            continue
        for a in args:
            v = F.vars.get(a.get("id")) if a["k"] == "ref" else None
            if v is not None and v is not d and not F.inside(v, loop) and plain(v.get("t")) == plain(d.get("t")):
                yield c, a


def depends(F, e, vid, loop, seen):
    """Does e depend on variable vid, through variables defined in the loop?"""
    for r in walk(e):
        if r["k"] != "ref" or "id" not in r:
            continue
        if r["id"] == vid:
            return True
        if r["id"] in seen:
            continue
        seen.add(r["id"])
        d = F.vars.get(r["id"])
        if d is None or not F.inside(d, loop):
            continue
        srcs = ([d["init"]] if d.get("init") is not None else []) + [y for y, _ in F.assign.get(r["id"], [])]
        # what is done with it (or with an alias of it)
        for n in walk(loop["body"]):
            if n["k"] == "call" and n is not e:
                o = n.get("o")
                base = strip(o) if o is not None else None
                hit = base is not None and any(u["k"] == "ref" and (u.get("id") == r["id"] or alias(F, u, r["id"])) for u in walk(base))
                if hit:
                    srcs += n["a"]
        for s in srcs:
            if depends(F, s, vid, loop, seen):
                return True
    return False


def alias(F, u, vid):
    d = F.vars.get(u.get("id"))
    return d is not None and d.get("t", "").endswith("&") and d.get("init") is not None and any(x["k"] == "ref" and x.get("id") == vid for x in walk(d["init"]))


def depends_var(F, e, loop):
    """Does e (through locals of the loop) depend on the element of the loop?"""
    vid = loop["var"]["id"] if loop["k"] == "rfor" else next((d["id"] for d in walk(loop["init"]) if d["k"] == "var"), None) if loop.get("init") else None
    return vid is not None and depends(F, e, vid, loop, set())


# ---------------------------------------------------------------- planning
def planning(prog, rep):
    opt = [f for f in prog.fns("QueryPlanner::optimize") if f.get("body")]
    if not opt:
        raise AnalysisError("anchor vanished: QueryPlanner::optimize")
    f = opt[0]
    F = Fn(prog, f)
    rep.part(alternatives, prog, rep, f, F)
    own = lambda n: not any(p["k"] == "lambda" for p in F.ancestors(n))
    rets = [n for n in walk(f["body"]) if n["k"] == "ret" and n.get("e") is not None and own(n)]
    applies = [n for n in walk(f["body"]) if n["k"] == "call" and own(n) and n["a"] and any(x["k"] == "mem" and x["n"] == "_filters" for a in n["a"] for x in walk(a)) and
               "applyFilters" in n.get("fn", "")]
    names = {}
    for r in rets:
        base = r["e"]
        ids = [x["id"] for x in walk(base) if x["k"] == "ref" and "id" in x and x["id"] in F.vars]
        if not ids:
            continue
        v = ids[0]
        rep.inst("filters", "%s: %s returns %s" % (loc(f, r), f["qn"], F.vars[v]["n"]))
        last = [a for a in applies if any(x["k"] == "ref" and x.get("id") == v for x in walk(a["a"][0])) and F.order[id(a)] < F.order[id(r)]]
        if not last:
            rep.viol("filters", f["qn"], loc(f, r), "%s returns %s without applying the filters of the pattern" % (f["qn"], F.vars[v]["n"]))
            continue
        a = max(last, key=lambda a: F.order[id(a)])
        late = [n for n in walk(f["body"]) if own(n) and n["k"] == "call" and n.get("o") is not None and short(n) in ("push_back", "emplace_back", "insert") and
                any(x["k"] == "ref" and x.get("id") == v for x in walk(n["o"])) and F.order[id(a)] < F.order[id(n)] < F.order[id(r)]]
        if late:
            rep.viol("filters", f["qn"] + " late", loc(f, late[0]), "%s adds plans after the filters were applied" % f["qn"])
        flag = next((const_int(x) for x in a["a"][2:3]), None)
        if flag is not None and not flag:
            rep.viol("filters", f["qn"] + " keep", loc(f, a), "%s keeps plans without the filters next to the filtered ones" % f["qn"])
        for c, pol, node in F.guards(a):
            c = strip(c)
            txt = show(c)
            if not re.search(r"empty|size", txt):
                rep.viol("filters", f["qn"] + " guard", loc(f, a), "%s applies the filters only if %s" % (f["qn"], txt[:60]))
    # the rows of the query level
    ce = [g for g in prog.fns("QueryPlanner::createExecutionTree") if g.get("body")]
    if not ce:
        raise AnalysisError("anchor vanished: QueryPlanner::createExecutionTree")
    f = ce[0]
    F = Fn(prog, f)
    rowcalls = [n for n in walk(f["body"]) if n["k"] == "call" and re.match(r"QueryPlanner::get\w+Row$", n.get("fn", ""))]
    tabs = set()
    for n in rowcalls:
        tab = next((strip(a) for a in n["a"] if strip(a)["k"] == "ref" and "vector" in strip(a).get("t", "")), None)
        rep.inst("rows", "%s: %s" % (loc(f, n), short(n)))
        push = next((p for p in F.ancestors(n) if p["k"] == "call" and short(p) in ("emplace_back", "push_back")), None)
        if tab is None or push is None or strip(push["o"]).get("id") != tab.get("id"):
            rep.viol("rows", short(n), loc(f, n), "the plans of %s are not added after the plans it started from" % short(n))
            continue
        tabs.add(tab["id"])
        g = [h for h in prog.fns(n["fn"]) if h.get("body")]
        if g:
            G = Fn(prog, g[0])
            pid = next((p["id"] for p in g[0]["params"] if "vector" in p["t"]), None)
            for x in walk(g[0]["body"]):
                if x["k"] == "call" and (x.get("op") == "[]" and strip(x["a"][0]).get("id") == pid or x.get("o") is not None and strip(x["o"]).get("id") == pid and short(x) in ("back", "front", "at")):
                    ok = short(x) == "back" or x.get("op") == "[]" and re.search(r"size\(\) ?- ?1", show(x["a"][1]).replace("(", "(")) is not None
                    if not ok:
                        rep.viol("rows", g[0]["qn"], loc(g[0], x), "%s starts from %s, not from the plans of the step before" % (g[0]["qn"], show(x)[:40]))
    if len(tabs) != 1:
        raise AnalysisError("the table of plans of createExecutionTree was not recognised")
    tab = next(iter(tabs))
    reads = [n for n in walk(f["body"]) if n["k"] == "call" and (n.get("o") is not None and strip(n["o"]).get("id") == tab and short(n) in ("back", "front", "at") or n.get("op") == "[]" and strip(n["a"][0]).get("id") == tab)]
    finals = [n for n in reads if not any(p in rowcalls for p in F.ancestors(n))]
    if not finals:
        raise AnalysisError("no final choice of a plan found in createExecutionTree")
    for n in finals:
        if short(n) != "back" and not re.search(r"size\(\) ?- ?1", show(n)):
            rep.viol("rows", "final", loc(f, n), "the final plan is taken from %s, not from the last step" % show(n)[:40])
        for r in rowcalls:
            if F.order[id(r)] > F.order[id(n)]:
                rep.viol("rows", "final before " + short(r), loc(f, n), "the final plan is taken before %s is applied" % short(r))


# ---------------------------------------------------------------- output formats
def export(prog, rep, cg):
    need = {"_limit": "LIMIT", "_offset": "OFFSET", "_selectedVariables": "the selected variables"}
    comp = []
    for k in prog.all_keys():
        if k.startswith("T:") or b"ParsedQuery" not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        if f.get("cls") == "Server" and f.get("body") and any("ParsedQuery" in p["t"] for p in f["params"]) and any("QueryExecutionTree" in p["t"] for p in f["params"]):
            comp.append(f)
    for f in comp:
        pid = next(p["id"] for p in f["params"] if "ParsedQuery" in p["t"])
        got, calls = {}, []
        F = Fn(prog, f)
        for n in walk(f["body"]):
            if n["k"] == "mem" and n.get("b") and strip(n["b"]).get("id") == pid and not any(is_log(p) for p in F.ancestors(n)):
                got.setdefault(n["n"], n)
        rep.inst("export", "%s applies %s" % (f["qn"], ", ".join(sorted(got))))
        handed = any(n["k"] == "call" and any(strip(a).get("id") == pid for a in n["a"]) for n in walk(f["body"]))
        for x, what in need.items():
            if x not in got and not handed:
                rep.viol("export", "%s %s" % (f["qn"], x), loc(f), "%s writes the result without regard to %s" % (f["qn"], what))
        # the values must reach the writer
        for x in ("_limit", "_offset"):
            if x not in got:
                continue
            reads = lambda e: any(u["k"] == "mem" and u["n"] == x and u.get("b") and strip(u["b"]).get("id") == pid for u in walk(e))
            start = [v for v, d in F.vars.items() if d.get("init") is not None and reads(d["init"]) or any(reads(y) for y, _ in F.assign.get(v, []))]
            carry = set().union(*(aliases(F, v) for v in start)) if start else set()
            if not handed and not any(n["k"] == "call" and not n.get("op") and not is_log(n) and short(n) not in ("atol", "stoul", "stol", "c_str", "size", "empty", "min", "max") and
                                      any(reads(a) or any(u["k"] == "ref" and u.get("id") in carry for u in walk(a)) for a in n["a"]) for n in walk(f["body"])):
                rep.viol("export", "%s %s unused" % (f["qn"], x), loc(f, got[x]), "%s reads %s but does not hand it to the function that writes the result" % (f["qn"], x))


def aliases(F, vid):
    out = {vid}
    for v, d in F.vars.items():
        if d.get("init") is not None and any(u["k"] == "ref" and u.get("id") in out for u in walk(d["init"])):
            out.add(v)
        for y, _ in F.assign.get(v, []):
            if any(u["k"] == "ref" and u.get("id") in out for u in walk(y)):
                out.add(v)
    return out


def whole(prog, rep):
    f = [g for g in prog.fns(PARSER + "::parse") if g.get("body")]
    if not f:
        raise AnalysisError("anchor vanished: SparqlParser::parse")
    f = f[0]
    F = Fn(prog, f)
    ends = [n for n in walk(f["body"]) if lexcall(n, ("expectEmpty",)) or lexcall(n, ("empty",))]
    parse = [n for n in walk(f["body"]) if n["k"] == "call" and n.get("fn", "").startswith(PARSER + "::parse")]
    rep.inst("whole", loc(f))
    if not ends or not parse or max(F.order[id(n)] for n in ends) < max(F.order[id(n)] for n in parse):
        rep.viol("whole", f["qn"], loc(f), "%s accepts a query without looking whether anything follows it" % f["qn"])


if __name__ == "__main__":
    run("C14", check, level="other",
        explanation="Typestate simulation of the parser (a token that was taken must be used), a field-level write/read analysis of everything the parser stores, a loop-carried dependence analysis of the planner's loops over clauses, and structural queries about the planning steps and output formats.",
        assumptions=["a field that is read by planning or export code takes part in the answer", "functions that only render a query as text do not count as readers"])
