"""C18: every comparison, arithmetic operation and aggregate is carried out as exactly the operation that was asked for."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from peval import Spec, Env
from place import Fn, conj

SYM = {"EQ": "=", "NE": "!=", "LT": "<", "LE": "<=", "GT": ">", "GE": ">="}
WANT = {"EQ": {1}, "NE": {0, 2}, "LT": {0}, "LE": {0, 1}, "GT": {2}, "GE": {1, 2}}      # of: smaller, equal, greater
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
FT, RT, AG = "SparqlFilter::FilterType", "ResultTable::ResultType", "ParsedQuery::AggregateType"


class Unclear(Exception):
    pass


def check(prog, rep):
    inst = rep.inst
    rep.inst = lambda rid, where, what: inst(rid, f"{where}: {what}")
    rep.rule("token", "the operator or aggregate the parser records is the one it has read", 13)
    rep.rule("operands", "the parser records what stands left of the operator as left operand and what stands right of it as right operand", 2)
    rep.rule("rows", "the rows a filter keeps are those for which the comparison that was asked for holds, whatever strategy is used", 60)
    rep.rule("bound", "the ids a comparison with a fixed value is translated to stand for exactly the words for which it holds", 6)
    rep.rule("reader", "values are compared as values of the type of their column", 60)
    rep.rule("types", "a filter is carried out for the type of the column it compares", 8)
    rep.rule("symbol", "a filter is described by the operator it carries out", 12)
    rep.rule("order", "rows are put into the order of the values of their columns", 1)
    rep.rule("arith", "an arithmetic operation is carried out with its operator and its operands in order", 6)
    rep.rule("agg", "an aggregate combines the values of its group with its own operation", 20)
    rep.rule("group", "a group consists of all of its rows and of no others", 20)
    rep.rule("distinct", "with DISTINCT every value of a group counts once, and the next group starts anew", 10)
    rep.rule("sep", "concatenated values are separated, and nothing follows the last one", 8)
    fns = [f for k in sorted(prog.all_keys()) if not k.startswith("T:") for f in (prog.fn(k),) if f["file"].startswith("src/") and f.get("body")]
    rep.part(tokens, prog, rep, fns)
    rep.part(filters, prog, rep)
    rep.part(symbols, prog, rep, fns)
    rep.part(orders, prog, rep, fns)
    rep.part(arith, prog, rep)
    rep.part(groups, prog, rep)


def enum(prog, qn):
    return dict(prog.enum(qn)["e"])


# ---------------------------------------------------------------- what the parser records
def literal(e):
    e = strip(e)
    while e is not None and e["k"] == "ctor" and e["a"]:
        e = strip(e["a"][0])
    return e.get("v") if e is not None and e["k"] == "str" else None


def read_words(F, n):
    """Literals that were read or compared before n is reached, innermost last."""
    out = []
    for c, pol, _ in reversed(F.guards(n)):
        for e, p in conj(c, pol):
            if not p:
                continue
            if e["k"] == "call" and not e.get("op") and e["a"] and literal(e["a"][0]) is not None and "Lexer" in (e.get("fn") or ""):
                out.append(literal(e["a"][0]))
            r = (e["op"], e["x"], e["y"]) if e["k"] == "bin" else (e.get("op"), *e["a"]) if e["k"] == "call" and len(e["a"]) == 2 else (None, 0, 0)
            if r[0] == "==":
                for s in (r[1], r[2]):
                    if literal(s) is not None:
                        out.append(literal(s))
    return out


def tokens(prog, rep, fns):
    want = {FT: SYM, AG: None}
    for f in fns:
        if "/parser/" not in f["file"] and "Parser" not in (f.get("cls") or ""):
            continue
        if not any(n["k"] == "ref" and n.get("en") in want for n in walk(f["body"])):
            continue
        F = Fn(prog, f)
        optoks = []
        for n in walk(f["body"]):
            if n["k"] != "ref" or n.get("en") not in want or n.get("dk") != "enum":
                continue
            # assigned or returned, not compared
            anc = next((a for a in F.ancestors(n) if a["k"] not in ("cast",)), None)
            if anc is None or not (anc["k"] == "ret" or anc["k"] == "bin" and anc["op"] == "=" or anc["k"] == "var" or anc["k"] == "ctor"):
                continue
            if n["en"] == FT and n["n"] not in SYM:
                continue
            words = read_words(F, n)
            if n["en"] == FT:
                words += expected(F, n, words)
                if not words or words[-1] not in ("=", "!", "<", ">", "<=", ">=", "!=", "=="):
                    continue
                optoks.append(n)
                got = "".join(words[-2:]) if len(words) > 1 and words[-1] == "=" else words[-1]
                ok, w = got == SYM[n["n"]], SYM[n["n"]]
            else:
                if not words:
                    continue
                got, w = words[-1], n["n"].lower()
                ok = got.lower() == w
            rep.inst("token", loc(f, n), f"{n['n']} after reading '{got}'")
            if not ok:
                rep.viol("token", f"{short_qn(f)}:{n['n']}", loc(f, n), f"'{got}' is recorded as {n['n']}, which stands for '{w}'")
        # left and right operand
        for fld in ("_lhs", "_rhs"):
            ws = [n for n in walk(f["body"]) if written(n) == fld]
            for w in ws:
                place = [before(F, w, o) for o in optoks]
                place = {p for p in place if p is not None}
                if len(place) != 1:
                    continue
                rep.inst("operands", loc(f, w), f"{fld} read {'before' if True in place else 'after'} the operator")
                if (True in place) != (fld == "_lhs"):
                    rep.viol("operands", f"{short_qn(f)}:{fld}", loc(f, w), f"{fld} is what stands {'left' if fld == '_rhs' else 'right'} of the operator")


def short_qn(f):
    return f["qn"].split("::", 1)[-1] if f["qn"].startswith("ad_") else f["qn"]


def written(n):
    if n["k"] == "bin" and n["op"] == "=" or n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
        x = strip(n["x"] if n["k"] == "bin" else n["a"][0])
        if x["k"] == "mem":
            return x["n"]
    return None


def before(F, a, b):
    """Is a in an earlier statement of a common block than b (None: no common block decides)?"""
    anc = {id(x): None for x in F.ancestors(a)}
    for x in F.ancestors(b):
        if id(x) in anc:
            if x["k"] != "blk":
                return None
            ia = next((i for i, s in enumerate(x["s"]) if s is not None and (s is a or F.inside(a, s))), None)
            ib = next((i for i, s in enumerate(x["s"]) if s is not None and (s is b or F.inside(b, s))), None)
            return None if ia is None or ib is None or ia == ib else ia < ib
    return None


def expected(F, n, words):
    """Literals demanded by expect() in the blocks around n, inside the branch of the last word read."""
    out = []
    for x in F.ancestors(n):
        if x["k"] == "blk":
            mine = []
            for s in x["s"]:
                if s is None or F.inside(n, s) or s is n:
                    break
                e = strip(s)
                if e["k"] == "call" and e["a"] and literal(e["a"][0]) is not None and "Lexer" in (e.get("fn") or ""):
                    mine.append(literal(e["a"][0]))
            out = mine + out
        if x["k"] == "if":
            break
    return out


# ---------------------------------------------------------------- filters
class Filter:
    """One instantiation of a function of Filter, for one operator."""

    def __init__(self, prog, f, roles, spec):
        self.prog, self.f, self.roles, self.spec = prog, f, roles, spec
        self.readers = set()

    def column(self, e):
        """Role of the column index e."""
        e = strip(e)
        return self.roles.get(e.get("id")) if e["k"] == "ref" else None

    def value(self, e, row):
        """('col', role) or the id of the parameter an operand of a comparison stands for."""
        e = strip(e)
        read = None
        while e["k"] == "call" and short(e) == "get" and "ValueReader" in (e.get("fn") or e.get("fk") or ""):
            m = re.search(r"ValueReader<(\d+)>", e.get("fk") or "")
            read = int(m.group(1)) if m else None
            e = strip(e["a"][0])
        b = i = None
        if e["k"] == "sub":
            b, i = e["b"], e["i"]
        elif e["k"] == "call" and e.get("op") == "[]":
            b, i = e["a"]
        if b is not None:
            base = strip(b)
            while base["k"] == "un" and base["op"] == "*" or base["k"] == "call" and base.get("op") == "*":
                base = strip(base["x"] if base["k"] == "un" else base["a"][0])
            role = self.column(i)
            if role is None:
                raise Unclear(f"column {show(i)}")
            return ("col", role, base.get("id")), read
        if e["k"] == "ref":
            return ("val", e.get("id")), read
        raise Unclear(show(e))

    def truth(self, e, left, right, point, env=None):
        """Value of a predicate where the left operand is at a point of the order (see points)."""
        e = strip(e)
        if e["k"] == "bin" and e["op"] == "&&":
            return self.truth(e["x"], left, right, point) and self.truth(e["y"], left, right, point)
        if e["k"] == "bin" and e["op"] == "||":
            return self.truth(e["x"], left, right, point) or self.truth(e["y"], left, right, point)
        if e["k"] == "un" and e["op"] == "!":
            return not self.truth(e["x"], left, right, point)
        if e["k"] == "cond":
            c = self.spec.const(e["c"], Env({}))
            if c is not None:
                return self.truth(e["x"] if c else e["y"], left, right, point)
            return self.truth(e["x"] if self.truth(e["c"], left, right, point) else e["y"], left, right, point)
        if e["k"] == "call" and (e.get("op") == "()" or e.get("ce")) and e["a"]:
            fn = strip(e["a"][0] if e.get("op") == "()" else e["ce"])
            arg = e["a"][-1]
            lam = self.local_lambda(fn)
            if lam:
                ret = one_return(lam)
                pid = lam["params"][0]["id"]
                return self.truth(subst(ret, pid, arg), left, right, point)
        if e["k"] == "bin" and e["op"] in FLIP or e["k"] == "call" and e.get("op") in FLIP:
            op, x, y = (e["op"], e["x"], e["y"]) if e["k"] == "bin" else (e["op"], *e["a"])
            vx, rx = self.value(x, None)
            vy, ry = self.value(y, None)
            self.readers |= {(rx, e.get("l")), (ry, e.get("l"))}
            if vx[:2] == left:
                b = vy
            elif vy[:2] == left:
                op, b = FLIP[op], vx
            else:
                raise Unclear("neither operand is the left one: " + show(e))
            key = b[:2]
            if key not in right:
                raise Unclear("not the right operand: " + show(e))
            c = point - right[key]
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        c = self.spec.const(e, Env({}))
        if c is not None:
            return bool(c)
        raise Unclear(show(e))

    def local_lambda(self, fn):
        if fn["k"] == "lambda":
            return fn
        if fn["k"] == "ref":
            for n in walk(self.f["body"]):
                if n["k"] == "var" and n["id"] == fn.get("id") and n.get("init"):
                    i = strip(n["init"])
                    return i if i["k"] == "lambda" else None
        return None


def one_return(lam):
    rs = [n for n in walk(lam["body"]) if n["k"] == "ret"]
    if len(rs) != 1 or not rs[0].get("e"):
        raise Unclear("a lambda with several returns")
    return rs[0]["e"]


def subst(e, pid, arg):
    if isinstance(e, dict):
        if e.get("k") == "ref" and e.get("id") == pid:
            return arg
        return {k: subst(v, pid, arg) for k, v in e.items()}
    if isinstance(e, list):
        return [subst(x, pid, arg) for x in e]
    return e


def roles_of(prog):
    """{function key: {parameter or local id: 'L'/'R'}} for column indices of the operands in Filter."""
    out, todo = {}, []
    fs = [prog.fn(k) for k in sorted(prog.all_keys()) if not k.startswith("T:") and b'"Filter"' in prog.raw["F"][k]]
    fs = [f for f in fs if f.get("cls") == "Filter" and f.get("body")]
    for f in fs:
        m = out.setdefault(f["key"], {})
        for n in walk(f["body"]):
            if n["k"] == "var" and n.get("init"):
                r = origin(n["init"])
                if r:
                    m[n["id"]] = r
    changed = True
    while changed:
        changed = False
        for f in fs:
            for n in walk(f["body"]):
                if n["k"] != "call" or not n.get("fk"):
                    continue
                for g in prog.targets(n) if hasattr(prog, "targets") else []:
                    g = prog.fn(g) if isinstance(g, str) else g
                    if not g or g.get("cls") != "Filter":
                        continue
                    for q, a in zip(g["params"], n["a"]):
                        a = strip(a)
                        r = origin(a) or (out[f["key"]].get(a.get("id")) if a["k"] == "ref" else None)
                        if r:
                            m = out.setdefault(g["key"], {})
                            old = m.get(q["id"])
                            new = r if old in (None, r) else "?"
                            if new != old:
                                m[q["id"]], changed = new, True
    return fs, out


def origin(e):
    e = strip(e)
    if e["k"] == "call" and short(e) == "getVariableColumn" and e["a"]:
        x = strip(e["a"][0])
        if x["k"] == "mem" and x["n"] in ("_lhs", "_rhs"):
            return "L" if x["n"] == "_lhs" else "R"
    return None


def filters(prog, rep):
    ft, rt = enum(prog, FT), enum(prog, RT)
    names = {v: k for k, v in rt.items()}
    fs, roles = roles_of(prog)
    kept = {}
    for f in fs:
        if not any(n["k"] == "call" and (short(n) == "filter" or short(n) in ("lower_bound", "upper_bound")) for n in walk(f["body"])):
            continue
        m = re.match(r"[\w:]+<(\d+)", f["key"])
        T = int(m.group(1)) if m else None
        sw = any(n["k"] == "mem" and n["n"] == "_type" and (not n.get("b") or strip(n["b"])["k"] == "this") for n in walk(f["body"]))
        for op in SYM:
            kept[f["key"], op] = rep.part(rows, prog, rep, f, roles.get(f["key"], {}), op if sw else None, ft[op], T, names)
            if not sw:
                break
    bounds(prog, rep, fs, roles, ft, rt, kept)
    types(prog, rep, fs, roles, rt)


def rows(prog, rep, f, roles, op, opv, T, names):
    """Points of the order whose rows the function keeps; compares strategies with the operator."""
    spec = Spec(prog, "Filter", {"_type": opv}, inline=lambda g: False, limit=64)
    params = {q["id"]: q for q in f["params"]}
    cols = {i: r for i, r in roles.items()}
    vals = [q["id"] for q in f["params"] if q["id"] not in cols and re.fullmatch(r"(const )?(unsigned long|Id)", q["t"])]
    A = Filter(prog, f, cols, spec)
    left = ("col", "L")
    if "R" in cols.values():
        right = {("col", "R"): 1}
    elif len(vals) == 1:
        right = {("val", vals[0]): 1}
    elif len(vals) == 2:
        right = {("val", vals[0]): 1, ("val", vals[1]): 3}
    else:
        return None
    top = max(right.values()) + 1                  # points 0 .. top
    what = f"{short_qn(f)}<{names.get(T, T)}>" + (f" for {op}" if op else "")
    res, seen = None, 0
    done = set()
    for p in spec.paths(f):
        if p.end == "throw":
            continue
        try:
            got = path_rows(A, p, left, right, top)
        except Unclear as e:
            raise AnalysisError(f"{what}: cannot tell which rows are kept ({e})")
        if got is None:
            continue
        pts, empty, strategy, node = got
        k = (tuple(pts), tuple(sorted(empty)), strategy)
        if k in done:
            continue
        done.add(k)
        seen += 1
        rep.inst("rows", loc(f, node), f"{what}: {strategy}")
        key = f"{short_qn(f)}:{names.get(T, T)}:{op or ''}:{strategy}"
        if sorted(pts) != list(pts) and strategy != "scan":
            rep.viol("rows", key, loc(f, node), f"{what}: the ranges are copied in another order than that of the input")
        if len(set(pts)) != len(pts):
            rep.viol("rows", key, loc(f, node), f"{what}: rows are copied twice")
        if op:
            miss = sorted((WANT[op] ^ set(pts)) - empty)
            if miss:
                rep.viol("rows", key, loc(f, node), f"{what}: {strategy} is wrong for rows whose value is " + ", ".join(("smaller than", "equal to", "greater than")[x] for x in miss) + " the right operand")
        elif res is not None and (set(pts) ^ res) - empty:
            rep.viol("rows", key, loc(f, node), f"{what}: the strategies keep different rows")
        if res is None or not empty:
            res = set(pts)
        if strategy == "search":
            gs = [x for c, pol, _ in p.guards for x in conj(named(f, c), pol)]
            if not any(sorted_by(A, x, pol) for x, pol in gs):
                rep.viol("rows", f"{short_qn(f)}:{names.get(T, T)}:{op or ''}:sorted", loc(f, node), f"{what}: the rows are searched although they need not be sorted by the column first of all")
        if strategy == "search" and names.get(T) == "FLOAT":
            rep.viol("reader", f"{short_qn(f)}:search", loc(f, node), f"{what}: a column of floats is sorted by its bits, not by its values, and cannot be searched for a value")
        for r, l in sorted(A.readers, key=str):
            rep.inst("reader", f"{f['file']}:{l}", what)
            if names.get(T) == "FLOAT" and r != T:
                rep.viol("reader", f"{short_qn(f)}:{op}:{strategy}", f"{f['file']}:{l}", f"{what}: the bits of floats are compared instead of their values")
            elif r is not None and r != T:
                rep.viol("reader", f"{short_qn(f)}:{op}:{strategy}", f"{f['file']}:{l}", f"{what}: values are read as {names.get(r, r)}")
        A.readers = set()
    if not seen and op:
        rep.viol("rows", f"{short_qn(f)}:{op}:none", loc(f), f"{what}: no rows are selected")
    return res


def sorted_by(A, e, pol):
    """Does the condition say that the column of the left operand is the first one of the order?"""
    if not (e["k"] == "bin" and e["op"] in ("==", "!=") and (e["op"] == "==") == pol):
        return False
    for x, y in ((strip(e["x"]), strip(e["y"])), (strip(e["y"]), strip(e["x"]))):
        first = x["k"] == "call" and (x.get("op") == "[]" and const_int(x["a"][1]) == 0 or short(x) == "front" and x.get("o") or short(x) == "at" and x["a"] and const_int(x["a"][0]) == 0)
        if first and A.column(y) == "L" and re.search(r"sorted", show(x), re.I):
            return True
    return False


def path_rows(A, p, left, right, top):
    """(points kept, points known to be empty, strategy, node)"""
    vars_, arr, rowvars = {}, {}, {}
    out, node, strategy = [], None, None
    empty = set()
    allpts = list(range(top + 1))
    inp = None

    def pos(e):
        e = strip(e)
        while e["k"] == "ctor" and len(e["a"]) == 1:
            e = strip(e["a"][0])
        if e["k"] == "ref" and e.get("id") in vars_:
            return vars_[e["id"]]
        if e["k"] == "call" and short(e) in ("begin", "cbegin"):
            return (0, base(e))
        if e["k"] == "call" and short(e) in ("end", "cend"):
            return (top + 1, base(e))
        if e["k"] == "call" and short(e) in ("lower_bound", "upper_bound") and len(e["a"]) >= 3:
            b, x = pos(e["a"][0]), pos(e["a"][1])
            v = bound(e["a"][2])
            lam = A.local_lambda(strip(e["a"][3])) if len(e["a"]) > 3 else None
            if lam:
                comparator(A, lam)
            r = v if short(e) == "lower_bound" else v + 1
            if r < b[0] or r > x[0]:
                raise Unclear("searched outside the range: " + show(e))
            return (r, b[1])
        raise Unclear("position " + show(e))

    def base(e):
        o = strip(e.get("o") or (e["a"][0] if e["a"] else e))
        return o.get("id") or show(o)

    def bound(e):
        e = strip(e)
        k = ("val", e.get("id"))
        if k in right:
            return right[k]
        if e["k"] == "ref" and e.get("id") in rowvars:
            v = arr.get(rowvars[e["id"]])
            if v is None:
                raise Unclear("the row searched for has no value")
            return v
        raise Unclear("searched for " + show(e))

    for n, env in p.events:
        if n["k"] == "var" and n.get("init"):
            i = strip(n["init"])
            if i["k"] == "call" and short(i) in ("lower_bound", "upper_bound"):
                vars_[n["id"]] = pos(i)
            elif i["k"] == "ctor" and i["a"]:
                a = strip(i["a"][0])
                if a["k"] == "call" and short(a) in ("data", "get", "begin") and a.get("o") is not None:
                    a = strip(a["o"])
                if a["k"] == "un" and a["op"] == "&":
                    y = strip(a["x"])
                    a = strip(y["b"]) if y["k"] == "sub" else strip(y["a"][0]) if y["k"] == "call" and y.get("op") == "[]" else a
                if a["k"] == "ref" and "Row" in (n.get("t") or ""):
                    rowvars[n["id"]] = a.get("id")
        elif n["k"] == "bin" and n["op"] == "=":
            x = strip(n["x"])
            if x["k"] == "call" and x.get("op") == "[]":
                x = dict(x, k="sub", b=x["a"][0], i=x["a"][1])
            if x["k"] == "sub" and strip(x["b"])["k"] == "ref":
                if A.column(x["i"]) == "L":
                    y = strip(n["y"])
                    arr[strip(x["b"])["id"]] = right.get(("val", y.get("id")))
        elif n["k"] == "call" and short(n) == "insert" and len(n["a"]) == 3:
            a, b = pos(n["a"][1]), pos(n["a"][2])
            if a[1] != b[1]:
                raise Unclear("a range over two tables")
            out += allpts[a[0]:b[0]]
            node, strategy = n, "search"
        elif n["k"] == "call" and short(n) == "filter" and len(n["a"]) == 3:
            lam = A.local_lambda(strip(n["a"][1]))
            if lam is None:
                raise Unclear("the predicate of " + show(n))
            ret = one_return(lam)
            if not compares(A, ret):
                return None
            out += [x for x in allpts if A.truth(ret, left, right, x)]
            node, strategy = n, "scan"
    found = [n for n, _ in p.events if n["k"] == "var" and n["id"] in vars_]
    if node is None:
        if not found:
            return None
        node, strategy = found[0], "search"
    for c, pol, env in p.guards:
        empty |= excluded(A, c, pol, vars_, right, top)
    return out, empty, strategy, node


def compares(A, e):
    return any(n["k"] == "bin" and n["op"] in FLIP or n["k"] == "call" and n.get("op") in FLIP for n in walk(e)) and not any(n["k"] == "call" and short(n) in ("any_of", "endsWith", "regex_search") for n in walk(e)) and \
        all(strip(n)["k"] != "mem" or strip(n)["n"] not in ("first", "second") for n in walk(e))


def comparator(A, lam):
    """The comparator of a search must be 'first < second' on the column."""
    e = strip(one_return(lam))
    op, x, y = (e["op"], e["x"], e["y"]) if e["k"] == "bin" else (e.get("op"), *e["a"]) if e["k"] == "call" and len(e["a"]) == 2 else (None, None, None)
    ids = [q["id"] for q in lam["params"]]

    def par(v):
        v, r = A.value(v, None)
        A.readers.add((r, e.get("l")))
        if v[0] == "col" and v[1] != "L":
            raise Unclear("searched on another column")
        return v[2] if v[0] == "col" else v[1]
    if op not in ("<", ">"):
        raise Unclear("comparator " + show(e))
    a, b = par(x), par(y)
    if op == ">":
        a, b = b, a
    if [a, b] != ids:
        raise Unclear("comparator " + show(e))


def named(f, c):
    """The expression a condition that is only a variable stands for."""
    e = strip(c)
    for _ in range(4):
        if e["k"] != "ref" or "id" not in e:
            break
        d = [n for n in walk(f["body"]) if n["k"] == "var" and n["id"] == e["id"] and n.get("init")]
        w = [n for n in walk(f["body"]) if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and strip(n["x"]).get("id") == e["id"]]
        if len(d) != 1 or w:
            break
        e = strip(d[0]["init"])
    return e


def excluded(A, c, pol, vars_, right, top):
    """Points without rows where the condition is known to have the value pol."""
    def atom(e, p):
        if e["k"] == "bin" and e["op"] in ("==", "!=") or e["k"] == "call" and e.get("op") in ("==", "!="):
            op, x, y = (e["op"], e["x"], e["y"]) if e["k"] == "bin" else (e["op"], *e["a"])
            eq = (op == "==") == p
            for u, v in ((strip(x), strip(y)), (strip(y), strip(x))):
                if u["k"] == "ref" and u.get("id") in vars_ and v["k"] == "call" and short(v) in ("end", "cend"):
                    return set(range(vars_[u["id"]][0], top + 1)) if eq else set()
                try:
                    a, _ = A.value(u, None)
                    b, _ = A.value(v, None)
                except Unclear:
                    continue
                if a[0] == "col" and a[2] in vars_ and b[:2] in right and vars_[a[2]][0] == right[b[:2]]:
                    return set() if eq else {right[b[:2]]}
        return None
    c = named(A.f, c)
    cs = [atom(e, p) for e, p in conj(c, pol)]
    if len(cs) > 1:
        return set().union(*[x for x in cs if x])
    if cs[0] is not None:
        return cs[0]
    e = strip(c)
    while e["k"] == "un" and e["op"] == "!":
        e, pol = strip(e["x"]), not pol
    if e["k"] == "bin" and e["op"] == ("||" if pol else "&&"):        # one of the parts decides
        parts = [excluded(A, x, pol, vars_, right, top) for x in (e["x"], e["y"])]
        return parts[0] & parts[1]
    return set()


# ---------------------------------------------------------------- fixed values of the knowledge base
def word_bound(prog, e, env, depth=0):
    """1: first word that is not smaller, 2: first word that is greater, 0: first word of all."""
    e = strip(e)
    if const_int(e) == 0:
        return 0
    if e["k"] == "call":
        if short(e) == "lower_bound":
            return 1
        if short(e) == "upper_bound":
            return 2
        for g in prog.targets(e):
            g = prog.fn(g) if isinstance(g, str) else g
            if g and g.get("body") and depth < 4:
                vals = set()
                F = Fn(prog, g)
                for r in walk(g["body"]):
                    if r["k"] == "ret" and r.get("e"):
                        x = strip(r["e"])
                        if x["k"] == "ref" and "id" in x:
                            i = F.single(x["id"])
                            vals.add(word_bound(prog, i, None, depth + 1) if i is not None else None)
                        else:
                            vals.add(word_bound(prog, x, None, depth + 1))
                if len(vals) == 1:
                    return vals.pop()
    return None


def bounds(prog, rep, fs, roles, ft, rt, kept):
    for f in fs:
        cs = [n for n in walk(f["body"]) if n["k"] == "call" and n.get("fk") and any(kept.get((g, "EQ")) is not None for g in targets(prog, n))]
        if not cs or not any(n["k"] == "call" and short(n) == "getResultType" for n in walk(f["body"])):
            continue
        for op in SYM:
            spec = Spec(prog, "Filter", {"_type": ft[op]}, inline=lambda g: False, limit=4096, calls={"getResultType": rt["KB"]})
            results = set()
            for p in spec.paths(f):
                if p.end == "throw":
                    continue
                loc_ = {}
                last = None
                for n, env in p.events:
                    if n["k"] == "var" and n.get("init") is not None:
                        loc_[n["id"]] = (n["init"], env)
                    elif n["k"] == "bin" and n["op"] == "=" and strip(n["x"])["k"] == "ref":
                        loc_[strip(n["x"])["id"]] = (n["y"], env)
                    elif n["k"] == "call" and any(kept.get((g, "EQ")) is not None for g in targets(prog, n)):
                        last = (n, dict(loc_))
                if last is None or not consistent(spec, p, loc_):
                    continue
                n, env = last
                g = next(g for g in targets(prog, n) if kept.get((g, "EQ")) is not None)
                gf = prog.fn(g)
                pts = kept.get((g, op), kept.get((g, "EQ")))
                if pts is None:
                    continue
                args = [a for q, a in zip(gf["params"], n["a"]) if re.fullmatch(r"(const )?(unsigned long|Id)", q["t"]) and q["id"] not in roles.get(g, {})]
                bs = []
                for a in args:
                    a = strip(a)
                    if a["k"] == "ref" and a.get("id") in env:
                        a = env[a["id"]][0]
                    bs.append(word_bound(prog, a, None))
                results.add((g, tuple(sorted(pts)), tuple(bs), loc(f, n)))
            if not results:
                raise AnalysisError(f"no comparison of {op} with a fixed value found in {f['qn']}")
            for g, pts, bs, where in sorted(results, key=str):
                rep.inst("bound", where, f"{op}: {short_qn(prog.fn(g))}{bs}")
                if None in bs:
                    raise AnalysisError(f"{where}: cannot tell which word the bound of {op} stands for")
                got = set()
                for w in (0, 1, 2):                 # smaller, equal, greater words lie at 0.5, 1.5, 2.5 of the bounds
                    x = w + 0.5
                    if len(bs) == 1:
                        pt = 0 if x < bs[0] else 2        # an id between the bounds is never equal unless the word exists
                        if op in ("EQ", "NE"):
                            pt = 1 if w == 1 and bs[0] == 1 else pt
                    else:
                        pt = 0 if x < bs[0] else 2 if x < bs[1] else 4
                    if pt in pts:
                        got.add(w)
                if got != WANT[op]:
                    rep.viol("bound", f"{short_qn(f)}:{op}", where, f"{op} keeps the words that are " + (", ".join(("smaller than", "equal to", "greater than")[x] for x in sorted(got)) or "none of") + " the one in the query")


def targets(prog, n):
    return [g if isinstance(g, str) else g["key"] for g in prog.targets(n)] if n.get("fk") else []


def consistent(spec, p, env):
    for c, pol, e in p.guards:
        for x, q in conj(c, pol):
            if x["k"] == "ref" and x.get("id") in env:
                v, ve = env[x["id"]]
                v = spec.const(v, ve)
                if v is not None and bool(v) != q:
                    return False
    return True


def types(prog, rep, fs, roles, rt):
    names = {v: k for k, v in rt.items()}
    for f in fs:
        for n in walk(f["body"]):
            pass
        sws = [n for n in walk(f["body"]) if n["k"] == "switch" and "ResultType" in ((strip(n["c"]).get("t") or ""))]
        if not sws:
            continue
        for name, v in sorted(rt.items()):
            par = [q["id"] for q in f["params"] if q["t"].endswith("ResultType")]
            env = Env({i: (dict(k="int", v=v, t="int"), Env({})) for i in par})
            spec = Spec(prog, "Filter", {}, inline=lambda g: False, limit=512, calls={"getResultType": v})
            seen = set()
            for p in spec.paths(f, env):
                if p.end == "throw":
                    continue
                for n, e in p.events:
                    if n["k"] != "call" or not n.get("fk") or (n["fk"], n.get("l")) in seen:
                        continue
                    for g in targets(prog, n):
                        m = re.match(r"[\w:]+<(\d+)[,>]", g)
                        gf = prog.fn(g)
                        if not m or not gf or gf.get("cls") != "Filter" or g.startswith(f["qn"]) or "unsigned long" not in g:
                            continue
                        seen.add((n["fk"], n.get("l")))
                        if prog_is_width(prog, g):
                            continue
                        rep.inst("types", loc(f, n), f"{name}: {gf['n']}")
                        if int(m.group(1)) != v and not (gf["n"].endswith("Range")):
                            rep.viol("types", f"{short_qn(f)}:{name}", loc(f, n), f"a column of type {name} is filtered as {names.get(int(m.group(1)), m.group(1))}")
        for n in walk(f["body"]):
            pass
    # two columns are compared only if both have the same type and their ids stand for values
    for f in fs:
        R = roles.get(f["key"], {})
        role = lambda a: origin(a) or (R.get(strip(a).get("id")) if strip(a)["k"] == "ref" else None)
        if not any(n["k"] == "call" and short(n) == "getResultType" for n in walk(f["body"])):
            continue
        both = [n for n in walk(f["body"]) if n["k"] == "call" and n.get("fk") and {"L", "R"} <= {role(a) for a in n["a"]}]
        if not both:
            continue
        F = Fn(prog, f)
        rep.inst("types", loc(f, both[0]), "two columns have the same type")

        def same(e, pol):
            e = strip(e)
            if e["k"] != "bin" or e["op"] not in ("==", "!=") or (e["op"] == "==") != pol:
                return False
            rs = {role(x["a"][0]) for x in (named(f, e["x"]), named(f, e["y"])) if x["k"] == "call" and short(x) == "getResultType" and x["a"]}
            return rs == {"L", "R"}
        for n in both:
            if not any(same(e, p) for c, pol, _ in F.guards(n) for e, p in conj(named(f, c), pol)):
                rep.viol("types", f"{short_qn(f)}:mixed", loc(f, n), "columns of different types are compared as if they had the same one")
                break
        v = rt["LOCAL_VOCAB"]
        spec = Spec(prog, "Filter", {}, inline=lambda g: False, limit=512, calls={"getResultType": v})
        for p in spec.paths(f, Env({})):
            if p.end != "throw" and any(n is b for n, _ in p.events for b in both):
                rep.viol("types", f"{short_qn(f)}:assembled", loc(f, both[0]), "assembled strings in two columns are compared by their ids")
                break
    # the type that is passed on is that of the left operand's column
    for f in fs:
        for n in walk(f["body"]):
            if n["k"] == "call" and short(n) == "getResultType" and n["a"]:
                a = strip(n["a"][0])
                r = origin(a) or roles.get(f["key"], {}).get(a.get("id"))
                rep.inst("types", loc(f, n), "type of the column that decides")
                if r == "R" and not compared_types(f, n):
                    rep.viol("types", f"{short_qn(f)}:decides", loc(f, n), "the filter is carried out for the type of the right operand's column")


def compared_types(f, n):
    return any(m["k"] == "bin" and m["op"] in ("==", "!=") and any(x is n for x in walk(m)) for m in walk(f["body"]))


def prog_is_width(prog, g):
    """Is the first template argument a width and not a type?"""
    return bool(re.match(r"[\w:]+<(\d+|N)>", g))


# ---------------------------------------------------------------- descriptions
def symbols(prog, rep, fns):
    ft = enum(prog, FT)
    for f in fns:
        for sw in [n for n in walk(f["body"]) if n["k"] == "switch"]:
            c = strip(sw["c"])
            if c["k"] != "mem" or c["n"] != "_type":
                continue
            labs = Spec(prog, None, {}).flat(sw["body"])
            cur = set()
            texts = {}
            for lab, st in labs:
                if lab is not None:
                    cur.add(lab)
                elif st is not None:
                    if st["k"] == "break":
                        cur = set()
                        continue
                    for s in walk(st):
                        if s["k"] == "str":
                            for x in cur:
                                texts.setdefault(x, []).append((s["v"], s))
                    if any(s["k"] in ("break", "ret") for s in walk(st)):
                        cur = set()
            inv = {v: k for k, v in ft.items()}
            if not any(n.get("en") == FT for n in walk(sw)) or any(n["k"] == "lambda" for n in walk(sw)) or not texts:
                continue
            for v, ts in sorted(texts.items()):
                op = inv.get(v)
                if op not in SYM:
                    continue
                t, s = ts[0]
                rep.inst("symbol", loc(f, s), f"{op}: '{t}'")
                if t.strip().replace("==", "=") != SYM[op] and t.strip() != op:
                    rep.viol("symbol", f"{short_qn(f)}:{op}", loc(f, s), f"{op} is described as '{t.strip()}'")


# ---------------------------------------------------------------- ORDER BY
def orders(prog, rep, fns):
    for f in fns:
        if f.get("cls") != "OrderBy" or f["n"] != "computeResult":
            continue
        for c in walk(f["body"]):
            if c["k"] != "lambda" or len(c["params"]) != 2:
                continue
            cmp = [n for n in walk(c["body"]) if n["k"] in ("bin", "call") and n.get("op") in ("<", ">")]
            if not cmp:
                continue
            rep.inst("order", loc(f, c), "comparison of ORDER BY")
            directions(rep, f, c)
            text = " ".join(show(n) for n in walk(c["body"]) if n["k"] in ("call", "ref", "mem"))
            if not re.search(r"ValueReader|esultType|FLOAT|float", text):
                rep.viol("order", "OrderBy::computeResult:bits", loc(f, c), "columns of floats are ordered by their bits, negative values after positive ones")
            return


def directions(rep, f, lam):
    """For each relation of two rows in one column and each direction: what the comparison answers."""
    a, b = (q["id"] for q in lam["params"])
    loops_ = [n for n in walk(lam["body"]) if n["k"] in ("rfor", "for")]
    if len(loops_) != 1:
        raise AnalysisError("%s: no loop over the columns of ORDER BY" % loc(f, lam))

    class Stop(Exception):
        pass

    def ev(e, env):
        e = strip(e)
        c = const_int(e)
        if c is not None:
            return c
        if e["k"] == "un" and e["op"] == "!":
            return not ev(e["x"], env)
        if e["k"] == "cond":
            return ev(e["x"] if ev(e["c"], env) else e["y"], env)
        if e["k"] == "bin" and e["op"] in ("&&", "||"):
            x = ev(e["x"], env)
            return ev(e["y"], env) if bool(x) == (e["op"] == "&&") else x
        if e["k"] == "ref" and e.get("id") in env:
            return env[e["id"]]
        if e["k"] in ("call", "sub"):
            base, i = (e["a"] if e["k"] == "call" and e.get("op") == "[]" else (e.get("b"), e.get("i"))) if e["k"] == "sub" or e.get("op") == "[]" else (None, None)
            if base is not None:
                x = strip(base)
                if x["k"] == "ref" and x.get("id") in (a, b):
                    return env["a" if x["id"] == a else "b"]
        if e["k"] == "mem" and e["n"] == "second" or e["k"] == "ref" and re.search("desc|second", e.get("n", ""), re.I):
            return env["desc"]
        if e["k"] in ("bin", "call") and e.get("op") in ("<", ">", "<=", ">=", "==", "!=", "^"):
            x, y = (e["x"], e["y"]) if e["k"] == "bin" else e["a"]
            x, y = ev(x, env), ev(y, env)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y, "^": x != y}[e["op"]]
        raise AnalysisError("%s: comparison of ORDER BY not understood: %s" % (loc(f, e), show(e)))

    def ex(st, env):
        if st is None or st["k"] in ("nop",):
            return None
        if st["k"] == "blk":
            for x in st["s"]:
                r = ex(x, env)
                if r is not None:
                    return r
            return None
        if st["k"] == "decl":
            for d in st["d"]:
                if d["k"] == "var" and d.get("init") is not None:
                    try:
                        env[d["id"]] = ev(d["init"], env)
                    except AnalysisError:
                        pass
            return None
        if st["k"] == "if":
            return ex(st["x"] if ev(st["c"], env) else st.get("y"), env)
        if st["k"] == "ret":
            return ("ret", bool(ev(st["e"], env)))
        if st["k"] == "cont":
            return ("next",)
        raise AnalysisError("%s: comparison of ORDER BY not understood" % loc(f, st))
    for desc in (0, 1):
        for x, y in ((0, 1), (1, 0), (0, 0)):
            r = ex(loops_[0]["body"], {"a": x, "b": y, "desc": desc})
            want = ("ret", (x < y) != bool(desc)) if x != y else None
            rep.inst("order", loc(f, lam), "ORDER BY %s, first value %s" % ("DESC" if desc else "ASC", ("smaller", "equal", "greater")[(x > y) - (x < y) + 1]))
            if r != want and not (want is None and r == ("next",)):
                rep.viol("order", "OrderBy::computeResult:%s:%d%d" % ("desc" if desc else "asc", x, y), loc(f, lam),
                         "ORDER BY %s: the row with the %s value is %s" % ("DESC" if desc else "ASC", ("smaller", "equal", "greater")[(x > y) - (x < y) + 1],
                                                                        "not decided by the column" if r is None else "put first" if r[-1] is True else "put last"))


# ---------------------------------------------------------------- arithmetic
def arith(prog, rep):
    fs = [f for f in prog.fns("Bind::computeBinaryOperationBind")] or [f for k in prog.all_keys() for f in (prog.fn(k),) if f.get("cls") == "Bind" and f.get("body")]
    done = False
    for f in fs:
        if not f.get("body") or f["key"].startswith("T:"):
            continue
        # operators in a table next to the string of their symbols
        tab = None
        for n in walk(f["body"]):
            if n["k"] == "var" and n.get("init") and [x for x in walk(n["init"]) if x["k"] == "lambda" and len(x["params"]) == 2]:
                tab = n
        sw = [n for n in walk(f["body"]) if n["k"] == "case"]
        args = None
        if tab is not None:
            lams = [x for x in walk(tab["init"]) if x["k"] == "lambda" and len(x["params"]) == 2]
            finds = [n for n in walk(f["body"]) if n["k"] == "call" and short(n) == "find" and n["a"]]
            syms = [s["v"] for n in finds for s in list(walk(n)) + [x for o in [named(f, n["o"]) if n.get("o") else None] if o is not None for x in walk(o)] if s["k"] == "str"]
            syms = list(dict.fromkeys(syms))
            if len(syms) != 1 or len(syms[0]) != len(lams):
                if len(syms) == 1:
                    rep.viol("arith", "table", loc(f, tab), f"{len(lams)} operations for the operators '{syms[0]}'")
                    return
                raise AnalysisError("no table of operators in " + f["qn"])
            for s, l in zip(syms[0], lams):
                operator(rep, f, s, l)
            done = True
            for n in walk(f["body"]):
                if n["k"] == "call" and n.get("op") == "()" and len(n["a"]) == 3 and "function" in (n.get("fn") or ""):
                    args = n["a"][1:]
                    operands(prog, rep, f, n, args)
        elif sw:
            for s in sw:
                v = s.get("cv")
                if not isinstance(v, int) or chr(v) not in "+-*/":
                    continue
                bins = [x for x in walk(s) if x["k"] == "bin" and x["op"] in "+-*/" and "float" in (x.get("t") or "")]
                if bins:
                    rep.inst("arith", loc(f, bins[0]), f"'{chr(v)}'")
                    done = True
                    if bins[0]["op"] != chr(v):
                        rep.viol("arith", f"op:{chr(v)}", loc(f, bins[0]), f"'{chr(v)}' is computed as '{bins[0]['op']}'")
                    operands(prog, rep, f, bins[0], [bins[0]["x"], bins[0]["y"]])
        if done:
            # inside the loop over the operands everything belongs to the operand of the loop
            ps = {q["id"]: q["n"] for q in f["params"] if "array" in q["t"] or "vector" in q["t"]}
            for lp in [n for n in walk(f["body"]) if n["k"] == "for" and n.get("init") and n["init"]["k"] == "decl"]:
                iv = [d["id"] for d in lp["init"]["d"] if d["k"] == "var"]
                acc = []
                for n in walk(lp["body"]):
                    o, i = (n["a"] if n["k"] == "call" and n.get("op") == "[]" else (n["b"], n["i"]) if n["k"] == "sub" else (None, None))
                    if o is not None and strip(o).get("id") in ps:
                        acc.append((n, strip(i)))
                if not iv or not any(i.get("id") == iv[0] for _, i in acc):
                    continue
                for n, i in acc:
                    rep.inst("arith", loc(f, n), "operand " + show(n))
                    if i.get("id") != iv[0]:
                        rep.viol("arith", "operand:" + show(n), loc(f, n), f"{show(n)} is used for both operands")
            break
    if not done:
        raise AnalysisError("no computation of arithmetic operations found")
    # the columns of the operands
    for k in sorted(prog.all_keys()):
        f = prog.fn(k)
        if f.get("cls") != "Bind" or not f.get("body") or k.startswith("T:"):
            continue
        for n in walk(f["body"]):
            if n["k"] == "var" and n.get("init"):
                vs = [strip(c["a"][0])["n"] for c in walk(n["init"]) if c["k"] == "call" and short(c) == "getVariableColumn" and c["a"] and strip(c["a"][0])["k"] == "mem"]
                ts = [strip(c["a"][1]) for c in walk(n["init"]) if c["k"] == "call" and c.get("op") == "[]" and "_resultTypes" in show(c["a"][0])]
                ts = [const_int(t["a"][1]) if t["k"] == "call" and t.get("op") == "[]" else None for t in ts]
                if len(ts) == 2:
                    rep.inst("arith", loc(f, n), "types of the operands")
                    if None not in ts and ts != [0, 1]:
                        rep.viol("arith", "types", loc(f, n), f"the types of the operands are those of operand {ts[0] + 1} and {ts[1] + 1}")
                if len(vs) == 2:
                    rep.inst("arith", loc(f, n), "columns of the operands")
                    if vs != ["_var1", "_var2"]:
                        rep.viol("arith", "columns", loc(f, n), f"the columns are those of {vs[0]} and {vs[1]}")
    # the parser
    for k in sorted(prog.all_keys()):
        if b"BinaryOperation" not in prog.raw["F"][k] or k.startswith("T:"):
            continue
        f = prog.fn(k)
        if "/parser/" not in f["file"] or not f.get("body"):
            continue
        F = Fn(prog, f)
        pos = {}
        for n in walk(f["body"]):
            w = written(n)
            if w in ("_var1", "_var2", "_binaryOperator"):
                pos.setdefault(w, []).append(n)
        if len(pos) == 3:
            a, o, b = pos["_var1"][0], pos["_binaryOperator"][0], pos["_var2"][0]
            rep.inst("arith", loc(f, o), "the parser reads operand, operator, operand")
            for x, y, t in ((a, o, "the first operand is recorded after the operator was read"), (o, b, "the second operand is recorded before the operator was read")):
                if before(F, x, y) is False and not same_source(x, y):
                    rep.viol("arith", "parse", loc(f, x), t)


def same_source(x, y):
    return False


def operator(rep, f, s, lam):
    rs = [n for n in walk(lam["body"]) if n["k"] == "ret"]
    e = strip(rs[0]["e"]) if len(rs) == 1 and rs[0].get("e") else None
    if e is None or e["k"] != "bin":
        raise AnalysisError("operation for '" + s + "' is not a single expression")
    ids = [q["id"] for q in lam["params"]]
    got = [strip(e["x"]).get("id"), strip(e["y"]).get("id")]
    rep.inst("arith", loc(f, e), f"'{s}' is {show(e)}")
    if e["op"] != s or got != ids and not (s in "+*" and got == ids[::-1]):
        rep.viol("arith", f"op:{s}", loc(f, e), f"'{s}' is computed as {show(e)}")


def operands(prog, rep, f, n, args):
    ids = [strip(a).get("id") for a in args]
    if None in ids:
        return
    conds = [m for m in walk(f["body"]) if m["k"] == "cond" and {strip(m["x"]).get("id"), strip(m["y"]).get("id")} == set(ids)]
    rep.inst("arith", loc(f, n), "operands of the operation")
    if ids[0] == ids[1]:
        rep.viol("arith", "operands", loc(f, n), "both operands are the same value")
    for m in conds:
        c = strip(m["c"])
        if c["k"] != "bin" or c["op"] not in ("==", "!="):
            continue
        k = const_int(c["y"]) if const_int(c["y"]) is not None else const_int(c["x"])
        first = strip(m["x"] if (c["op"] == "==") == (k == 0) else m["y"]).get("id")
        rep.inst("arith", loc(f, m), "value of the first column")
        if first != ids[0]:
            rep.viol("arith", "operands", loc(f, m), "the value of the first column is used as the second operand")


# ---------------------------------------------------------------- aggregates
def cases(prog, f, en):
    """{enumerator: [statements]} of the switches of f over the enumeration."""
    inv = {v: k for k, v in enum(prog, en).items()}
    out = {}
    for sw in [n for n in walk(f["body"]) if n["k"] == "switch"]:
        if not any(n.get("en") == en for n in walk(sw)):
            continue
        cur = set()
        for lab, st in Spec(prog, None, {}).flat(sw["body"]):
            if lab is not None:
                cur.add(inv.get(lab, lab))
            elif st is not None:
                for x in cur:
                    out.setdefault(x, []).append(st)
                if st["k"] == "break" or st["k"] == "ret" or st["k"] == "blk" and any(s is not None and s["k"] in ("break", "ret") for s in st["s"]):
                    cur = set()
    return out


def groups(prog, rep):
    seen = set()
    for k in sorted(prog.all_keys()):
        if k.startswith("T:") or b"AggregateType" not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        if f.get("cls") != "GroupBy" or not f.get("body") or f["qn"] in seen:
            continue
        cs = cases(prog, f, AG)
        ps = [q for q in f["params"] if re.fullmatch(r"(const )?unsigned long", q["t"])]
        if {"AVG", "COUNT", "MAX", "MIN", "SUM"} <= set(cs) and len(ps) >= 2:
            seen.add(f["qn"])
            start, end = ps[0]["id"], ps[1]["id"]
            for name, sts in sorted(cs.items()):
                aggregate(prog, rep, f, str(name), sts, start, end)
            blocks(prog, rep, f)
    if not seen:
        raise AnalysisError("no computation of aggregates found")


def lim(e):
    """name of the extreme value of std::numeric_limits"""
    e = strip(e)
    if e["k"] == "call" and "numeric_limits" in (e.get("fn") or ""):
        return short(e)
    return None


def aggregate(prog, rep, f, name, sts, start, end):
    body = dict(k="blk", s=sts)
    F = Fn(prog, f)
    P = prog_names(f)
    w = lambda n: loc(f, n)
    res = {}
    for n in walk(body):
        if n["k"] == "var" and n.get("init") is not None and lim(n["init"]):
            res[n["id"]] = (n, lim(n["init"]))
    if name in ("MAX", "MIN"):
        good, start_at = ("max", "lowest") if name == "MAX" else ("min", "max")
        used = 0
        for n in walk(body):
            if n["k"] == "call" and n.get("fn") in ("std::max", "std::min") and len(n["a"]) == 2:
                used += 1
                rep.inst("agg", w(n), f"{name} combines with {short(n)}")
                if short(n) != good:
                    rep.viol("agg", f"{name}:combine", w(n), f"{name} is computed with {n['fn']}")
            if n["k"] == "if":
                c = strip(n["c"])
                if c["k"] == "bin" and c["op"] in ("<", ">", "<=", ">=") and any(strip(c[s]).get("id") in res for s in "xy"):
                    used += 1
                    side = "x" if strip(c["x"]).get("id") in res else "y"
                    lt = c["op"].startswith("<") == (side == "x")      # result < value
                    rep.inst("agg", w(n), f"{name} combines by comparison")
                    if lt != (name == "MAX"):
                        rep.viol("agg", f"{name}:combine", w(n), f"{name} keeps the {'larger' if lt else 'smaller'} value")
        for n, l in res.values():
            rep.inst("agg", w(n), f"{name} starts at {l}()")
            ok = l == start_at or name == "MAX" and l == "min" and "unsigned" in (n.get("t") or "") or l == ("infinity") and name == "MIN"
            if not ok:
                rep.viol("agg", f"{name}:start", w(n), f"{name} starts at numeric_limits::{l}(), which is not {'below' if name == 'MAX' else 'above'} every value")
    if name in ("SUM", "AVG"):
        adds = [n for n in walk(body) if n["k"] == "bin" and n["op"] in ("+=", "-=", "*=") and strip(n["x"])["k"] == "ref" and "float" in (strip(n["x"]).get("t") or "float")]
        for n in adds:
            rep.inst("agg", w(n), f"{name}: {show(n)}")
            if n["op"] != "+=":
                rep.viol("agg", f"{name}:combine", w(n), f"{name} is computed with {n['op']}")
        accs = {strip(n["x"]).get("id") for n in adds}
        for n in walk(body):
            if n["k"] == "bin" and n["op"] == "=" and strip(n["x"]).get("id") in accs and any(a["k"] in ("for", "while", "rfor", "do") for a in F.ancestors(n)):
                y = strip(n["y"])
                rep.inst("agg", w(n), f"{name}: {show(n)}")
                if lim(y) == "quiet_NaN" or y["k"] == "bin" and y["op"] == "+" and any(strip(y[q]).get("id") == strip(n["x"])["id"] for q in "xy"):
                    continue
                if y["k"] == "ref" and "id" in y and any(lim(v["init"]) for v in walk(f["body"]) if v["k"] == "var" and v["id"] == y["id"] and v.get("init")):
                    continue
                rep.viol("agg", f"{name}:overwrite", w(n), f"{name} forgets the values before: {show(n)}")
        divs = [n for n in walk(body) if n["k"] == "bin" and n["op"] in ("/=", "/")]
        if name == "SUM" and divs:
            rep.viol("agg", "SUM:divided", w(divs[0]), "a sum is divided")
        if name == "AVG":
            if not divs:
                rep.viol("agg", "AVG:divided", w(sts[0]), "an average is not divided by the number of values")
            for d in divs:
                average(rep, f, F, body, d, adds, start, end)
    if name == "COUNT":
        for n in walk(body):
            if n["k"] == "bin" and n["op"] in ("-", "+"):
                t = linear(n)
                if t is not None and t[0].get(start) and not any(m is not n and any(y is n for y in walk(m)) and m["k"] == "bin" and m["op"] in "+-" for m in walk(body)):
                    rep.inst("agg", w(n), "COUNT: " + show(n))
                    if t != ({start: -1, end: 1}, 1):
                        rep.viol("agg", "COUNT:number", w(n), "the number of rows from the first to the last of a group is computed as " + show(n))
    if name in ("FIRST", "LAST", "SAMPLE"):
        for n in walk(body):
            if n["k"] == "call" and n.get("op") == "()" and len(n["a"]) == 3:
                i = strip(n["a"][1])
                if i.get("id") in (start, end):
                    rep.inst("agg", w(n), f"{name}: {show(n)}")
                    if name == "FIRST" and i["id"] != start or name == "LAST" and i["id"] != end:
                        rep.viol("agg", f"{name}:row", w(n), f"{name} is the value of row {show(i)}")
    loops(prog, rep, f, F, name, body, start, end)
    distinct(prog, rep, f, F, name, body, start, end)
    if name == "GROUP_CONCAT":
        separators(prog, rep, f, F, body, end)


def prog_names(f):
    return {q["id"]: q["n"] for q in f["params"]}


def linear(e):
    """({variable: coefficient}, constant) of a sum of variables."""
    e = strip(e)
    c = const_int(e)
    if c is not None:
        return {}, c
    if e["k"] == "ref" and "id" in e:
        return {e["id"]: 1}, 0
    if e["k"] == "bin" and e["op"] in ("+", "-"):
        a, b = linear(e["x"]), linear(e["y"])
        if a is None or b is None:
            return None
        s = 1 if e["op"] == "+" else -1
        d = dict(a[0])
        for k, v in b[0].items():
            d[k] = d.get(k, 0) + s * v
        return {k: v for k, v in d.items() if v}, a[1] + s * b[1]
    return None


def average(rep, f, F, body, d, adds, start, end):
    """The divisor counts what was added."""
    div = strip(d["y"])
    rep.inst("agg", loc(f, d), "AVG: " + show(d))
    t = linear(div)
    inside = [n for n in adds if skipping(F, n)]
    if t is not None and t == ({start: -1, end: 1}, 1):
        if inside and not guarded_by_not_distinct(F, d):
            rep.viol("agg", "AVG:number", loc(f, d), "the sum of the distinct values is divided by the number of all rows of the group")
        return
    if div["k"] == "ref" and "id" in div:
        bad = []
        incs = [n for n in walk(body) if n["k"] == "un" and n["op"].lstrip("p") == "++" and strip(n["x"]).get("id") == div["id"] or n["k"] == "bin" and n["op"] in ("=", "+=") and strip(n["x"]).get("id") == div["id"]]
        dec = [n for n in walk(body) if n["k"] == "var" and n.get("id") == div["id"]]
        init = linear(dec[0]["init"]) if dec and dec[0].get("init") is not None else None
        if dec and init is None and dec[0].get("init") is not None:
            c = strip(dec[0]["init"])
            if c["k"] == "cond":
                return
        for a in adds:
            near = [i for i in incs if same_block(F, a, i)]
            later = [i for i in incs if i["k"] == "bin" and i["op"] == "=" and same_branch(F, a, i)]
            if not near and not later and not (init == ({start: -1, end: 1}, 1) and not skipping(F, a)):
                bad.append(a)
        if bad:
            rep.viol("agg", "AVG:number", loc(f, bad[0]), "the divisor does not count the value that is added here")
        if init is not None and not init[0] and init[1] != 0:
            rep.viol("agg", "AVG:number", loc(f, dec[0]), f"the number of values is counted from {init[1]}")
        return
    if div["k"] == "call" and short(div) == "size":
        return
    if t is not None:
        rep.viol("agg", "AVG:number", loc(f, d), "the sum is divided by " + show(div))


def same_block(F, a, b):
    x = next((x for x in F.ancestors(a) if x["k"] in ("blk",)), None)
    return x is not None and F.inside(b, x)


def same_branch(F, a, b):
    x = next((x for x in F.ancestors(a) if x["k"] in ("for", "rfor", "while")), None)
    y = next((y for y in F.ancestors(x) if y["k"] == "blk"), None) if x else None
    return y is not None and F.inside(b, y)


def skipping(F, n):
    """Is n done only for values that were not found before?"""
    for c, pol, _ in F.guards(n):
        for e, p in conj(c, pol):
            r = cmp_end(e)
            if r and (r == "==") == p:
                return True
            if e["k"] == "call" and short(e) in ("contains", "count") and not p:
                return True
            if e["k"] == "mem" and e["n"] == "second" and p:
                return True
            if e["k"] == "call" and short(e) == "insert" or e["k"] == "mem" and e["n"] == "second":
                return True
    return False


def cmp_end(e):
    op = e.get("op") if e["k"] in ("bin", "call") else None
    if op in ("==", "!="):
        xs = (e["x"], e["y"]) if e["k"] == "bin" else e["a"]
        if any(strip(x)["k"] == "call" and short(strip(x)) in ("end", "cend") for x in xs):
            return op
    return None


def guarded_by_not_distinct(F, n):
    return any(strip(e).get("n") == "_distinct" and not p for c, pol, _ in F.guards(n) for e, p in conj(c, pol) if strip(e)["k"] == "mem")


def reads(n):
    """(row expression) of input(row, column)"""
    if n["k"] == "call" and n.get("op") == "()" and len(n["a"]) == 3 and "IdTable" in (n.get("fn") or ""):
        o = strip(n["a"][0])
        if o["k"] == "ref" and o.get("dk") == "parm":
            return strip(n["a"][1])
    return None


def loops(prog, rep, f, F, name, body, start, end):
    """Every loop over the rows of the group covers them all."""
    for n in walk(body):
        if n["k"] != "for" or not n.get("init"):
            continue
        ds = [d for d in n["init"].get("d", []) if d["k"] == "var"] if n["init"]["k"] == "decl" else []
        if len(ds) != 1 or linear(ds[0].get("init") or dict(k="nop")) is None:
            continue
        i = ds[0]["id"]
        first = linear(ds[0]["init"])
        if set(first[0]) - {start, end}:
            continue
        c = strip(n["c"])
        if c["k"] != "bin" or c["op"] not in ("<", "<=", "!="):
            continue
        a, b = linear(c["x"]), linear(c["y"])
        if a is None or b is None or a[0].get(i) != 1:
            continue
        # largest i: i + a1 <= b
        d = {k: v for k, v in b[0].items()}
        last = (d, b[1] - a[1] - (0 if c["op"] == "<=" else 1))
        if set(last[0]) - {start, end}:
            continue
        # is the last row treated after the loop?
        par = next((x for x in F.ancestors(n) if x["k"] == "blk"), None)
        after = par["s"][next(j for j, s in enumerate(par["s"]) if s is n) + 1:] if par else []
        rest = [m for s in after if s is not None for m in walk(s) if reads(m) is not None and reads(m).get("id") == end]
        pre = [m for s in par["s"][:par["s"].index(n)] if s is not None for m in walk(s) if reads(m) is not None and reads(m).get("id") == start] if par else []
        rep.inst("group", loc(f, n), f"{name}: rows of the group")
        if first != ({start: 1}, 0) and not (first == ({start: 1}, 1) and pre):
            rep.viol("group", f"{name}:first", loc(f, n), "the loop over a group does not begin with its first row")
        if last == ({end: 1}, 0):
            if rest:
                rep.viol("group", f"{name}:last", loc(f, rest[0]), "the last row of a group is used twice")
        elif last == ({end: 1}, -1):
            if not rest:
                rep.viol("group", f"{name}:last", loc(f, n), "the last row of a group is left out")
        else:
            rep.viol("group", f"{name}:last", loc(f, n), "the loop over a group does not end with its last row")


def blocks(prog, rep, f):
    """The rows handed to the computation of an aggregate."""
    done = set()
    for k in sorted(prog.all_keys()):
        if k.startswith("T:") or f["n"].encode() not in prog.raw["F"][k]:
            continue
        g = prog.fn(k)
        if g.get("cls") != "GroupBy" or not g.get("body") or g["qn"] == f["qn"] or g["qn"] in done:
            continue
        cs = [n for n in walk(g["body"]) if n["k"] == "call" and short(n) == f["n"]]
        if not cs:
            continue
        done.add(g["qn"])
        F = Fn(prog, g)
        idx = [i for i, q in enumerate(f["params"]) if re.fullmatch(r"(const )?unsigned long", q["t"])][:2]
        for c in cs:
            s, e = (strip(c["a"][i]) for i in idx)
            d = reaching(F, g, e, c)
            rep.inst("group", loc(g, c), f"rows of the group: {show(s)} to {show(d) if d is not None else show(e)}")
            if d is None:
                continue
            t = lin_rows(d)
            if t is None:
                raise AnalysisError(f"{loc(g, c)}: cannot tell which row is the last of the group")
            if t[0] == "size" and t[1] != -1:
                rep.viol("group", "last:size", loc(g, c), "the group ends behind the last row" if t[1] > -1 else "the last rows belong to no group")
            if t[0] == "pos" and t[1] != -1:
                rep.viol("group", "last:pos", loc(g, c), f"the group ends at the row {show(d)}, not before the first row of the next one")
            for gc, pol, gn in F.guards(c):
                if t[0] == "size" and gn["k"] == "if" and any(x["k"] == "ref" and x.get("id") in (s.get("id"), e.get("id")) for x in walk(gc)):
                    rep.viol("group", "last:if", loc(g, c), f"the last group is left out unless {show(gc)}")
            if t[0] == "pos":
                lp = next((a for a in F.ancestors(c) if a["k"] in ("for", "while") and any(d["k"] == "var" and d["id"] == t[2] for d in walk(a))), None)
                for x, y in [(m["x"], m["y"]) for m in walk(lp["body"]) if m["k"] == "bin" and m["op"] == "="] if lp else []:
                    y = strip(y)
                    if y["k"] == "call" and y.get("op") == "()" and len(y["a"]) == 3:
                        r = lin_rows(y["a"][1])
                        rep.inst("group", loc(g, y), "values of the next group: " + show(y))
                        if r is None or r[:2] != ("pos", 0) or r[2] != t[2]:
                            rep.viol("group", "values", loc(g, y), f"the next group is compared with the values of row {show(y['a'][1])}")
                # the next group starts with the current row
                nxt = [a for a in F.reach_after(c, s)] if hasattr(F, "reach_after") else next_start(F, g, c, s)
                for a in nxt:
                    y = lin_rows(a)
                    rep.inst("group", loc(g, c), "first row of the next group")
                    if y is None or y[0] != "pos" or y[1] != 0 or y[2] != t[2]:
                        rep.viol("group", "next", loc(g, c), f"the next group starts at {show(a)}")
                if not nxt:
                    rep.viol("group", "next", loc(g, c), "the next group starts with the first row of this one")


def assigns(body, vid):
    for n in walk(body):
        if n["k"] == "bin" and n["op"] == "=" and strip(n["x"]).get("id") == vid:
            yield n, n["y"]
        if n["k"] == "var" and n.get("id") == vid and n.get("init") is not None:
            yield n, n["init"]


def reaching(F, g, e, use):
    """The value of the variable at use: the last assignment before it in the enclosing blocks."""
    if e["k"] != "ref" or "id" not in e:
        return e
    cur = use
    for x in F.ancestors(use):
        if x["k"] == "blk":
            i = next((j for j, s in enumerate(x["s"]) if s is not None and (s is cur or F.inside(cur, s))), 0)
            for s in reversed(x["s"][:i]):
                if s is None:
                    continue
                ass = list(assigns(s, e["id"]))
                if ass:
                    return ass[-1][1]
    return None


def next_start(F, g, c, s):
    out = []
    if s["k"] != "ref":
        return out
    for x in F.ancestors(c):
        if x["k"] == "blk":
            i = next((j for j, t in enumerate(x["s"]) if t is not None and F.inside(c, t)), None)
            if i is None:
                continue
            for t in x["s"][i + 1:]:
                if t is not None:
                    out += [v for _, v in assigns(t, s["id"])]
        if out or x["k"] in ("while",):
            break
    return out


def lin_rows(e):
    """('size', offset, what) or ('pos', offset, variable) of a row number."""
    e = strip(e)
    off = 0
    while e["k"] == "bin" and e["op"] in ("+", "-") and const_int(e["y"]) is not None:
        off += const_int(e["y"]) if e["op"] == "+" else -const_int(e["y"])
        e = strip(e["x"])
    if e["k"] == "call" and short(e) == "size":
        return "size", off, show(e)
    if e["k"] == "ref" and "id" in e:
        return "pos", off, e["id"]
    return None


def distinct(prog, rep, f, F, name, body, start, end):
    """In a branch for DISTINCT values are used once, and the set of values seen is emptied."""
    for i in [n for n in walk(body) if n["k"] == "if"]:
        c = strip(i["c"])
        neg = False
        while c["k"] == "un" and c["op"] == "!":
            c, neg = strip(c["x"]), not neg
        if c["k"] != "mem" or c["n"] != "_distinct":
            continue
        br = i.get("y") if neg else i["x"]
        if br is None:
            continue
        rep.inst("distinct", loc(f, i), f"{name} DISTINCT")
        ins = [n for n in walk(br) if n["k"] == "call" and short(n) in ("insert", "emplace") and "set" in (n.get("fn") or "").lower()]
        clr = [n for n in walk(br) if n["k"] == "call" and short(n) == "clear"]
        fnd = [n for n in walk(br) if n["k"] == "call" and short(n) in ("find", "contains", "count")]
        if not ins:
            rep.viol("distinct", f"{name}:insert", loc(f, i), f"{name} DISTINCT does not record the values it has seen")
            continue
        local = [n for n in walk(f["body"]) if n["k"] == "var" and n.get("id") == strip(ins[0].get("o") or dict(k="nop")).get("id") and F.inside(n, br)]
        outer = [n for n in walk(body) if n["k"] == "call" and short(n) == "clear" and not F.inside(n, i)]
        if not clr and not local and not outer:
            rep.viol("distinct", f"{name}:clear", loc(f, i), f"{name} DISTINCT leaves the values of this group in the set for the next group")
        lps = [n for n in walk(br) if n["k"] in ("for", "rfor", "while")]
        for x in clr:
            if any(F.inside(x, l) for l in lps):
                rep.viol("distinct", f"{name}:clear", loc(f, x), f"{name} DISTINCT forgets the values within a group")
        # uses of a row are guarded by the lookup of the same row
        for n in walk(br):
            r = reads(n)
            if r is None:
                continue
            anc = list(F.ancestors(n))
            call = next((a for a in anc if a["k"] == "call" and short(a) in ("find", "contains", "count", "insert", "emplace")), None)
            if call is not None and short(call) in ("find", "contains", "count"):
                continue
            if call is not None and "set" in (call.get("fn") or "").lower():
                keyed(rep, f, F, name, n, fnd, call)
                continue
            if not skipping(F, n):
                rep.viol("distinct", f"{name}:use", loc(f, n), f"{name} DISTINCT uses a value whether or not it was seen before")
        for n in walk(br):
            if n["k"] == "un" and n["op"].lstrip("p") == "++" and strip(n["x"])["k"] == "ref" and not any(F.inside(n, l.get("inc") or dict(k="nop")) or n is l.get("inc") for l in lps):
                if not skipping(F, n):
                    rep.viol("distinct", f"{name}:use", loc(f, n), f"{name} DISTINCT counts a value whether or not it was seen before")


def stream(n):
    """[operands] of a chain of << into a stream, or None."""
    out = []
    e = strip(n)
    while e["k"] == "call" and e.get("op") == "<<" and len(e["a"]) == 2:
        out.insert(0, strip(e["a"][1]))
        e = strip(e["a"][0])
    return out if out and e["k"] == "ref" and "stream" in (e.get("t") or "") else None


def is_sep(e):
    """*delim or a copy of the delimiter"""
    return e["k"] == "un" and e["op"] == "*" and "delim" in show(e) or e["k"] in ("ref", "mem") and "delim" in (e.get("n") or "").lower()


def outputs(s):
    """Outermost stream chains of a statement in order."""
    if s is None:
        return
    e = strip(s) if s["k"] in ("cast", "call") else s
    if e["k"] == "call" and stream(e):
        yield e
        return
    from base import children
    for c in children(s):
        if c is not None and c["k"] != "lambda":
            yield from outputs(c)


def separators(prog, rep, f, F, body, end):
    trims = []
    for n in walk(body):
        if n["k"] == "call" and short(n) in ("resize", "erase", "pop_back", "substr", "remove_suffix"):
            trims += [e.get("id") for c, pol, _ in F.guards(n) for e, p in conj(c, pol) if p and e["k"] == "ref"]
    for l in [n for n in walk(body) if n["k"] == "for"]:
        outs = list(outputs(l["body"]))
        if not outs:
            continue
        rep.inst("sep", loc(f, l), "concatenation")
        kinds = [[is_sep(x) for x in stream(o)] for o in outs]
        if not any(any(k) for k in kinds):
            rep.viol("sep", "none", loc(f, l), "the values of a group are concatenated without the delimiter")
            continue
        if not all(k[-1] for k in kinds):
            if all(k[0] or len(k) == 1 for k in kinds):
                continue            # the delimiter comes before the value
            rep.viol("sep", "some", loc(f, l), "a value is not followed by the delimiter")
            continue
        par = next((x for x in F.ancestors(l) if x["k"] == "blk"), None)
        after = par["s"][next(j for j, s in enumerate(par["s"]) if s is l) + 1:] if par else []
        last = [o for s in after if s is not None for o in outputs(s)]
        if not last:
            if not trims:
                rep.viol("sep", "last", loc(f, l), "the delimiter follows the last value")
            continue
        for o in last:
            if is_sep(stream(o)[-1]):
                rep.viol("sep", "last", loc(f, o), "the delimiter follows the last value")
            if skipping(F, o):
                flags = [n for s in after if s is not None for n in walk(s) if n["k"] == "bin" and n["op"] == "=" and strip(n["x"]).get("id") in trims]
                if not flags:
                    rep.viol("sep", "duplicate", loc(f, o), "the delimiter remains at the end if the last value is skipped")


def keyed(rep, f, F, name, n, fnd, call):
    """What is inserted is what was looked up."""
    near = [c for c in fnd if same_block(F, c, call)]
    if near:
        near = [max(near, key=lambda c: sum(1 for _ in F.ancestors(c)))]
    for c in near:
        if True:
            a = [show(strip(x)) for x in c["a"]]
            if show(strip(n)) not in a:
                rep.viol("distinct", f"{name}:key", loc(f, n), f"{name} DISTINCT looks up {a[0] if a else ''} but records {show(n)}")


if __name__ == "__main__":
    run("C18", check, level="checked-over-all-paths", explanation="Operators are followed from the parser to the rows they keep: what the parser reads for each enumerator, which rows each strategy of each filter instantiation keeps (decided on the finitely many positions a value can have relative to the right operand), what each aggregate does with the rows of its group.",
        assumptions=["columns that are declared sorted are sorted (C06)", "std::lower_bound, std::upper_bound, std::min and std::max do what the standard says"])
