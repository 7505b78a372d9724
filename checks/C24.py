#!/usr/bin/env python3
"""C24: what the builder writes does not depend on where runs, batches and buffers end."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, children, is_log, AnalysisError
from place import Fn, conj, pathtext

LOOPS = ("for", "while", "do", "rfor")
APPEND = ("push_back", "emplace_back", "push", "emplace")
MUTATE = APPEND + ("clear", "resize", "pop_back", "pop", "erase", "insert", "append", "assign", "swap", "reset", "replace")
SCOPE = ("src/index/", "src/parser/", "src/util/BatchedPipeline", "src/engine/")
BUILD = ("src/index/", "src/parser/", "src/util/BatchedPipeline")
QUERY = ("src/index/FTSAlgorithms",)


def functions(prog, where):
    seen = set()
    for f in prog.all_fns():
        if not f.get("body") or not f["file"].startswith(where):
            continue
        k = (f["file"], f["l"], f["n"])
        if k in seen:
            continue
        seen.add(k)
        yield f


def loop_of(fn, n):
    for a in fn.ancestors(n):
        if a["k"] in LOOPS:
            return a
        if a["k"] == "lambda":
            return None
    return None


def body_of(loop):
    return loop["body"]


def declared_in(fn, vid, root):
    d = fn.vars.get(vid)
    if d is None:
        return False
    if any(x is d or x["k"] == "var" and x.get("id") == vid for x in walk(root)):
        return True
    return root["k"] == "rfor" and root["var"]["id"] == vid


def base_id(p):
    """variable at the root of a path"""
    r = p[0]
    return r[2] if isinstance(r, tuple) and r[0] == "v" else None


def equality(e):
    """(x, y, equal?) of an equality test"""
    e = strip(e)
    neg = False
    while e["k"] == "un" and e["op"] == "!":
        e, neg = strip(e["x"]), not neg
    if e["k"] == "bin" and e["op"] in ("==", "!="):
        return e["x"], e["y"], (e["op"] == "==") != neg
    if e["k"] == "call" and e.get("op") in ("==", "!=") and len(e["a"]) == 2:
        return e["a"][0], e["a"][1], (e["op"] == "==") != neg
    return None


def assignment(n):
    if n["k"] == "bin" and n["op"] == "=":
        return n["x"], n["y"]
    if n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
        return n["a"][0], n["a"][1]
    return None


def wpath(fn, e):
    """Path of a place that is written; a reference stands for what it was bound to."""
    e = strip(e)
    if e["k"] == "ref" and "id" in e:
        d = fn.vars.get(e["id"])
        if d is not None and d.get("t", "").endswith("&") and d.get("init") is not None and d.get("of") is None:
            return wpath(fn, d["init"])
    return fn.path(e)


def writes(fn, root):
    """(path, rhs or None, node) of everything that changes a place below root"""
    for n in walk(root):
        a = assignment(n)
        if a:
            yield wpath(fn, a[0]), a[1], n
            continue
        if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            yield wpath(fn, n["x"]), None, n
        elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
            yield wpath(fn, n["x"]), None, n
        elif n["k"] == "call" and n.get("op") in ("+=", "-=", "++", "--") and n["a"]:
            yield wpath(fn, n["a"][0]), None, n
        elif n["k"] == "call" and n.get("o") is not None and short(n) in MUTATE:
            yield wpath(fn, n["o"]), None, n
        elif n["k"] == "call" and n.get("fn") in ("std::swap",) and len(n["a"]) == 2:
            yield wpath(fn, n["a"][0]), n["a"][1], n
            yield wpath(fn, n["a"][1]), n["a"][0], n


def value(fn, e, depth=0):
    """Text of a value; locals that are initialised once stand for their value."""
    e = strip(e)
    if depth < 6 and e["k"] == "ref" and "id" in e:
        i = fn.single(e["id"])
        if i is not None:
            return value(fn, i, depth + 1)
    if e["k"] in ("mem", "sub") or e["k"] == "call" and e.get("op") in ("[]", "*", "->"):
        return pathtext(fn.path(e))
    return fn.text(e)


# ------------------------------------------------------------------ runs
class RunLoop:
    """A loop that compares a property of its element with what the previous element had."""
    never = False

    def __init__(self, fn, loop, cond, elem, key, kpath, equal):
        self.fn, self.loop, self.cond, self.elem, self.key, self.kpath, self.equal = fn, loop, cond, elem, key, kpath, equal

    def branch(self):
        """the statement executed when the element starts a new run"""
        return self.cond.get("y") if self.equal else self.cond["x"]


def run_loops(fn):
    for n in walk(fn.f["body"]):
        if n["k"] != "if":
            continue
        loop = loop_of(fn, n)
        if loop is None:
            continue
        for e, pol in conj(n["c"]):
            q = equality(e)
            if q is None:
                continue
            x, y, equal = q
            equal = equal == pol
            for el, ky in ((x, y), (y, x)):
                kp = fn.path(ky)
                if strip(ky)["k"] not in ("ref", "mem"):
                    continue
                vid = base_id(kp)
                if vid is None and kp[0] != ("this",) or len(kp) > (1 if vid is not None else 2):
                    continue
                if vid is not None and declared_in(fn, vid, loop) or const_int(strip(el)) is not None:
                    continue
                ev = value(fn, el)
                se = strip(el)
                if se["k"] == "ref" and se.get("id") in fn.mutated:
                    continue
                rl = RunLoop(fn, loop, n, el, ky, kp, equal)
                br = rl.branch()
                outer = [g for g, _, at in fn.guards(n)]
                sets = [w for p, r, w in writes(fn, loop) if p == kp and r is not None and value(fn, r) == ev and
                        (br is not None and fn.inside(w, br) or fn.order[id(w)] > fn.order[id(n)] and not fn.inside(w, n) and all(any(g is o for o in outer) for g, _, at in fn.guards(w) if not leaving(at)))]
                if sets:
                    yield rl
                elif vid is not None and vid in fn.vars and not fn.vars[vid].get("t", "").startswith("const ") and br is not None and stale(fn, rl):
                    rl.never = True
                    yield rl


def leaving(at):
    return at["k"] in LOOPS


def stale(fn, r):
    """the finished run is handled in the branch, but the remembered value never follows the elements"""
    ids = loop_elems(fn, r.loop)
    if not any(x["k"] == "ref" and x.get("id") in ids for x in walk(r.elem)):
        return False
    acc = accumulators(fn, r)
    do = items(fn, r.branch(), acc, r.kpath)
    return any(x["k"] == "ref" and x.get("id") in acc for n in do.values() for x in walk(n))


def rule_key(rep, fn, r):
    f, ev = fn.f, value(fn, r.elem)
    name = show(strip(r.key))
    if r.never:
        rep.inst("key", "%s: %s is compared with %s" % (loc(f, r.cond), ev, name))
        rep.viol("key", "%s:%s:never" % (f["qn"], name), loc(f, r.cond), "a run is handled when %s differs from %s, but %s does not become the value of the new run" % (ev, name, name))
        return
    rep.inst("key", "%s: %s is compared with %s" % (loc(f, r.cond), ev, name))
    for p, rhs, w in writes(fn, r.loop):
        if p[:len(r.kpath)] != r.kpath:
            continue
        if p == r.kpath and rhs is not None and value(fn, rhs) == ev:
            continue
        rep.viol("key", "%s:%s" % (f["qn"], name), loc(f, w),
                 "%s remembers %s of the previous element, but is changed here to something else: the next equal element counts as new"
                 % (name, ev))
    # a new run always sets the key
    miss = unset(fn, r, ev)
    if miss:
        rep.viol("key", "%s:%s:kept" % (f["qn"], name), loc(f, r.cond),
                 "on a path on which %s differs from %s the iteration ends without remembering it" % (ev, name))


def unset(fn, r, ev):
    """Is there a path of an iteration on which the element differs and the key is not set?"""
    body = body_of(r.loop)

    def sets(n):
        a = assignment(n)
        return a and fn.path(a[0]) == r.kpath and value(fn, a[1]) == ev

    def go(s, st):
        """states after s; state = set?; terminated paths are judged"""
        if s is None:
            return {st}
        k = s["k"]
        if k == "blk":
            cur = {st}
            for x in s["s"]:
                cur = {o for c in cur for o in (go(x, c) if c in (0, 1) else {c})}
            return cur
        if k == "if":
            if s is r.cond:
                b = r.branch()
                return go(b, st) if b is not None else {st}
            out = go(s["x"], st)
            return out | (go(s["y"], st) if s.get("y") else {st})
        if k in ("ret", "throw"):
            return {"out"}
        if k == "break":
            return {"out"}
        if k == "cont":
            return {"bad"} if not st else {"ok"}
        if k in LOOPS or k == "switch":
            return {st | 1} if any(sets(x) for x in walk(s)) and k not in ("switch",) else {1 if st or any(sets(x) for x in walk(s)) else 0}
        return {1 if st or any(sets(x) for x in walk(s)) else 0}

    if r.branch() is None and not any(sets(x) for x in walk(body)):
        return True
    # statements after the test (and before, when the key is set first the test is meaningless)
    out = go(body, 0)
    return 0 in out or "bad" in out


def accumulators(fn, r):
    """variables that are built up over the elements of one run: changed in the loop outside of the new-run branch"""
    br = r.branch()
    inside = {id(x) for x in walk(br)} if br is not None else set()
    acc = {}
    for p, rhs, w in writes(fn, r.loop):
        if id(w) in inside or p == r.kpath:
            continue
        vid = base_id(p)
        if vid is None or declared_in(fn, vid, r.loop) or len(p) > 1:
            continue
        if r.loop["k"] == "for" and r.loop.get("inc") and any(x is w for x in walk(r.loop["inc"])):
            continue
        acc.setdefault(vid, w)
    return acc


def mentions(n, ids, kpath, fn):
    for x in walk(n):
        if x["k"] == "ref" and x.get("id") in ids:
            return True
        if x["k"] in ("ref", "mem") and fn.path(x) == kpath:
            return True
    return False


def items(fn, region, ids, kpath):
    """What is done with the finished run in a region: {(what, target): node}"""
    ids = set(ids)
    for n in walk(region):
        if n["k"] == "var" and n.get("init") is not None and mentions(n["init"], ids, kpath, fn):
            ids.add(n["id"])
    out = {}
    for n in walk(region):
        if n["k"] == "log":
            continue
        if n["k"] == "call" and not n.get("op"):
            nm = short(n)
            if n.get("cm") or nm in ("clear", "get", "first", "second", "begin", "end", "size", "empty", "move"):
                continue
            if any(mentions(a, ids, kpath, fn) for a in n["a"]):
                tgt = pathtext(fn.path(n["o"])) if n.get("o") is not None and strip(n["o"])["k"] != "this" else ""
                out.setdefault((nm, tgt), n)
        elif n["k"] == "call" and n.get("op") == "()" and any(mentions(a, ids, kpath, fn) for a in n["a"][1:]):
            out.setdefault((show(n["a"][0]), ""), n)
        else:
            t = None
            if n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
                t = n["x"]
            elif n["k"] == "bin" and n["op"] in ("+=", "-="):
                t = n
            if t is not None and mentions(t, ids, kpath, fn):
                x = strip(n["x"])
                tgt = strip(x["a"][0]) if x["k"] == "call" and x.get("op") == "[]" else x
                if tgt["k"] == "ref" and tgt.get("id") in ids:
                    continue
                out.setdefault((n["op"].lstrip("p"), show(tgt)), n)
    return out


def after(fn, loop):
    """statements executed after the loop in the enclosing blocks of the function"""
    c = loop
    for p in fn.ancestors(loop):
        if p["k"] == "blk":
            seen = False
            for s in p["s"]:
                if seen:
                    yield s
                if s is c:
                    seen = True
        if p["k"] in LOOPS or p["k"] == "lambda":
            return
        c = p


def expand(prog, fn, n, depth=2):
    """the region plus the bodies of local lambdas and helpers it calls (for matching names only)"""
    yield n
    if depth == 0:
        return
    for c in walk(n):
        if c["k"] != "call":
            continue
        if c.get("op") == "()" and strip(c["a"][0])["k"] == "ref":
            d = fn.vars.get(strip(c["a"][0]).get("id"))
            if d is not None and d.get("init") is not None:
                for l in walk(d["init"]):
                    if l["k"] == "lambda":
                        yield from expand(prog, fn, l["body"], depth - 1)


def names(prog, fn, region):
    out = {}
    for reg in expand(prog, fn, region):
        for n in walk(reg):
            if n["k"] == "call" and not n.get("op"):
                out.setdefault(short(n), n)
            elif n["k"] == "call" and n.get("op") == "()":
                out.setdefault(show(n["a"][0]), n)
            elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
                out.setdefault(n["op"].lstrip("p"), n)
            elif n["k"] == "bin" and n["op"] in ("+=", "-="):
                out.setdefault(n["op"], n)
    return out


def bad_guard(fn, n, stop, ids, kpath):
    """a condition (below stop) that makes the handling of a run depend on how long it is"""
    for c, pol, g in fn.guards(n):
        if not fn.inside(g, stop) and g is not stop:
            break
        if g["k"] in LOOPS:
            continue
        for e, p in conj(c, pol):
            s = strip(e)
            if s["k"] == "bin" and s["op"] in ("<", ">", "<=", ">=", "==", "!=", "%"):
                for a, b in ((s["x"], s["y"]), (s["y"], s["x"])):
                    v = const_int(a)
                    lim = v is not None and not emptiness(s, p)
                    sized = any(x["k"] == "call" and short(x) in ("size", "length") for x in walk(b)) or \
                        strip(b)["k"] == "ref" and strip(b).get("id") in ids
                    if lim and sized:
                        return s
    return None


def emptiness(s, pol):
    """comparison that only tells empty from non-empty"""
    x, y, op = s["x"], s["y"], s["op"]
    if const_int(x) is not None:
        x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    c = const_int(y)
    return (op in (">", "==", "!=", "<=") and c == 0) or (op in (">=", "<") and c == 1)


def rule_runs(prog, rep, fn, r):
    f, br = fn.f, r.branch()
    if br is None:
        return
    acc = accumulators(fn, r)
    do = items(fn, br, acc, r.kpath)
    used = {v for v in acc for n in do.values() if any(x["k"] == "ref" and x.get("id") == v for x in walk(n))}
    do = {k: n for k, n in do.items() if used}
    if not do:
        return
    name = show(strip(r.key))
    post = list(after(fn, r.loop))
    have = {}
    for s in post:
        for k, n in items(fn, s, acc, r.kpath).items():
            have.setdefault(k, n)
    loose = {}
    for s in post:
        for k, n in names(prog, fn, s).items():
            loose.setdefault(k, n)
    for (what, tgt), n in sorted(do.items()):
        rep.inst("last", "%s: %s %s" % (loc(f, n), what, tgt))
        h = have.get((what, tgt))
        if h is None and what not in APPEND + ("insert", "++", "--", "+=", "-="):
            h = next((have[k] for k in have if k[0] == what), None) or loose.get(what)
        if h is None:
            # a helper that is given the run and may do it
            h = next((c for s in post for c in walk(s) if c["k"] == "call" and not c.get("op") and not is_log(c) and prog.targets(c) and
                      short(c) not in {k[0] for k in do} and any(strip(a).get("id") in used for a in c["a"])), None) or next(
                (n2 for s in post for reg in list(expand(prog, fn, s))[1:] for n2 in items(fn, reg, acc, r.kpath).values()), None)
        if h is None:
            rep.viol("last", "%s:%s:%s" % (f["qn"], what, tgt), loc(f, n),
                     "%s %s handles a run when the next one starts; after the loop nothing does the same for the last run" % (what, tgt))
            continue
        g = bad_guard(fn, n, br, set(acc), r.kpath) or next((x for s in post if fn.inside(h, s) for x in [bad_guard(fn, h, s, set(acc), r.kpath)] if x), None)
        if g:
            rep.viol("last", "%s:%s:guard" % (f["qn"], what), loc(f, g),
                     "whether %s %s is done for a run depends on its length (%s)" % (what, tgt, show(g)))
    # accumulators start afresh
    bounds = {x.get("id") for n in walk(br) if n["k"] in ("for", "while") and n.get("c") is not None for x in walk(n["c"]) if x["k"] == "ref"}
    bounds |= {strip(a).get("id") for c in walk(br) if c["k"] == "call" and not c.get("op") and not is_log(c) and prog.targets(c) for a in c["a"] if strip(a)["k"] == "ref"}
    for v in sorted(used | (bounds & set(acc))):
        d = fn.vars[v]
        rep.inst("reset", "%s: %s" % (loc(f, acc[v]), d["n"]))
        w = [(rhs, x) for p, rhs, x in writes(fn, br) if p == (("v", id(fn.f), v, d["n"]),)]
        if not w:
            rep.viol("reset", "%s:%s" % (f["qn"], d["n"]), loc(f, r.cond),
                     "%s is built up over one run (line %d) and used when the run is handled, but not set back for the next run" % (d["n"], acc[v]["l"]))
            continue
        ini = const_int(d["init"]) if d.get("init") is not None else None
        for rhs, x in w:
            c = const_int(rhs) if rhs is not None else None
            if c is not None and ini is not None and c != ini:
                rep.viol("reset", "%s:%s:value" % (f["qn"], d["n"]), loc(f, x),
                         "the first run starts with %s = %s, later runs with %s" % (d["n"], ini, c))
            if fn.order[id(x)] < max([fn.order[id(n)] for n in do.values() if any(y["k"] == "ref" and y.get("id") == v for y in walk(n))] or [0]):
                rep.viol("reset", "%s:%s:early" % (f["qn"], d["n"]), loc(f, x),
                         "%s is set back before the finished run is handled" % d["n"])
        # no path of the branch without it
    # the key is changed after the finished run was handled with it
    for p, rhs, x in writes(fn, br):
        if p == r.kpath:
            late = [n for n in do.values() if fn.order[id(n)] > fn.order[id(x)] and any(y["k"] in ("ref", "mem") and fn.path(y) == r.kpath for y in walk(n))]
            if late:
                rep.viol("reset", "%s:%s:key" % (f["qn"], name), loc(f, late[0]),
                         "the finished run is handled under the key of the next run: %s was already changed at line %d" % (name, x["l"]))


# ------------------------------------------------------------------ buffers
def rule_buffers(prog, rep, fn):
    f = fn.f
    for n in walk(f["body"]):
        if n["k"] != "if":
            continue
        loop = loop_of(fn, n)
        if loop is None:
            continue
        buf = None
        for e, pol in conj(n["c"]):
            s = strip(e)
            if s["k"] == "bin" and s["op"] in (">", ">=", "==", "<", "<="):
                for x in (s["x"], s["y"]):
                    x = strip(x)
                    if x["k"] == "call" and short(x) == "size" and x.get("o") is not None:
                        p = fn.path(x["o"])
                        if base_id(p) is not None and declared_in(fn, base_id(p), loop):
                            continue
                        if any(y["k"] == "call" and short(y) in APPEND and y.get("o") is not None and fn.path(y["o"]) == p and
                               loop_of(fn, y) is not None and fn.inside(y, loop) for y in walk(body_of(loop))):
                            buf = p
        if buf is None:
            continue
        emptied = [w for p, rhs, w in writes(fn, n["x"]) if p == buf and (rhs is not None or short(w) in ("clear", "resize", "swap"))]
        cons = consumers(prog, fn, n["x"], buf)
        if not cons:
            continue
        nm = pathtext(buf)
        rep.inst("remainder", "%s: %s handed to %s when full" % (loc(f, n), nm, ", ".join(sorted(cons))))
        if not emptied:
            rep.viol("remainder", "%s:%s:kept" % (f["qn"], nm), loc(f, n), "%s is handed on when full but not emptied: its elements are handled again" % nm)
        elif all(fn.order[id(w)] < min(fn.order[id(c)] for c in cons.values()) for w in emptied):
            rep.viol("remainder", "%s:%s:early" % (f["qn"], nm), loc(f, n), "%s is emptied before it is handed on" % nm)
        post = {}
        for s in after(fn, loop):
            for k, c in consumers(prog, fn, s, buf).items():
                post.setdefault(k, (c, s))
        hit = [k for k in cons if k in post]
        if not hit:
            rep.viol("remainder", "%s:%s:rest" % (f["qn"], nm), loc(f, loop),
                     "%s goes to %s when it is full, but what is left in it after the loop does not" % (nm, ", ".join(sorted(cons))))
            continue
        c, s = post[hit[0]]
        for g, pol, at in fn.guards(c):
            if at["k"] in LOOPS or not (fn.inside(at, s) or at is s):
                continue
            for e, p in conj(g, pol):
                q = strip(e)
                if any(x["k"] in ("ref", "mem") and fn.path(x) == buf for x in walk(q)):
                    ok = q["k"] == "call" and short(q) == "empty" and not p or q["k"] == "bin" and emptiness(q, p) and (q["op"] != "==" and q["op"] != "<=" or not p)
                    if q["k"] == "un":
                        ok = True
                    if not ok:
                        rep.viol("remainder", "%s:%s:guard" % (f["qn"], nm), loc(f, q),
                                 "the elements left in %s after the loop are only handled if %s" % (nm, show(q)))


def consumers(prog, fn, region, buf):
    """{name: node} of the functions that receive the buffer (also through the capture of a lambda)"""
    out = {}
    for n in walk(region):
        if n["k"] == "call" and not n.get("op") and short(n) not in ("move", "forward", "swap", "reserve"):
            for a in n["a"]:
                x = strip(a)
                while x["k"] == "un" and x["op"] in ("&", "*"):
                    x = strip(x["x"])
                if x["k"] in ("ref", "mem") and fn.path(x) == buf:
                    out.setdefault(short(n), n)
        if n["k"] == "lambda":
            for cap in n.get("caps", []):
                i = cap.get("init")
                if i is not None and strip(i)["k"] in ("ref", "mem") and fn.path(strip(i)) == buf or i is None and cap.get("id") == base_id(buf) and cap.get("id") is not None:
                    for c in walk(n["body"]):
                        if c["k"] == "call" and not c.get("op") and any(strip(a)["k"] == "ref" and strip(a).get("id") == cap.get("id") for a in c["a"]):
                            out.setdefault(short(c), n)
    return out


# ------------------------------------------------------------------ every element once
def loop_elems(fn, loop):
    """ids of the variables that stand for the element of this iteration"""
    ids = set()
    if loop["k"] == "rfor":
        ids.add(loop["var"]["id"])
        for x in walk(loop["var"]):
            if x["k"] in ("var", "bind") and "id" in x:
                ids.add(x["id"])
    if loop["k"] == "while":
        for x in walk(loop["c"]):
            if x["k"] == "var":
                ids.add(x["id"])
        if loop.get("cv"):
            ids.add(loop["cv"]["id"])
    if loop["k"] == "for" and loop.get("inc") is not None:
        for x in walk(loop["inc"]):
            if x["k"] == "ref" and "id" in x:
                ids.add(x["id"])
    grow = True
    while grow:
        grow = False
        for n in walk(loop["body"]):
            if n["k"] == "var" and n.get("init") is not None and n["id"] not in ids and any(x["k"] == "ref" and x.get("id") in ids for x in walk(n["init"])):
                ids.add(n["id"])
                grow = True
    return ids


def rule_once(rep, fn):
    f = fn.f
    for n in walk(f["body"]):
        if n["k"] != "call":
            continue
        if short(n) in APPEND and n.get("o") is not None and not n.get("op"):
            tgt, args = n["o"], n["a"]
        elif n.get("op") == "<<" and "bufwriter" in strip(n["a"][0]).get("t", "") + n.get("fn", ""):
            tgt, args = n["a"][0], n["a"][1:]
        else:
            continue
        loop = loop_of(fn, n)
        if loop is None:
            continue
        tp = fn.path(tgt)
        if base_id(tp) is not None and declared_in(fn, base_id(tp), loop):
            continue
        ids = loop_elems(fn, loop)
        if not any(x["k"] == "ref" and x.get("id") in ids for a in args for x in walk(a)):
            continue
        rep.inst("once", "%s: %s into %s" % (loc(f, n), ", ".join(show(a) for a in args)[:60], show(strip(tgt))))
        counters = {base_id(p) for p, rhs, w in writes(fn, loop) if rhs is None and (w["k"] == "un" or w.get("op") in ("++", "--"))}
        for c, pol, g in fn.guards(n):
            if g["k"] in LOOPS or not fn.inside(g, loop["body"]) or g["k"] == "if" and not fn.inside(n, g) and announced(g["x"]):
                continue
            for e, p in conj(c, pol):
                q = positional(fn, e, p, ids, counters, tp, loop)
                if q is None:
                    continue
                if other_append(fn, g, n, tp):
                    continue
                rep.viol("once", "%s:%s" % (f["qn"], show(strip(tgt))), loc(f, g),
                         "whether an element reaches %s depends on its position and not only on the element: %s" % (show(strip(tgt)), show(q)))


def announced(s):
    """the elements are left out with a message to the user, or with an error"""
    return any(x["k"] in ("log", "throw") for x in walk(s))


def positional(fn, e, pol, ids, counters, tp, loop):
    for x in walk(e):
        if x["k"] == "bin" and x["op"] == "%" and not sampled(e, pol):
            return x
        if x["k"] == "bin" and x["op"] in ("<", ">", "<=", ">=", "==", "!="):
            if emptiness(x, pol):
                continue
            for s in (x["x"], x["y"]):
                s = strip(s)
                if s["k"] == "ref" and s.get("id") in counters or s["k"] == "mem" and False:
                    return x
                if s["k"] == "call" and short(s) == "size" and s.get("o") is not None and fn.path(s["o"]) == tp:
                    return x
    return None


def sampled(e, pol):
    """every n-th element (sparse blocks)"""
    q = equality(e)
    return q is not None and q[2] == pol and 0 in (const_int(q[0]), const_int(q[1]))


def other_append(fn, g, n, tp):
    """does the other branch of g put something into the same container?"""
    if g["k"] != "if" or not g.get("y"):
        return False
    o = g["y"] if fn.inside(n, g["x"]) else g["x"]
    return any(x["k"] == "call" and short(x) in APPEND + ("insert",) and x.get("o") is not None and fn.path(x["o"]) == tp for x in walk(o))


# ------------------------------------------------------------------ counts of what was written
def counts(fn, body, sinks, ctr):
    """{(appends, increments)} over the paths of one iteration"""
    def leafs(n):
        a = sum(1 for x in walk(n) if id(x) in sinks)
        c = sum(1 for x in walk(n) if x["k"] == "un" and x["op"].lstrip("p") == "++" and strip(x["x"]).get("id") == ctr)
        return a, c

    def go(s):
        if s is None:
            return {(0, 0, 0)}
        k = s["k"]
        if k == "blk":
            cur = {(0, 0, 0)}
            for x in s["s"]:
                nxt = set()
                for a, c, d in cur:
                    if d:
                        nxt.add((a, c, d))
                        continue
                    for a2, c2, d2 in go(x):
                        nxt.add((min(a + a2, 4), min(c + c2, 4), d2))
                cur = nxt
            return cur
        if k == "if":
            a, c = leafs(s["c"])
            out = go(s["x"]) | (go(s["y"]) if s.get("y") else {(0, 0, 0)})
            return {(x + a, y + c, d) for x, y, d in out}
        if k in ("cont", "break"):
            return {(0, 0, 1)}
        if k in ("ret", "throw"):
            return set()
        if k in LOOPS:
            a, c = leafs(s)
            return {(0, 0, 0)} if not a and not c else {(9 if a else 0, 9 if c else 0, 0)}
        a, c = leafs(s)
        return {(a, c, 0)}
    return {(a, c) for a, c, d in go(body)}


def rule_counts(rep, fn):
    """A counter that is stored per part counts exactly the elements written to the part."""
    f = fn.f
    for n in walk(f["body"]):
        if n["k"] != "call" or n.get("op") != "<<" or "bufwriter" not in strip(n["a"][0]).get("t", "") + n.get("fn", ""):
            continue
        loop = loop_of(fn, n)
        if loop is None:
            continue
        wp = fn.path(n["a"][0])
        sinks = {id(x) for x in walk(loop) if x["k"] == "call" and x.get("op") == "<<" and x["a"] and fn.path(x["a"][0]) == wp}
        for v, d in fn.vars.items():
            if declared_in(fn, v, loop):
                continue
            if not any(x["k"] == "un" and x["op"].lstrip("p") == "++" and strip(x["x"]).get("id") == v for x in walk(loop["body"])):
                continue
            used = any(x["k"] == "call" and short(x) in APPEND and any(strip(a).get("id") == v for a in x["a"]) for x in walk(f["body"]))
            if not used:
                continue
            rep.inst("count", "%s: %s counts what goes into %s" % (loc(f, n), d["n"], pathtext(wp)))
            for a, c in sorted(counts(fn, loop["body"], sinks, v)):
                if a != c:
                    rep.viol("count", "%s:%s" % (f["qn"], d["n"]), loc(f, n),
                             "%s is stored as the number of elements of this part, but there is a path with %d elements written and %d counted" % (d["n"], a, c))


def rule_parts(prog, rep, fn):
    """One number per part: the index of the part, its file and its stored size advance together."""
    f = fn.f
    for loop in walk(f["body"]):
        if loop["k"] not in LOOPS:
            continue
        ctr = {}
        for x in walk(loop["body"]):
            if x["k"] == "un" and x["op"].lstrip("p") == "++" and strip(x["x"])["k"] == "ref" and loop_of(fn, x) is loop:
                v = strip(x["x"]).get("id")
                if v is not None and not declared_in(fn, v, loop):
                    ctr[v] = x
        for v, inc in ctr.items():
            users = [x for x in walk(loop["body"]) if x["k"] == "call" and not x.get("op") and not is_log(x) and loop_of(fn, x) is loop and
                     any(strip(a).get("id") == v for a in x["a"]) and prog.targets(x)]
            files = [u for u in users if any("string" in t for t in [c.get("t", "") for c in body_nodes(prog, u)])]
            push = [x for x in walk(loop["body"]) if x["k"] == "call" and short(x) in APPEND and x.get("o") is not None and loop_of(fn, x) is loop and
                    base_id(fn.path(x["o"])) is not None and not declared_in(fn, base_id(fn.path(x["o"])), loop)]
            if not files or not push:
                continue
            rep.inst("parts", "%s: %s numbers the parts handed to %s, sizes in %s" % (loc(f, inc), fn.vars[v]["n"], short(files[0]), show(push[0]["o"])))
            for a, c in sorted(counts(fn, loop["body"], {id(p) for p in push[:1]}, v)):
                if (a, c) != (1, 1):
                    rep.viol("parts", "%s:%s" % (f["qn"], fn.vars[v]["n"]), loc(f, inc),
                             "in one round of the loop %s is raised %d times and %d sizes are stored" % (fn.vars[v]["n"], c, a))
            for a, c in sorted(counts(fn, loop["body"], {id(u) for u in files[:1]}, v)):
                if (a, c) != (1, 1):
                    rep.viol("parts", "%s:%s:file" % (f["qn"], fn.vars[v]["n"]), loc(f, inc),
                             "in one round of the loop %s is raised %d times and %d parts are handed to %s" % (fn.vars[v]["n"], c, a, short(files[0])))
            for u in files[:1]:
                if fn.order[id(inc)] < fn.order[id(u)]:
                    # numbering from one: the readers number from zero
                    rep.viol("parts", "%s:%s:first" % (f["qn"], fn.vars[v]["n"]), loc(f, inc), "the number is raised before the part is written: the first part has number 1, the readers begin with 0")


def body_nodes(prog, call):
    for k in prog.targets(call):
        g = prog.fn(k)
        if g and g.get("body"):
            for x in walk(g["body"]):
                if x["k"] == "call" and short(x) == "to_string":
                    yield {"t": "string"}


# ------------------------------------------------------------------ slots of triples
def rule_slots(rep, fn):
    f = fn.f
    for n in walk(f["body"]):
        if n["k"] not in ("ctor", "list") or "array<unsigned long, 3>" not in n.get("t", ""):
            continue
        a = n["a"]
        while len(a) == 1 and a[0]["k"] in ("list", "ctor"):
            a = a[0]["a"]
        if len(a) != 3:
            continue
        idx = []
        for e in a:
            s = [(pathtext(fn.path(x["a"][0] if x["k"] == "call" else x["b"])), const_int(x["a"][1] if x["k"] == "call" else x["i"]))
                 for x in walk(e) if x["k"] == "sub" or x["k"] == "call" and x.get("op") == "[]" and len(x["a"]) == 2]
            s = [t for t in s if t[1] is not None]
            idx.append(s[0] if len(s) == 1 else None)
        if None in idx or len({b for b, _ in idx}) != 1:
            continue
        rep.inst("slots", "%s: %s" % (loc(f, n), show(n)[:80]))
        if [i for _, i in idx] != [0, 1, 2]:
            rep.viol("slots", "%s:%s" % (f["qn"], idx[0][0]), loc(f, n),
                     "the three parts of a triple are taken from positions %s of %s, so parts change their place or are lost" % ([i for _, i in idx], idx[0][0]))


# ------------------------------------------------------------------ division of a batch among the threads
def poly(fn, e):
    """{monomial (sorted names): coefficient} of an expression of + - *"""
    e = strip(e)
    c = const_int(e)
    if c is not None:
        return {(): c}
    op, x, y = None, None, None
    if e["k"] == "bin":
        op, x, y = e["op"], e["x"], e["y"]
    elif e["k"] == "call" and e.get("op") and len(e["a"]) == 2:
        op, x, y = e["op"], e["a"][0], e["a"][1]
    if op in ("+", "-"):
        a, b = poly(fn, x), poly(fn, y)
        if a is None or b is None:
            return None
        out = dict(a)
        for m, v in b.items():
            out[m] = out.get(m, 0) + (v if op == "+" else -v)
        return {m: v for m, v in out.items() if v}
    if op == "*":
        a, b = poly(fn, x), poly(fn, y)
        if a is None or b is None:
            return None
        out = {}
        for m, v in a.items():
            for m2, v2 in b.items():
                k = tuple(sorted(m + m2))
                out[k] = out.get(k, 0) + v * v2
        return {m: v for m, v in out.items() if v}
    if e["k"] == "ref":
        if "id" in e:
            i = fn.single(e["id"])
            if i is not None:
                return poly(fn, i)
        return {(e["n"],): 1}
    return None


def clamp(e):
    """argument list of std::min, or the expression itself"""
    e = strip(e)
    if e["k"] == "call" and short(e) == "min" and len(e["a"]) == 2:
        return [strip(a) for a in e["a"]]
    return [e]


def subst(p, name):
    out = {}
    for m, v in p.items():
        k = m.count(name)
        rest = tuple(x for x in m if x != name)
        if k > 1:
            return None
        out[m] = out.get(m, 0) + v
        if k == 1:
            out[rest] = out.get(rest, 0) + v
    return {m: v for m, v in out.items() if v}


def rule_split(prog, rep):
    fns = [f for f in prog.all_fns() if f.get("body") and f.get("cls", "").split("<")[0].endswith("BatchedPipeline")]
    par = {}
    for f in fns:
        for n in walk(f["body"]):
            if n["k"] == "for" and any(x["k"] == "call" and short(x) == "get" and x.get("o") is not None and "future" in strip(x["o"]).get("t", "") for x in walk(n["body"])):
                c = strip(n["c"])
                v = const_int(c["y"]) if c["k"] == "bin" else None
                if v is not None:
                    par[f["cls"]] = v + (1 if c["op"] == "<=" else 0)
    found = 0
    for f in fns:
        ps = f.get("params", [])
        if len(ps) < 4 or not f["rt"].startswith("std::pair"):
            continue
        fn = Fn(prog, f)
        found += 1
        rep.inst("split", "%s: %s" % (loc(f), f["n"]))
        beg, end = ps[0]["n"], ps[1]["n"]
        idx = ps[-1]["n"]
        first = second = None
        for n in walk(f["body"]):
            a = assignment(n)
            if a and strip(a[0])["k"] == "mem" and strip(a[0])["n"] in ("first", "second"):
                if strip(a[0])["n"] == "first":
                    first = a[1]
                else:
                    second = a[1]
        if first is None or second is None:
            r = [n for n in walk(f["body"]) if n["k"] == "ret" and n.get("e")]
            args = strip(r[-1]["e"])["a"] if r and strip(r[-1]["e"])["k"] in ("ctor", "list", "call") else []
            if len(args) == 2:
                first, second = [strip(a) for a in args]
                first, second = [fn.single(x["id"]) if x["k"] == "ref" and fn.single(x.get("id")) is not None else x for x in (first, second)]
        if first is None or second is None:
            raise AnalysisError("%s: the two ends of a range are not visible" % f["qn"])
        second = strip(second)
        if second["k"] != "cond":
            rep.viol("split", "%s:last" % f["qn"], loc(f, second), "the range of the last thread does not always reach the end of the batch: what is left over by the division is lost")
            continue
        fs = clamp(first)
        last = [x for x in (second["x"], second["y"]) if strip(x)["k"] == "ref" and strip(x)["n"] == end]
        mid = [x for x in (second["x"], second["y"]) if not (strip(x)["k"] == "ref" and strip(x)["n"] == end)]
        if len(last) != 1 or len(mid) != 1:
            rep.viol("split", "%s:last" % f["qn"], loc(f, second), "no case in which the range ends at the end of the batch")
            continue
        p1 = [poly(fn, x) for x in fs if not (x["k"] == "ref" and x["n"] == end)]
        p2 = [poly(fn, x) for x in clamp(mid[0]) if not (x["k"] == "ref" and x["n"] == end)]
        if len(p1) != 1 or len(p2) != 1 or p1[0] is None or p2[0] is None:
            raise AnalysisError("%s: ends of the ranges are not sums of products" % f["qn"])
        if subst(p1[0], idx) != p2[0]:
            rep.viol("split", "%s:gap" % f["qn"], loc(f, second), "a range does not end where the next one begins: elements between them are lost or handled twice")
        if {m: v for m, v in p1[0].items() if idx not in m} != {(beg,): 1}:
            rep.viol("split", "%s:begin" % f["qn"], loc(f, first), "the first range does not begin at the beginning of the batch")
        # the case "end" belongs to the last index
        c = strip(second["c"])
        polx = strip(second["y"]) is strip(last[0])
        ok = False
        if c["k"] == "bin":
            l, rr = poly(fn, c["x"]), poly(fn, c["y"])
            # idx < P - 1 (then not the last) / idx + 1 < P / idx != P - 1 / idx == P - 1
            n = par.get(f["cls"])
            if l is not None and rr is not None:
                if not n:
                    raise AnalysisError("%s: the number of threads is not visible" % f["qn"])
                for P in (n,):
                    truth = []
                    for i in range(P):
                        lv, rv = (sum(v * prod(m, idx, i, P) for m, v in q.items()) for q in (l, rr))
                        t = {"<": lv < rv, "<=": lv <= rv, ">": lv > rv, ">=": lv >= rv, "==": lv == rv, "!=": lv != rv}.get(c["op"])
                        truth.append(t if not polx else not t)
                    ok = truth[-1] is True and not any(truth[:-1])
        if not ok:
            rep.viol("split", "%s:which" % f["qn"], loc(f, second), "the range that reaches to the end is not exactly the one of the last thread (%s)" % show(c))
    if not found:
        raise AnalysisError("no function divides a batch into ranges")


def prod(m, idx, i, P):
    r = 1
    for x in m:
        r *= i if x == idx else P
    return r


# ------------------------------------------------------------------ duplicates
def rule_unique(prog, rep):
    for f in functions(prog, BUILD):
        for n in walk(f["body"]):
            if n["k"] != "call" or short(n) != "unique" or not n.get("fn", "").startswith("std"):
                continue
            fn = Fn(prog, f)
            c = container(fn, n["a"][0])
            rep.inst("unique", "%s: %s" % (loc(f, n), show(n)[:80]))
            ok = False
            for x in walk(f["body"]):
                if x["k"] == "call" and "sort" in short(x).lower() and fn.order[id(x)] < fn.order[id(n)] and any(container(fn, a) == c for a in x["a"]):
                    bad = [g for g, p, at in fn.guards(x) if not any(g2 is g for g2, p2, at2 in fn.guards(n))]
                    if not bad:
                        ok = True
            if not ok:
                rep.viol("unique", "%s:sort" % f["qn"], loc(f, n), "duplicates are removed with unique, but %s is not sorted before on every path: only adjacent duplicates go away" % c)
            # the rest is cut off
            used = any(x["k"] == "call" and short(x) in ("resize", "erase") and x.get("o") is not None and container(fn, x["o"]) == c and
                       (fn.order[id(x)] > fn.order[id(n)] or fn.inside(n, x)) for x in walk(f["body"]))
            if not used:
                rep.viol("unique", "%s:cut" % f["qn"], loc(f, n), "the duplicates are moved behind the end, but %s is not shortened" % c)


def container(fn, e):
    e = strip(e)
    while True:
        if e["k"] == "call" and short(e) in ("begin", "end", "cbegin", "cend"):
            e = strip(e["o"] if e.get("o") is not None else e["a"][0])
        elif e["k"] == "un" and e["op"] in ("&", "*"):
            e = strip(e["x"])
        else:
            break
    if e["k"] in ("ref", "mem"):
        return pathtext(fn.path(e))
    return show(e)


def rule_dedup(prog, rep):
    """The first permutation that is written from the triples removes the duplicates."""
    pos = None
    callers = {}
    for f in functions(prog, BUILD):
        for n in walk(f["body"]):
            if n["k"] == "call" and n["a"]:
                for k in prog.targets(n):
                    g = prog.fn(k)
                    if g and g.get("body") and any(p.get("n") and "unique" in p["n"].lower() and p["t"].endswith("bool") for p in g["params"]):
                        i = [j for j, p in enumerate(g["params"]) if "unique" in p["n"].lower()][0]
                        callers.setdefault(f["key"], (f, []))[1].append((n, i))
                        break
    for f, cs in callers.values():
        own = [p["n"] for p in f["params"] if "unique" in p.get("n", "").lower()]
        if own:
            for n, i in cs:
                rep.inst("dedup", "%s: %s passes it on" % (loc(f, n), f["n"]))
                if strip(n["a"][i]).get("n") not in own:
                    rep.viol("dedup", "%s:pass" % f["qn"], loc(f, n), "whether duplicates are removed is not passed on")
            continue
        fn = Fn(prog, f)
        cs.sort(key=lambda c: fn.order[id(c[0])])
        n, i = cs[0]
        rep.inst("dedup", "%s: first permutation of %s" % (loc(f, n), f["n"]))
        if const_int(n["a"][i]) != 1:
            rep.viol("dedup", "%s:first" % f["qn"], loc(f, n), "the first pair of permutations is written without removing duplicate triples: they are counted and returned several times")
        extra = [g for g, p, at in fn.guards(n)]
        if extra:
            rep.viol("dedup", "%s:guard" % f["qn"], loc(f, n), "the permutation that removes the duplicates is only written if %s" % show(extra[0]))


# ------------------------------------------------------------------ blocks of the input
def rule_restore(prog, rep):
    """What is saved before a batch is parsed is restored when the batch has to be parsed again."""
    recs = {}
    for f in functions(prog, ("src/parser/",)):
        fn = Fn(prog, f)
        for n in walk(f["body"]):
            a = assignment(n)
            if not a or strip(a[0])["k"] != "mem":
                continue
            b = strip(a[0]).get("b")
            t = (b or {}).get("t", "")
            if "BackupState" in t or "Backup" in t:
                recs.setdefault(t.replace("const ", "").split(" ")[0].rstrip("&* ").split("::")[-1], []).append((fn, strip(a[0])["n"], a[1], n))
    if not recs:
        raise AnalysisError("no saved parser state found")
    for t, saved in recs.items():
        for fn, field, rhs, n in saved:
            src = value(fn, rhs)
            rep.inst("restore", "%s: %s = %s" % (loc(fn.f, n), field, src))
            uses = []
            for f in functions(prog, ("src/parser/",)):
                if f["qn"] == fn.f["qn"]:
                    continue
                g = None
                for x in walk(f["body"]):
                    if x["k"] == "mem" and x["n"] == field and t in (x.get("b") or {}).get("t", ""):
                        g = g or Fn(prog, f)
                        uses.append((g, x))
            if not any(restores(g, x, rhs) for g, x in uses):
                rep.viol("restore", "%s:%s" % (fn.f["qn"], field), loc(fn.f, n), "%s is saved before a batch of statements, but nothing is set back to it when the batch is parsed again: its statements count twice" % src)


def restores(g, use, rhs):
    """the use is assigned to what was saved, or handed to a changing method of it"""
    root = {x["n"] for x in walk(rhs) if x["k"] == "mem"}
    for p in g.ancestors(use):
        a = assignment(p)
        if a and any(x is use for x in walk(a[1])):
            return strip(a[0])["k"] == "mem" and strip(a[0])["n"] in root
        if p["k"] == "call" and p.get("o") is not None and not p.get("cm"):
            return any(x["k"] == "mem" and x["n"] in root for x in walk(p["o"]))
        if p["k"] in ("if", "blk", "while", "throw"):
            return False
    return False


def rule_next(prog, rep):
    """Handing out a buffered element: position advances, refill happens only when all are handed out, an empty buffer is not the end while more may come."""
    for f in functions(prog, BUILD):
        if "optional" not in f["rt"]:
            continue
        fn = Fn(prog, f)
        for n in walk(f["body"]):
            if n["k"] != "ret" or not n.get("e"):
                continue
            handed = list(walk(n["e"]))
            handed += [y for x in handed if x["k"] == "ref" and fn.single(x.get("id")) is not None for y in walk(fn.single(x["id"]))]
            for x in handed:
                b = i = None
                if x["k"] == "call" and x.get("op") == "[]" and len(x["a"]) == 2:
                    b, i = x["a"]
                elif x["k"] == "sub":
                    b, i = x["b"], x["i"]
                if b is None or strip(b)["k"] != "mem":
                    continue
                ii = strip(i)
                inc = ii["k"] == "un" and ii["op"] in ("p++", "++")
                idx = strip(ii["x"]) if inc else ii
                if idx["k"] != "mem":
                    continue
                bp, ip = fn.path(b), fn.path(idx)
                rep.inst("next", "%s: %s hands out %s[%s]" % (loc(f, n), f["qn"], show(strip(b)), show(idx)))
                if not inc and not any(p == ip and w["k"] == "un" for p, r, w in writes(fn, f["body"])):
                    rep.viol("next", "%s:advance" % f["qn"], loc(f, n), "the position is not advanced: the same element is handed out again")
                if inc and ii["op"] == "++":
                    rep.viol("next", "%s:skip" % f["qn"], loc(f, n), "the position is advanced before the element is taken: the first element of every batch is skipped")
                # refill
                for p, r, w in writes(fn, f["body"]):
                    fills = p == bp and r is not None
                    if not fills and w["k"] == "call" and w.get("op") == "=" and short(strip(w["a"][0])) == "tie":
                        pass
                    if not fills:
                        continue
                    refill(rep, fn, f, w, bp, ip)
                for w in walk(f["body"]):
                    a = assignment(w)
                    if a and strip(a[0])["k"] == "call" and short(strip(a[0])) == "tie" and any(y["k"] == "mem" and fn.path(y) == bp for y in walk(a[0])):
                        refill(rep, fn, f, w, bp, ip)


def refill(rep, fn, f, w, bp, ip):
    gs = [(e, p) for c, pol, at in fn.guards(w) for e, p in conj(c, pol)]
    full = False
    for e, p in gs:
        q = equality(e)
        if q and q[2] == p:
            t = {value(fn, q[0]), value(fn, q[1])}
            if pathtext(ip) in t:
                full = True
        s = strip(e)
        if s["k"] == "bin" and s["op"] in (">=", "<=", "<", ">"):
            x, y, op = s["x"], s["y"], s["op"]
            if fn.path(y) == ip:
                x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
            if fn.path(x) == ip and (op == ">=" and p or op == "<" and not p):
                full = True
    if not full:
        rep.viol("next", "%s:refill" % f["qn"], loc(f, w), "the buffer is replaced although not all of its elements were handed out")
    res = [x for p, r, x in writes(fn, f["body"]) if p == ip and r is not None and const_int(r) == 0]
    if not res:
        rep.viol("next", "%s:position" % f["qn"], loc(f, w), "the position is not set back to the beginning of the new buffer")


def check(prog, rep):
    rep.rule("key", "in a loop that compares each element with the previous one, the remembered value is only ever the compared value of an element, and every new value is remembered before the iteration ends", 6)
    rep.rule("last", "what is done with a finished run when the next one starts is also done with the last run after the loop, whatever its length", 4)
    rep.rule("reset", "everything that is built up over one run is set back after the run was handled, to the same value the first run starts with, and before the key changes hands", 3)
    rep.rule("remainder", "a buffer that is handed on when it is full is emptied then, and what is left in it after the loop is handed to the same place", 2)
    rep.rule("once", "whether an element reaches the container, file or writer does not depend on its position, on a counter or on how full a buffer is", 10)
    rep.rule("count", "the size stored for a part counts exactly the elements written to it, on every path", 1)
    rep.rule("parts", "in each round the number of the part, its file and its stored size advance together, from zero", 1)
    rep.rule("slots", "a triple that is rebuilt from three positions of one array keeps their order", 2)
    rep.rule("split", "the ranges a batch is divided into begin at its beginning, end where the next begins, and the last reaches its end", 1)
    rep.rule("unique", "duplicates are only removed by unique after a sort of the same container on the same path, and the container is shortened", 2)
    rep.rule("dedup", "the first pair of permutations that is written removes duplicate triples", 2)
    rep.rule("restore", "every part of the parser state saved before a batch is restored when the batch is parsed again", 3)
    rep.rule("next", "a buffered element is handed out once, the buffer is only refilled when empty, and the position starts again at zero", 1)
    fns = list(functions(prog, SCOPE))
    rep.extra["functions"] = len(fns)

    def per(fn):
        seen = set()
        for r in run_loops(fn):
            k = (id(r.cond), pathtext(r.kpath))
            if k in seen:
                continue
            seen.add(k)
            rule_key(rep, fn, r)
            rule_runs(prog, rep, fn, r)
        rule_buffers(prog, rep, fn)
    for f in fns:
        fn = Fn(prog, f)
        rep.part(per, fn)
        if f["file"].startswith(BUILD) and not f["file"].startswith(QUERY):
            rep.part(rule_once, rep, fn)
            rep.part(rule_counts, rep, fn)
            rep.part(rule_parts, prog, rep, fn)
            rep.part(rule_slots, rep, fn)
    rep.part(rule_split, prog, rep)
    rep.part(rule_unique, prog, rep)
    rep.part(rule_dedup, prog, rep)
    rep.part(rule_restore, prog, rep)
    rep.part(rule_next, prog, rep)


run("C24", check, level="other",
    explanation="Syntax-tree and dataflow rules over the loops of the index builder: remembered keys, run boundaries, buffers that are flushed when full, per-part counts, division of batches.")
