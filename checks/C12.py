"""C12: only the shipped web files can be fetched over HTTP."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from cg import CallGraph
from place import Fn, conj
import facts

OPEN = re.compile(r"^(std::basic_(i|o)?fstream(<.*>)?::open|std::basic_filebuf(<.*>)?::open|ad_utility::File::open|::?(open|openat|fopen|freopen|creat|opendir|popen|system|execl|execlp|execv|execvp|dlopen|realpath|readlink|stat|access)"
                  r"|(fopen|open|popen|system|opendir|access|stat)|std::filesystem::\w+|ad_utility::MmapVector(View)?::open)$")
CHANGE = re.compile(r"^(::?)?(unlink|remove|rename|mkdir|rmdir|truncate|chmod|chown|symlink|link|popen|system|exec\w+)$|^std::(remove|rename|system)$|^std::filesystem::(remove|remove_all|rename|create_director\w+|resize_file|copy\w*|permissions)$"
                    r"|^ad_utility::deleteFile$")
CTOR = re.compile(r"^(std::basic_(i|o)?fstream<|std::(i|o)?fstream$|ad_utility::File$)")
PASS = ("c_str", "data", "str", "string", "move", "forward", "basic_string", "string_view", "to_string", "operator basic_string_view")


class Paths:
    def __init__(self, prog, cg, keys):
        self.prog, self.cg, self.keys = prog, cg, keys
        self.F = {}
        self.callers = {}
        for k in keys:
            for n, t in cg.out(k):
                if n is not None and n["k"] in ("call", "ctor"):
                    self.callers.setdefault(t, []).append((k, n))
        self.written = None

    def fn(self, k):
        if k not in self.F:
            self.F[k] = Fn(self.prog, self.prog.fn(k))
        return self.F[k]

    def field_written(self, name):
        if self.written is None:
            self.written = {}
            for k in self.keys:
                f = self.prog.fn(k)
                if not f.get("body") or f["n"].startswith("~") or not f["file"].startswith("src/engine/Server"):
                    continue
                for n in walk(f["body"]):
                    x = None
                    if n["k"] == "bin" and n["op"] in ("=", "+="):
                        x = strip(n["x"])
                    elif n["k"] == "call" and n.get("op") in ("=", "+="):
                        x = strip(n["a"][0])
                    elif n["k"] == "call" and n.get("o") is not None and short(n) in ("assign", "append", "push_back", "insert", "swap"):
                        x = strip(n["o"])
                    if x is not None and x["k"] == "mem":
                        self.written.setdefault(x["n"], loc(f, n))
        return self.written.get(name)

    # -- is the value of e at this place known before any request, or one of fixed literals?
    def why(self, F, e, depth=0, seen=frozenset()):
        """None if it is; else (where, text) of the part that a client determines."""
        e = strip(e)
        if depth > 12:
            return (loc(F.f, e), "too deep to follow")
        k = e["k"]
        if k in ("str", "int", "bool", "chr", "float", "null", "defarg", "sizeof", "lambda"):
            return None
        if k == "ref":
            if "id" not in e or e.get("dk") in ("enum", "fn") or e.get("en"):
                return None
            vid = e["id"]
            if self.limited(F, e, vid):
                return None
            if (id(F.f), vid) in seen:
                return None
            seen = seen | {(id(F.f), vid)}
            if vid in F.params:
                i = next(j for j, p in enumerate(F.f["params"]) if p["id"] == vid)
                cs = self.callers.get(F.f["key"], [])
                for ck, n in cs:
                    if i >= len(n["a"]):
                        continue
                    w = self.why(self.fn(ck), n["a"][i], depth + 1, seen)
                    if w:
                        return w
                if not cs:
                    return (loc(F.f, e), "parameter %s of %s" % (e["n"], F.f["qn"]))
                out = None
            d = F.vars.get(vid)
            if d is not None and d.get("of") is not None:
                return self.why(F, d["of"], depth + 1, seen)
            srcs = [d["init"]] if d is not None and d.get("init") is not None else []
            srcs += [y for y, n in F.assign.get(vid, [])]
            for n in walk(F.f["body"]):
                if n["k"] == "call" and (n.get("op") in ("+=", ">>", "<<") and n["a"] and strip(n["a"][0]).get("id") == vid):
                    srcs += n["a"][1:]
                elif n["k"] == "call" and n.get("o") is not None and strip(n["o"]).get("id") == vid and short(n) in ("append", "assign", "push_back", "insert", "replace", "swap", "emplace_back"):
                    srcs += n["a"]
                elif n["k"] == "call" and n.get("fn") and any(strip(a).get("id") == vid and strip(a)["k"] == "ref" for a in n["a"]):
                    # handed to a function that may fill it
                    for t in self.prog.targets(n):
                        g = self.prog.fn(t)
                        for j, p in enumerate(g.get("params", [])):
                            if j < len(n["a"]) and strip(n["a"][j]).get("id") == vid and p["t"].endswith("&") and "const" not in p["t"]:
                                return (loc(F.f, n), "%s, filled by %s" % (e["n"], short(n)))
                    if short(n) in ("recv", "read", "getline"):
                        return (loc(F.f, n), "%s, filled by %s" % (e["n"], short(n)))
            for s in srcs:
                w = self.why(F, s, depth + 1, seen)
                if w:
                    return w
            if vid not in F.params and d is None and not srcs:
                return None       # a global: set before the requests
            return None
        if k == "mem":
            b = strip(e["b"]) if e.get("b") else None
            if b is None or b["k"] == "this":
                w = self.field_written(e["n"])
                return (w, "member %s, which is changed while serving requests" % e["n"]) if w else None
            return self.why(F, b, depth + 1, seen)
        if k in ("call", "ctor"):
            if k == "call" and short(e) in ("getenv", "recv", "getHTTPRequest"):
                return (loc(F.f, e), show(e)[:40])
            for t in self.prog.targets(e):
                g = self.prog.fn(t)
                if g.get("body") and g["file"].startswith("src/") and k == "call":
                    G = Fn(self.prog, g)
                    for r in walk(g["body"]):
                        if r["k"] == "ret" and r.get("e") is not None:
                            x = strip(r["e"])
                            if not (x["k"] == "ref" and x.get("id") in G.params):
                                pass
            parts = ([e["o"]] if e.get("o") is not None else []) + e["a"]
            for p in parts:
                w = self.why(F, p, depth + 1, seen)
                if w:
                    return w
            return None
        if k == "cond":
            return self.why(F, e["x"], depth + 1, seen) or self.why(F, e["y"], depth + 1, seen)
        if k == "this":
            return None
        for c in ("x", "y", "e", "b"):
            if isinstance(e.get(c), dict):
                w = self.why(F, e[c], depth + 1, seen)
                if w:
                    return w
        return None

    # -- guards
    def limited(self, F, e, vid):
        for c, pol, node in F.guards(e):
            lits = self.oneof(F, c, pol, vid)
            if lits is None:
                continue
            # nothing between the test and the use changes the variable
            o1, o2 = F.order[id(node)], F.order.get(id(e), 1 << 30)
            changed = [n for _, n in F.assign.get(vid, []) if o1 < F.order[id(n)] < o2]
            changed += [n for n in walk(F.f["body"]) if n["k"] == "call" and o1 < F.order[id(n)] < o2 and
                        (n.get("op") in ("+=",) and strip(n["a"][0]).get("id") == vid or
                         n.get("o") is not None and strip(n["o"]).get("id") == vid and short(n) in ("append", "assign", "push_back", "insert", "replace", "swap", "erase"))]
            if changed:
                continue
            self.lists.append((loc(F.f, node), sorted(lits), F, node, vid))
            return True
        return False

    lists = []

    def oneof(self, F, c, pol, vid):
        """Literals a variable can equal when condition c has value pol, or None if not limited."""
        c = strip(c)
        if c["k"] == "un" and c["op"] == "!":
            return self.oneof(F, c["x"], not pol, vid)
        if c["k"] == "bin" and c["op"] in ("&&", "||"):
            a, b = self.oneof(F, c["x"], pol, vid), self.oneof(F, c["y"], pol, vid)
            if (c["op"] == "||") == pol:
                return a | b if a is not None and b is not None else None
            return a if a is not None else b
        if c["k"] == "ref" and c.get("id") in F.vars:
            i = F.single(c["id"])
            if i is None:
                return None
            # the variable must not change between the test and its use
            if any(F.order[id(n)] > F.order[id(i)] for _, n in F.assign.get(vid, [])):
                return None
            return self.oneof(F, i, pol, vid)
        eq = c.get("op")
        if c["k"] in ("call", "bin") and eq in ("==", "!="):
            x, y = (c["a"] if c["k"] == "call" else (c["x"], c["y"]))
            if (eq == "==") != pol:
                return None
            for p, q in ((x, y), (y, x)):
                if strip(p)["k"] == "ref" and strip(p).get("id") == vid:
                    l = self.literal(F, q)
                    if l is not None:
                        return {l}
                # find(...) != end()
            return None
        if c["k"] == "call" and pol and short(c) in ("count", "contains") and c.get("o") is not None and c["a"] and strip(c["a"][0]).get("id") == vid:
            ls = self.container(F, c["o"])
            return ls
        if c["k"] == "call" and c.get("fn"):
            for t in self.prog.targets(c):
                g = self.prog.fn(t)
                if not g.get("body"):
                    continue
                G = Fn(self.prog, g)
                for j, p in enumerate(g.get("params", [])):
                    if j < len(c["a"]) and strip(c["a"][j]).get("id") == vid:
                        rets = [r for r in walk(g["body"]) if r["k"] == "ret"]
                        acc = set()
                        for r in rets:
                            v = strip(r["e"])
                            if v["k"] == "bool" and bool(v.get("v")) != pol:
                                continue
                            if v["k"] == "bool":
                                s = next((x for c2, p2, _ in G.guards(r) for x in [self.oneof(G, c2, p2, p["id"])] if x is not None), None)
                            else:
                                s = self.oneof(G, v, pol, p["id"])
                            if s is None:
                                return None
                            acc |= s
                        if rets and not G.assign.get(p["id"]):
                            return acc
        return None

    def literal(self, F, e):
        e = strip(e)
        while e["k"] == "ctor" and e["a"]:
            e = strip(e["a"][0])
        if e["k"] == "str":
            return e.get("v", "")
        if e["k"] == "ref" and "id" in e:
            d = F.vars.get(e["id"])
            if d is not None and d.get("init") is not None and e["id"] not in F.assign and "const" in d.get("t", ""):
                return self.literal(F, d["init"])
            g = self.prog.raw.get("V", {}).get(e["id"]) if isinstance(self.prog.raw, dict) else None
        return None

    def container(self, F, e):
        e = strip(e)
        if e["k"] == "ref" and e.get("id") in F.vars and "const" in F.vars[e["id"]].get("t", ""):
            i = F.vars[e["id"]].get("init")
            if i is not None:
                ls = {x["v"] for x in walk(i) if x["k"] == "str"}
                if ls and not any(x["k"] == "ref" and "id" in x for x in walk(i)):
                    return ls
        return None


def check(prog, rep):
    rep.rule("path", "every file a request makes the server open is named by a fixed literal or by data that was there before the request", 1)
    rep.rule("shipped", "the literals of the comparison are plain names of files of the web interface", 3)
    rep.rule("refusal", "when the comparison fails the request is answered with an error and nothing else is done", 1)
    rep.rule("change", "no file is created, removed or renamed and no program started under a name from a request", 1)
    cg = CallGraph(prog)
    roots = [k for k in prog.all_keys() if not k.startswith("T:") and b"acceptClient" in prog.raw["F"][k] and prog.fn(k)["file"].startswith("src/") and
             any(n["k"] == "call" and short(n) == "acceptClient" for n in walk(prog.fn(k).get("body") or {"k": "nop"}))]
    if not roots:
        raise AnalysisError("anchor vanished: no function accepts clients")
    keys = [k for k in cg.reach(roots) if not k.startswith("T:")]
    P = Paths(prog, cg, set(keys))
    P.lists = []
    n_open = n_change = 0
    for k in sorted(keys):
        f = prog.fn(k)
        if not f.get("body") or not f["file"].startswith("src/"):
            continue
        for n in walk(f["body"]):
            if n["k"] == "ctor" and CTOR.match(n.get("t", "").replace("const ", "")) and n["a"] and not n.get("cm2"):
                kind = n["t"]
            elif n["k"] == "call" and (OPEN.match(n.get("fn", "")) or CHANGE.match(n.get("fn", ""))):
                kind = n["fn"]
            else:
                continue
            if not n["a"]:
                continue
            change = bool(CHANGE.match(n.get("fn", ""))) or "ofstream" in kind
            F = P.fn(k)
            arg = n["a"][0] if not kind.endswith("openat") else n["a"][1]
            w = P.why(F, arg)
            rep.inst("change" if change else "path", "%s: %s opens %s" % (loc(f, n), f["qn"], show(arg)[:50]))
            n_open += 1
            if w:
                rep.viol("change" if change else "path", "%s %s" % (f["qn"], short(n)), loc(f, n),
                         "%s passes %s to the file system; its name comes from %s (%s), which no comparison with fixed names limits" % (f["qn"], show(arg)[:40], w[1], w[0]))
    rep.inst("change", "%d functions reachable from a request, %d places that open or change files" % (len(keys), n_open))
    web = os.path.join(facts.REPO, "src", "web")
    names = set(os.listdir(web)) if os.path.isdir(web) else set()
    if not names:
        raise AnalysisError("anchor vanished: src/web is empty")
    done = set()
    for where, lits, F, node, vid in P.lists:
        for l in lits:
            if (where, l) in done:
                continue
            done.add((where, l))
            rep.inst("shipped", "%s: %s" % (where, l))
            if l not in names:
                rep.viol("shipped", l, where, "%r can be fetched, which is not a file of the web interface (%s)" % (l, ", ".join(sorted(names))))
        rep.part(refusal, prog, rep, P, F, node, vid)


def refusal(prog, rep, P, F, node, vid):
    """The other branch of the comparison answers with an error and leaves."""
    if node["k"] != "if":
        return
    rep.inst("refusal", "%s in %s" % (loc(F.f, node), F.f["qn"]))
    pos = P.oneof(F, node["c"], True, vid) is not None
    other = node.get("y") if pos else node["x"]
    rest = []
    if other is None:
        for p in F.ancestors(node):
            if p["k"] == "blk":
                i = next(j for j, s in enumerate(p["s"]) if s is node or F.inside(node, s))
                rest = p["s"][i + 1:]
                break
        other = {"k": "blk", "s": rest}
    def says_error(n, depth=0):
        for x in walk(n):
            if x["k"] == "str" and re.search(r"HTTP/1\.\d 4\d\d", x.get("v", "")):
                return True
            if x["k"] == "throw":
                return True
            if x["k"] == "call" and depth < 3:
                for t in prog.targets(x):
                    g = prog.fn(t)
                    if g.get("body") and g["file"].startswith("src/engine/Server") and says_error(g["body"], depth + 1):
                        return True
        return False
    sends = [n for n in walk(other) if n["k"] == "call" and short(n) == "send"]
    if not says_error(other) or not sends and not any(n["k"] == "throw" for n in walk(other)):
        rep.viol("refusal", F.f["qn"], loc(F.f, node), "%s does not answer a path that is not one of the fixed names with an error" % F.f["qn"])
    stop = [n for n in walk(other) if n["k"] in ("ret", "throw")]
    if not stop:
        rep.viol("refusal", F.f["qn"] + " goes on", loc(F.f, node), "%s goes on after a path that is not one of the fixed names" % F.f["qn"])


if __name__ == "__main__":
    run("C12", check, level="other",
        explanation="Backward tracking of the name of every file that code reachable from the accept loop opens or changes, to literals, start-up data or request data; request data must be limited by a comparison with fixed names that dominates the use.",
        assumptions=["the working directory of the server is the directory of the web files", "members of the server and of the index that requests do not write hold start-up data"])
