"""Write effects of functions on the objects they reach (summaries over the call graph, to a fixpoint).

A place is (root, path).  Roots: ("this",), ("p", i) parameter, ("l", id) local, ("g", name) program-wide variable,
("s", name) static local, ("t", T, via) some object of class T reached through the pointer or reference `via`,
("f",) an object created here.  Steps of a path: qualified field names, "*" (what a pointer points to), "[]"
(an element), "&" (address of).
"""
import re
from base import walk, strip, short, show, children

DEPTH = 6
ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=")
# Members of library classes that give access to parts of the object and change nothing by themselves.
PART = {"begin", "end", "rbegin", "rend", "find", "lower_bound", "upper_bound", "equal_range", "data", "c_str", "at", "front", "back", "top", "value", "cbegin", "cend"}
SAME = {"get", "lock", "release"}
MAPS = re.compile(r"hash_map|std::(unordered_)?map")
MUTATING = {"sort", "stable_sort", "copy", "copy_n", "copy_if", "copy_backward", "move_backward", "fill", "fill_n", "transform", "iter_swap", "unique", "remove", "remove_if", "rotate",
            "nth_element", "partial_sort", "shuffle", "random_shuffle", "reverse", "generate", "generate_n", "iota", "swap_ranges", "replace", "replace_if", "inplace_merge",
            "merge", "set_union", "set_intersection", "set_difference", "push_heap", "pop_heap", "make_heap", "sort_heap", "for_each"}
NO_EFFECT = {"fileno", "ftello", "ftell", "feof", "ferror", "strlen", "stat", "get", "const_pointer_cast", "static_pointer_cast", "dynamic_pointer_cast", "reinterpret_pointer_cast", "make_pair", "make_tuple", "tie", "forward", "move", "ref", "cref", "addressof", "to_string", "forward_as_tuple",
             "make_move_iterator", "back_inserter", "begin", "end", "visit", "holds_alternative", "get_if", "munmap", "distance", "advance", "next", "prev", "min", "max", "free", "fclose", "pclose", "getline"}
PTR = re.compile(r"^(const )?(std::)?(shared_ptr|unique_ptr|weak_ptr|__shared_ptr|reference_wrapper|optional)<")


def bare(t):
    """Class name of a type: without const, references, pointers."""
    t = (t or "").strip()
    while True:
        u = re.sub(r"^(const|volatile|class|struct)\s+", "", t)
        u = re.sub(r"\s*(\bconst\b|&&?|\*)$", "", u).strip()
        if u == t:
            return t
        t = u


def norm(t):
    return bare(t).replace(", ", ",")


def pointee(t):
    t = (t or "").strip()
    m = PTR.match(t)
    if m:
        d, out = 0, ""
        for c in t[m.end():]:
            if c in "<(":
                d += 1
            if c in ">)":
                d -= 1
                if d < 0:
                    break
            if c == "," and d == 0:
                break
            out += c
        return bare(out)
    return bare(t)


class Effects:
    def __init__(self, prog, cg, inside=lambda f: True):
        self.prog, self.cg, self.inside = prog, cg, inside
        self.eff = {}     # key -> {place: (where, text)}
        self.ret = {}     # key -> set of places
        self.reffields = {}
        self.owned = {}
        self.repo = set()
        for k, r in prog.records.items():
            self.repo.add(norm(k))
            for fl in r["fields"]:
                t = fl["t"].strip()
                self.reffields["%s::%s" % (k, fl["n"])] = t.endswith("&")
        self.F = {}

    def is_repo(self, t):
        return norm(t) in self.repo

    # -------------------------------------------------------------- fixpoint
    def analyse(self, roots):
        keys = list(self.cg.reach(roots))
        todo = [k for k in keys if k not in self.eff]
        for k in todo:
            self.eff[k], self.ret[k] = {}, set()
        callers = {}
        for k in todo:
            for _, t in self.cg.out(k):
                callers.setdefault(t, set()).add(k)
        work, pend = list(todo), set(todo)
        n = 0
        while work:
            k = work.pop()
            pend.discard(k)
            n += 1
            e, r = self.local(k)
            if set(e) - set(self.eff[k]) or r - self.ret[k]:
                for p, w in e.items():
                    self.eff[k].setdefault(p, w)
                self.ret[k] |= r
                for c in callers.get(k, ()):
                    if c not in pend:
                        pend.add(c)
                        work.append(c)
        self.rounds = n
        return keys

    # -------------------------------------------------------------- one function
    def local(self, k):
        f = self.prog.fn(k)
        A = self.F.get(k)
        if A is None:
            A = self.F[k] = Body(self, f)
        return A.run()


class Body:
    def __init__(self, E, f):
        self.E, self.f, self.prog = E, f, E.prog
        self.params = {p["id"]: (i, p) for i, p in enumerate(f.get("params", []))}
        self.vars, self.defs = {}, {}
        self.lparams = {}
        self.rng = {}
        self.nodes = []
        bodies = list(E.cg.bodies(f))
        for b in bodies:
            st = [b]
            while st:
                n = st.pop()
                if n["k"] == "log":
                    continue
                self.nodes.append(n)
                if n["k"] == "call" and n.get("fn") == "std::call_once":
                    continue          # happens once, under the synchronisation of the library
                if n["k"] == "var" and n.get("static"):
                    self.vars[n["id"]] = n
                    continue          # likewise the initialisation of a static variable
                if n["k"] == "var":
                    self.vars[n["id"]] = n
                    if n.get("init") is not None:
                        self.defs.setdefault(n["id"], []).append(n["init"])
                elif n["k"] == "rfor":
                    v = n["var"]
                    self.vars[v["id"]] = v
                    self.rng[v["id"]] = n["range"]
                elif n["k"] == "lambda":
                    for p in n.get("params", []):
                        if "id" in p:
                            self.lparams[p["id"]] = p
                    for c in n.get("caps", []):
                        if isinstance(c, dict) and c.get("init") is not None and "id" in c:
                            self.vars[c["id"]] = c
                            self.defs.setdefault(c["id"], []).append(c["init"])
                st.extend(reversed(list(children(n))))
        for n in self.nodes:
            if n["k"] == "bin" and n["op"] == "=":
                x, y = strip(n["x"]), n["y"]
            elif n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
                x, y = strip(n["a"][0]), n["a"][1]
            else:
                continue
            if x["k"] == "ref" and "id" in x:
                self.defs.setdefault(x["id"], []).append(y)
        self.nodes = [n for n in self.nodes if not (n["k"] == "call" and n.get("fn") == "std::call_once")]
        self.memo = {}
        rt = f.get("rt", "")
        # a result by value shares something with its source only if it can hold pointers
        self.shares = rt.rstrip().endswith(("&", "*")) or bool(PTR.match(rt)) and "optional<" not in rt or "iterator" in rt or "Ptr" in rt or E.is_repo(rt) or rt.startswith("std::pair") or "auto" in rt

    # -- places
    def reroot(self, ps, t, via=None):
        """What the pointers at places ps point to; t: type of the pointer or pointee."""
        out = set()
        for root, path in ps:
            if path and path[-1] == "&":
                out.add((root, path[:-1]))
                continue
            if root == ("f",) and not path:
                out.add(((("f",)), ()))
                continue
            if root[0] == "l" and not path:
                d = self.defs.get(root[1])
                if d is None:
                    if root[1] in self.rng:
                        out |= self.reroot(self.step(self.places(self.rng[root[1]]), "[]"), t)
                    else:
                        out.add((("t", norm(pointee(t)), "?"), ()))
                    continue
                if root in self.busy:
                    continue
                self.busy.add(root)
                for e in d:
                    out |= self.reroot(self.places(e), t)
                self.busy.discard(root)
                continue
            if root[0] == "l":
                d = self.defs.get(root[1], [])
                src = set()
                if root not in self.busy:
                    self.busy.add(root)
                    for e in d:
                        x = strip(e)
                        for p in self.copied(x):
                            src.add((p[0], (p[1] + path)[:DEPTH]))
                    self.busy.discard(root)
                if src:
                    out |= self.reroot(src, t)
                    continue
                v = self.vars.get(root[1])
                if self.E.is_repo(pointee(t)) or True:
                    out.add((("t", norm(pointee(t)), "local:" + path[-1]), ()))
                continue
            if root[0] == "p" and not path:
                out.add((root, ("*",)))
                continue
            if self.E.is_repo(pointee(t)):
                out.add((("t", norm(pointee(t)), path[-1] if path else root[-1] if root[0] == "t" else str(root[0])), ()))
            else:
                out.add((root, (path + ("*",))[:DEPTH]))
        return out

    def copied(self, e):
        """Places an initialiser copies its value from (empty: created here)."""
        e = strip(e)
        if e["k"] == "ctor":
            if len(e["a"]) == 1 and norm(e["a"][0].get("t", "")) == norm(e.get("t", "")):
                return self.places(e["a"][0])
            return set()
        if e["k"] in ("ref", "mem", "sub", "un", "cond"):
            return {p for p in self.places(e) if p[0] != ("f",)}
        if e["k"] == "call":
            return {p for p in self.places(e) if p[0] != ("f",)}
        return set()

    def step(self, ps, s):
        return {(r, (p if s == "[]" and p and p[-1] == "[]" else p + (s,))[:DEPTH]) for r, p in ps}

    def places(self, e):
        """Where the object (or pointer value) an expression denotes lives."""
        if e is None:
            return set()
        k = e["k"]
        m = self.memo.get(id(e))
        if m is not None:
            return m
        r = self.places_(e, k)
        return r

    def places_(self, e, k):
        if k in ("cast", "defarg"):
            return self.places(e["e"]) if e.get("e") else set()
        if k == "this":
            return {(("this",), ("&",))}
        if k == "ref":
            if e.get("dk") == "fn" or e.get("dk") == "enum":
                return set()
            if "g" in e and "id" not in e:
                return {(("g", e["g"]), ())}
            i = e.get("id")
            if i in self.params:
                return {(("p", self.params[i][0]), ())}
            if i in self.lparams:
                t = self.lparams[i].get("t", "")
                return {(("t", norm(pointee(t)), "?"), ())} if t.endswith(("&", "*")) else {(("l", i), ())}
            v = self.vars.get(i)
            if v is None:
                return {(("t", norm(e.get("t", "")), "?"), ())} if e.get("dk") == "bind" else {(("l", i), ())}
            if v.get("static"):
                return {(("s", "%s::%s" % (self.f["qn"], v["n"])), ())}
            t = v.get("t", "")
            if t.endswith("&"):
                if ("r", i) in self.busy:
                    return set()
                self.busy.add(("r", i))
                out = set()
                if i in self.rng:
                    out = self.step(self.places(self.rng[i]), "[]")
                else:
                    out = self.places(v["init"]) if v.get("init") else set()
                self.busy.discard(("r", i))
                return out
            return {(("l", i), ())}
        if k == "mem":
            if not e.get("b"):
                return {(("this",), (e.get("f") or e["n"],))}
            b = e["b"]
            ps = self.places(b)
            if e.get("arrow"):
                ps = self.deref(ps, strip(b).get("t", "") if b["k"] != "this" else "")
            f = e.get("f") or e["n"]
            ps = self.step(ps, f)
            if self.E.reffields.get(f):
                ps = self.reroot(ps, e.get("t", ""))
            return ps
        if k == "un":
            if e["op"] == "*":
                return self.deref(self.places(e["x"]), e["x"].get("t", "") or e.get("t", ""))
            if e["op"] == "&":
                return self.step(self.places(e["x"]), "&")
            if e["op"].lstrip("p") in ("++", "--"):
                return self.places(e["x"])
            return set()
        if k == "sub":
            b = self.places(e["b"])
            bt = strip(e["b"]).get("t", "")
            if bt.rstrip().endswith("*"):
                return self.deref(b, bt)
            return self.step(b, "[]")
        if k == "cond":
            return self.places(e["x"]) | self.places(e["y"])
        if k == "bin":
            if e["op"] in ASSIGN:
                return self.places(e["x"])
            if e["op"] in ("+", "-"):
                return {p for p in self.places(e["x"]) if strip(e["x"]).get("t", "").endswith("*") or p[1][-1:] == ("&",)}
            if e["op"] == ",":
                return self.places(e["y"])
            return set()
        if k == "call":
            return self.call_places(e)
        if k == "ctor":
            if e.get("cm2") and len(e["a"]) == 1 or PTR.match(e.get("t", "")) and len(e["a"]) == 1:
                return self.places(e["a"][0])
            return {(("f",), ())}
        if k == "list" and len(e["a"]) == 1:
            return self.places(e["a"][0])
        if k == "new":
            return {(("f",), ("&",))}
        return {(("f",), ())}

    def deref(self, ps, t):
        return self.reroot(ps, t)

    def call_places(self, e):
        fn, nm, op = e.get("fn", ""), short(e), e.get("op")
        if nm in ("const_pointer_cast", "static_pointer_cast", "dynamic_pointer_cast", "reinterpret_pointer_cast") and e["a"]:
            return self.places(e["a"][0])
        if fn in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof"):
            ps = self.places(e["a"][0])
            return self.step(ps, "&") if nm == "addressof" else ps
        tg = self.prog.targets(e)
        if tg:
            out = set()
            for t in tg:
                for p in self.E.ret.get(t, ()):
                    out |= self.subst(p, e, t)
            if not out:
                out = {(("f",), ())}
            return out
        if fn.startswith(("std::make_shared", "std::make_unique", "std::allocate_shared")):
            return {(("f",), ("&",))}
        obj = e.get("o") if e.get("o") is not None else (e["a"][0] if op and e["a"] else None)
        if op in ("->", "*") and obj is not None:
            ps = self.places(obj)
            t = e.get("t", "")
            if "optional" in fn or "iterator" in fn and False:
                return self.step(ps, "&") if op == "->" else ps
            r = self.deref(ps, t)
            return self.step(r, "&") if op == "->" else r
        if op == "[]" and obj is not None:
            return self.step(self.places(obj), "[]")
        if op in ("=", "+=", "-=", "++", "--", "<<", ">>") and obj is not None:
            return self.places(obj)
        if op in ("+", "-") and obj is not None and "iterator" in (e.get("t", "") + fn):
            return self.places(obj)
        if e.get("o") is not None and nm in SAME:
            return self.places(e["o"])
        if e.get("o") is not None and nm in PART:
            ps = self.step(self.places(e["o"]), "[]")
            return self.step(ps, "&") if nm not in ("at", "front", "back", "top", "value") else ps
        if fn in ("std::get", "std::get_if", "std::visit") and e["a"]:
            return self.places(e["a"][-1 if fn == "std::visit" else 0])
        if fn in ("std::begin", "std::end", "std::next", "std::prev", "std::lower_bound", "std::upper_bound", "std::find", "std::find_if") and e["a"]:
            return self.places(e["a"][0])
        if e.get("o") is not None and e.get("t", "").endswith(("*", "&")):
            return self.step(self.step(self.places(e["o"]), "[]"), "&")
        return {(("f",), ())}

    def subst(self, place, e, key):
        """A place of callee `key` seen from call e."""
        root, path = place
        if root[0] in ("g", "s", "t"):
            return {place}
        if root == ("f",):
            return {place}
        if root[0] == "l":
            return {(("f",), ())}
        args = e["a"]
        mo = e.get("mo")
        if root == ("this",):
            if e["k"] in ("ctor", "new"):
                return {(("f",), path)}
            if mo:
                base, arrow = args[0], False
            else:
                base, arrow = e.get("o"), e.get("arrow")
            if base is None:
                return {(("this",), path)} if not e.get("sm") else set()
            ps = self.places(base)
            if arrow:
                ps = self.deref(ps, strip(base).get("t", "") if base["k"] != "this" else "")
            return self.extend(ps, path, e)
        i = root[1] + (1 if mo else 0)
        if i >= len(args):
            return set()
        return self.extend(self.places(args[i]), path, args[i])

    def extend(self, ps, path, e):
        for i, s in enumerate(path):
            if s == "*" and i == 0:
                ps = self.deref(ps, strip(e).get("t", ""))
            elif s == "*":
                ps = {(r, p[:-1]) if p and p[-1] == "&" else (r, (p + ("*",))[:DEPTH]) for r, p in ps}
            elif s == "&":
                ps = self.step(ps, "&")
            else:
                ps = {(r, p[:-1]) if p and p[-1] == "&" and s == "[]" else (r, (p + (s,))[:DEPTH]) for r, p in ps}
                if self.E.reffields.get(s):
                    ps = self.reroot(ps, "")
        return ps

    # -- effects
    def run(self):
        self.busy = set()
        eff, ret = {}, set()
        f = self.f

        def write(ps, n, what=None):
            for r, p in ps:
                if r[0] in ("l", "f"):
                    continue
                if r[0] == "p" and not p:
                    t = f["params"][r[1]]["t"]
                    if not t.rstrip().endswith("&"):
                        continue      # the copy of the caller's value
                while p and p[-1] == "&":
                    p = p[:-1]
                eff.setdefault((r, p), ("%s:%d" % (f["file"], n.get("l", f["l"])), what or show(n)))
        for n in self.nodes:
            k = n["k"]
            if k == "bin" and n["op"] in ASSIGN:
                write(self.places(n["x"]), n)
            elif k == "un" and n["op"].lstrip("p") in ("++", "--"):
                write(self.places(n["x"]), n)
            elif k == "ret" and n.get("e") is not None and not self.in_lambda(n) and self.shares:
                for p in self.places(n["e"]):
                    if p[0][0] == "l":
                        # what a local pointer or a local object with pointers leads to
                        d = self.defs.get(p[0][1], [])
                        if not p[1]:
                            for x in d:
                                for q in self.places(x):
                                    if q[0][0] != "l":
                                        ret.add(q)
                        continue
                    ret.add(p)
            elif k in ("call", "ctor"):
                tg = self.prog.targets(n)
                if tg:
                    for t in tg:
                        for p, (w, txt) in list(self.E.eff.get(t, {}).items()):
                            for r, q in self.subst(p, n, t):
                                if r[0] in ("l", "f"):
                                    continue
                                if r[0] == "p" and not q and not f["params"][r[1]]["t"].rstrip().endswith("&"):
                                    continue
                                while q and q[-1] == "&":
                                    q = q[:-1]
                                eff.setdefault((r, q), (w, txt))
                    continue
                fn, nm, op = n.get("fn", ""), short(n), n.get("op")
                if k == "ctor":
                    continue
                if fn == "std::move" and len(n["a"]) == 1:
                    x = n["a"][0]
                    t = strip(x).get("t", "")
                    if not t.startswith("const ") and not (strip(x)["k"] == "ref" and t.rstrip().endswith("&&")):
                        write(self.places(x), n, "move(%s)" % show(x))
                    continue
                if not fn:
                    continue
                pk = n.get("pk", "")
                args = n["a"]
                if n.get("mo") or n.get("o") is not None:
                    obj = args[0] if n.get("mo") else n["o"]
                    rest = args[1:] if n.get("mo") else args
                    if not n.get("cm") and not n.get("sm") and obj is not None:
                        quiet = op in ("*", "->") or op == "[]" and not MAPS.search(fn) or op == "()" or not op and nm in PART | SAME - {"release"}
                        if not quiet:
                            ps = self.places(obj)
                            if n.get("arrow"):
                                ps = self.deref(ps, strip(obj).get("t", ""))
                            write(ps, n)
                else:
                    rest = args
                if nm in ("make_shared", "make_unique", "allocate_shared", "emplace", "emplace_back", "emplace_front"):
                    continue
                if nm in NO_EFFECT and (fn.startswith("std::") or "::" not in fn.lstrip(":")):
                    continue
                if fn.startswith("std::") and nm in ("swap", "exchange"):
                    for a in rest:
                        write(self.places(a), n)
                    continue
                for i, a in enumerate(rest):
                    c = pk[i] if i < len(pk) else ""
                    if c == "r":
                        write(self.places(a), n)
                    elif c == "p":
                        write(self.deref(self.places(a), strip(a).get("t", "")), n)
                    elif c == "v" and fn.startswith("std::") and nm in MUTATING:
                        write(self.deref(self.places(a), ""), n)
        return eff, ret

    def in_lambda(self, n):
        if not hasattr(self, "lam"):
            self.lam = set()
            for m in self.nodes:
                if m["k"] == "lambda" and m.get("body"):
                    for x in walk(m["body"]):
                        if x["k"] == "ret":
                            self.lam.add(id(x))
        return id(n) in self.lam


def text(place):
    root, path = place
    head = {"this": "this", "p": "parameter", "g": "", "s": "", "t": ""}.get(root[0], root[0])
    if root[0] in ("g", "s"):
        head = root[1]
    elif root[0] == "t":
        head = root[1].split("<")[0]
    elif root[0] == "p":
        head = "parameter %d" % root[1]
    out = head
    for s in path:
        if s in ("*", "[]", "&"):
            out += {"*": "->", "[]": "[]", "&": ""}[s]
        else:
            out += "." + s.rsplit("::", 1)[-1]
    return out
