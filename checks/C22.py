"""C22: a failing or finished query releases everything it acquired."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from cfg import Graph, Sim, path_text
from cg import CallGraph
from place import Fn

# what acquires -> what releases it
PAIRS = {"fopen": ("fclose",), "fdopen": ("fclose",), "popen": ("pclose",), "open": ("close",), "creat": ("close",), "socket": ("close",), "accept": ("close",), "dup": ("close",), "mmap": ("munmap",),
         "malloc": ("free",), "calloc": ("free",), "realloc": ("free",), "strdup": ("free",), "opendir": ("closedir",), "getaddrinfo": ("freeaddrinfo",), "mmap64": ("munmap",), "open64": ("close",)}
RELEASES = {r for v in PAIRS.values() for r in v}
LOCK = {"lock": "unlock", "lock_shared": "unlock_shared"}
WHAT = {"new": "memory", "new[]": "memory", "fopen": "a file handle", "fdopen": "a file handle", "popen": "a pipe", "open": "a file descriptor", "creat": "a file descriptor", "socket": "a socket", "accept": "a connection",
        "dup": "a file descriptor", "mmap": "a mapping", "malloc": "memory", "calloc": "memory", "realloc": "memory", "strdup": "memory", "opendir": "a directory handle", "getaddrinfo": "an address list", "mmap64": "a mapping",
        "open64": "a file descriptor", "lock": "a lock", "lock_shared": "a lock"}
OWNER = re.compile(r"(unique_ptr|shared_ptr|auto_ptr|scoped_ptr|intrusive_ptr)\b")


def libc(n):
    """name of the C library function a call runs"""
    if n["k"] != "call" or n.get("o") is not None:
        return None
    f = n.get("fn") or ""
    return f[2:] if f.startswith("::") else f if "::" not in f else None


def mutex(n):
    if n["k"] == "call" and n.get("o") is not None and short(n) in ("lock", "unlock", "lock_shared", "unlock_shared") and not n.get("a"):
        t = (strip(n["o"]).get("t") or "") + " " + (n.get("fn") or "")
        if re.search(r"mutex", t) and not re.search(r"unique_lock|shared_lock<|lock_guard", t):
            return short(n)
    return None


def base_types(t):
    return re.sub(r"^const |[ *&]+$", "", t or "")


def source_fns(prog):
    seen = set()
    for f in prog.all_fns():
        if f["file"].startswith("src/") and f.get("body") and (f["file"], f["l"], f["n"]) not in seen:
            seen.add((f["file"], f["l"], f["n"]))
            yield f


def acquired(n):
    """(kind, is array) if n acquires something"""
    if n["k"] == "new" and not n.get("pl"):
        return "new[]" if n.get("arr") else "new"
    c = libc(n)
    if c in PAIRS and c != "getaddrinfo":
        return c
    return None


def place(e):
    """key of a place: ('v', id) variable, ('m', field) member of this, ('f', field) member of something else"""
    e = strip(e)
    while e is not None and e["k"] == "un" and e["op"] in ("*", "&"):
        e = strip(e["x"])
    if e is None:
        return None
    if e["k"] == "ref" and e.get("id") is not None:
        return ("v", e["id"])
    if e["k"] == "mem":
        b = strip(e["b"]) if e.get("b") is not None else None
        if b is None or b["k"] == "this":
            return ("m", e["n"])
        return ("f", e["n"])
    return None


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.cg = CallGraph(prog)
        roots = [f["key"] for f in prog.fns("Server::process")]
        if not roots:
            roots = [f["key"] for f in prog.all_fns() if f["file"].endswith("engine/Server.cpp") and f["n"] == "runAcceptLoop"]
        if not roots:
            raise AnalysisError("the function that handles a request was not found")
        self.query = set(self.cg.reach(roots))
        self.own = self.owners()
        self.sharing = set()

    # ------------------------------------------------------------ sites
    def sites(self, f):
        """[(node, kind, place, statement)] acquisitions in f whose result is kept in a place"""
        F = Fn(self.prog, f)
        out = []
        for n in walk(f["body"]):
            k = acquired(n)
            if k is None:
                if libc(n) == "getaddrinfo" and len(n["a"]) == 4:
                    p = place(n["a"][3])
                    if p:
                        out.append((n, "getaddrinfo", p, n))
                m = mutex(n)
                if m in LOCK:
                    out.append((n, m, ("l", show(strip(n["o"]))), n))
                continue
            p, holder, c = None, None, n
            for a in F.ancestors(n):
                if a["k"] == "var":
                    if not OWNER.search(a.get("t") or ""):
                        p, holder = ("v", a["id"]), a
                    break
                if a["k"] == "bin":
                    if a["op"] == "=" and self.inside(a["y"], n):
                        p, holder = place(a["x"]), a
                    break
                if a["k"] in ("cast", "cond", "list", "defarg"):
                    continue
                if a["k"] == "ctor" and OWNER.search(a.get("t") or ""):
                    break
                if a["k"] in ("call", "ctor", "ret", "if", "blk", "mem"):
                    break
            out.append((n, k, p, holder or n))
        return out

    def inside(self, e, n):
        return any(x is n for x in walk(e))

    # ------------------------------------------------------------ local resources
    def check_locals(self):
        for f in source_fns(self.prog):
            if f["n"].startswith("~"):
                continue
            S = self.sites(f)
            ctor = f.get("cls") and f["n"] == f["cls"].split("<")[0].split("::")[-1]
            for n, kind, p, holder in S:
                if p is None or p[0] == "m":
                    continue
                if kind in LOCK and ctor:
                    continue            # a guard: released by its destructor
                if p[0] == "v" and self.is_reference(f, p[1]):
                    continue
                if p[0] == "f" and self.owned(f, p[1]):
                    continue            # kept by another object of a class that owns such resources
                self.local(f, n, kind, p, holder)

    def owned(self, f, field):
        return any(field in x for c, x in self.own.items() if c == f.get("cls"))

    def is_reference(self, f, vid):
        for q in f["params"]:
            if q.get("id") == vid:
                return "&" in (q.get("t") or "") or (q.get("t") or "").count("*") > 1
        return False

    def local(self, f, n, kind, p, holder):
        prog, rep = self.prog, self.rep
        on_query = f["key"] in self.query
        name = p[1] if p[0] in ("f", "l") else next((x["n"] for x in walk(f["body"]) if x["k"] in ("var", "ref") and x.get("id") == p[1]), "?")
        rep.inst("released", "%s: %s in %s%s" % (loc(f, n), WHAT[kind], name, " (request)" if on_query else ""))
        rel = self.releases(f, p, kind)
        moved = self.handed(f, p, n)
        loops = {}
        for x in walk(f["body"]):
            if x["k"] in ("for", "rfor", "while") and p[0] == "f":
                if any(id(y) in rel for y in walk(x)):
                    for y in walk(x):
                        loops[id(y)] = x
        wrong = [x for x in rel.values() if self.form(kind, x) is not None]
        for x in wrong:
            rep.viol("released", "form:%s:%s" % (f["qn"], name), loc(f, x), self.form(kind, x))
        g = Graph(prog, f, inline=lambda h, c, fr: False, asserts=on_query)
        acq = {id(n)}
        if holder is not n:
            acq = {id(holder), id(n)}
        errs = []

        def step(node, s):
            x = node.n
            if x is None:
                return [s]
            i = id(x)
            if i == id(n):
                if s == "held":
                    errs.append(("again", node, s))
                return ["held"]
            if i in rel or (i in loops and s == "held"):
                if s == "released" and i in rel and i not in loops:
                    errs.append(("twice", node, s))
                return ["released"]
            if i in moved and s == "held":
                return ["handed"]
            return [s]

        def throws(node):
            if node.n is None:
                return False
            x = node.n
            if x["k"] == "throw":
                return True
            if x is n:
                return False
            return on_query and bool(self.cg.node_escapes(x, f))

        def xstep(node, s):
            # an exception leaves before the effect of the node
            return [s]

        def refine(node, lab, s):
            # the branch on which nothing was acquired
            if s == "held" and node.n is not None:
                v = self.nulltest(node.n, p)
                if v is not None and lab is not None and bool(lab) == v:
                    return "none"
            return s
        sim = Sim(g, "none", step, xstep, throws, refine=refine)
        done = set()
        for what, node, s in errs:
            if what in done:
                continue
            done.add(what)
            if what == "twice":
                rep.viol("released", "twice:%s:%s" % (f["qn"], name), loc(f, node.n), "%s held in %s may already be released here" % (WHAT[kind], name))
            else:
                rep.viol("released", "again:%s:%s" % (f["qn"], name), loc(f, node.n), "%s held in %s is acquired again before it is released" % (WHAT[kind], name))
        for node in g.nodes:
            if node.kind == "exit" and "held" in sim.states(node):
                rep.viol("released", "end:%s:%s" % (f["qn"], name), loc(f, n), "%s acquired here in %s is not released on a path to the end of %s: %s" % (WHAT[kind], name, f["qn"], path_text(sim.witness(node, "held"))))
                break
        if on_query:
            for node in g.nodes:
                if node.kind == "xexit" and "held" in sim.states(node):
                    rep.viol("released", "error:%s:%s" % (f["qn"], name), loc(f, n), "%s acquired here in %s is not released when an error leaves %s: %s" % (WHAT[kind], name, f["qn"], path_text(sim.witness(node, "held"))))
                    break

    def nulltest(self, c, p):
        """truth value of the condition c for which the place holds nothing"""
        c = strip(c)
        if c["k"] == "bin" and c["op"] in ("==", "!=", "<", ">=", ">"):
            for a, b in ((c["x"], c["y"]), (c["y"], c["x"])):
                if place(a) == p and strip(b)["k"] in ("int", "null", "un", "cast", "ref"):
                    bt = show(strip(b))
                    if c["op"] in ("==", "!=") and bt in ("0", "nullptr", "NULL", "-1", "MAP_FAILED", "(void *)-1"):
                        return c["op"] == "=="
                    if c["op"] == "<" and a is c["x"] and bt == "0":
                        return True
                    if c["op"] == ">=" and a is c["x"] and bt == "0":
                        return False
        elif place(c) == p and p[0] != "l":
            return False
        return None

    def releases(self, f, p, kind):
        out = {}
        for x in walk(f["body"]):
            if x["k"] == "delete" and kind in ("new", "new[]"):
                q = place(x["e"])
                if q == p or (p[0] == "f" and q and q[1] == p[1]):
                    out[id(x)] = x
            elif x["k"] == "call":
                c = libc(x)
                if c in RELEASES and x["a"] and kind not in ("new", "new[]") and kind in PAIRS and c in PAIRS[kind] and place(x["a"][0]) == p:
                    out[id(x)] = x
                if c == "free" and kind in ("new", "new[]") and x["a"] and place(x["a"][0]) == p:
                    out[id(x)] = x
                m = mutex(x)
                if m and kind in LOCK and m == LOCK[kind] and p == ("l", show(strip(x["o"]))):
                    out[id(x)] = x
        return out

    def form(self, kind, x):
        if x["k"] == "delete":
            if kind == "new[]" and not x.get("arr"):
                return "an array is released with delete instead of delete[]"
            if kind == "new" and x.get("arr"):
                return "a single object is released with delete[]"
        elif kind in ("new", "new[]"):
            return "memory obtained with new is released with free()"
        return None

    def handed(self, f, p, acq):
        """nodes at which the responsibility is passed on"""
        out = {}
        F = Fn(self.prog, f)
        for x in walk(f["body"]):
            if x["k"] == "ret" and x.get("e") is not None and place(x["e"]) == p:
                out[id(x)] = x
            elif x["k"] == "bin" and x["op"] == "=" and place(x["y"]) == p and place(x["x"]) != p:
                out[id(x)] = x
            elif x["k"] == "var" and x.get("init") is not None and place(x["init"]) == p and OWNER.search(x.get("t") or ""):
                out[id(x)] = x
            elif x["k"] == "ctor" and OWNER.search(x.get("t") or "") and any(place(a) == p for a in x["a"]):
                out[id(x)] = x
            elif x["k"] == "call" and any(strip(a)["k"] != "un" and place(a) == p for a in x.get("a") or []):
                nm = short(x)
                if x.get("o") is not None and nm in ("reset", "push_back", "emplace_back", "insert", "emplace", "set", "add", "attach"):
                    out[id(x)] = x
                elif nm in ("swap", "exchange", "fdopen"):
                    out[id(x)] = x
                else:
                    # a function of the repository that stores or releases its parameter
                    for k in self.prog.targets(x):
                        h = self.prog.fn(k)
                        i = next((i for i, a in enumerate(x["a"]) if place(a) == p), None)
                        if h and h.get("body") and i is not None and i < len(h["params"]) and h["params"][i].get("id") is not None and self.takes(h, h["params"][i]["id"]):
                            out[id(x)] = x
        return out

    def takes(self, h, vid):
        for x in walk(h["body"]):
            if x["k"] == "delete" and place(x["e"]) == ("v", vid):
                return True
            if x["k"] == "bin" and x["op"] == "=" and place(x["y"]) == ("v", vid):
                return True
            if x["k"] == "call" and libc(x) in RELEASES and x["a"] and place(x["a"][0]) == ("v", vid):
                return True
        return any(i.get("e") is not None and place(i["e"]) == ("v", vid) for i in h.get("inits") or [] if isinstance(i, dict))

    # ------------------------------------------------------------ owners
    def owners(self):
        """{class: {field: (kind, function, node)}} fields that hold what the class acquired"""
        own = {}
        for f in self.prog.all_fns():
            if not f["file"].startswith("src/") or not f.get("cls") or not f.get("body"):
                continue
            for n, kind, p, holder in self.sites(f):
                if p and p[0] == "v":
                    # a local variable whose value a member takes over
                    for x in walk(f["body"]):
                        if x["k"] == "bin" and x["op"] == "=" and place(x["y"]) == p and (place(x["x"]) or " ")[0] == "m" and self.pointer(f["cls"], place(x["x"])[1], kind):
                            own.setdefault(f["cls"], {}).setdefault(place(x["x"])[1], (kind, f, n))
                if p and p[0] == "m":
                    own.setdefault(f["cls"], {}).setdefault(p[1], (kind, f, n))
                elif kind in LOCK and f["n"] == f["cls"].split("<")[0].split("::")[-1]:
                    own.setdefault(f["cls"], {}).setdefault(p[1], (kind, f, n))
            for i in f.get("inits") or []:
                if i.get("e") is not None and i.get("f"):
                    for x in walk(i["e"]):
                        k = acquired(x)
                        if k and not OWNER.search(self.field_type(f["cls"], i["f"])):
                            own.setdefault(f["cls"], {}).setdefault(i["f"], (k, f, x))
        return own

    def field_type(self, cls, field):
        r = self.prog.record(cls)
        for x in (r or {}).get("fields") or []:
            if x["n"] == field:
                return x.get("t") or ""
        return ""

    def pointer(self, cls, field, kind):
        t = self.field_type(cls, field)
        return "*" in t if kind not in ("open", "socket", "accept", "dup", "creat") else True

    def closure(self, cls, f, depth=0, seen=None):
        """f and the methods of the same class it calls on itself"""
        seen = seen if seen is not None else {}
        if f is None or f["key"] in seen or depth > 5:
            return seen
        seen[f["key"]] = f
        for x in walk(f["body"]):
            if x["k"] == "call":
                for k in self.prog.targets(x):
                    h = self.prog.fn(k)
                    if h and h.get("body") and h.get("cls") and (h["cls"] == cls or h["file"] == f["file"]) and (x.get("o") is None or strip(x["o"])["k"] == "this"):
                        self.closure(cls, h, depth + 1, seen)
        return seen

    def freed(self, f, field, kind, alias=True):
        held = {("m", field)}
        if alias:
            # locals and temporaries that took the value of the field
            for x in walk(f["body"]):
                if x["k"] == "var" and x.get("init") is not None:
                    i = strip(x["init"])
                    if i["k"] == "call" and short(i) == "exchange" and i["a"]:
                        i = strip(i["a"][0])
                    if place(i) in held and not (i["k"] == "un" and i["op"] == "*"):
                        held.add(("v", x["id"]))
        for x in walk(f["body"]):
            if x["k"] == "delete" and kind in ("new", "new[]") and place(x["e"]) in held:
                yield x
            elif x["k"] == "call":
                c = libc(x)
                if kind in PAIRS and c in PAIRS[kind] and x["a"] and place(x["a"][0]) in held:
                    yield x
                m = mutex(x)
                if kind in LOCK and m == LOCK[kind] and show(strip(x["o"])) == field:
                    yield x

    def check_owners(self):
        rep, prog = self.rep, self.prog
        own = self.own
        done = set()
        for cls in sorted(own):
            dtors = [f for f in prog.all_fns() if f.get("cls") == cls and f["n"].startswith("~") and f.get("body")]
            for field, (kind, f, n) in sorted(own[cls].items()):
                base = cls.split("<")[0]
                rep.inst("owner", "%s: %s of %s holds %s" % (loc(f, n), field, cls[:60], WHAT[kind]))
                rel = []
                for d in dtors:
                    for h in self.closure(cls, d).values():
                        rel += [(h, x) for x in self.freed(h, field, kind)]
                if not rel:
                    # released explicitly by the users of the class (checked by C03 for connections)
                    exp = [(h, x) for h in prog.all_fns() if h.get("cls") == cls and h.get("body") and not h["n"].startswith("~") for x in self.freed(h, field, kind)]
                    if exp and kind in ("socket", "accept", "open"):
                        continue
                    if (base, field) not in done:
                        rep.viol("owner", "dtor:%s:%s" % (base, field), loc(f, n), "%s acquired here is held in %s, but the destructor of %s does not release it" % (WHAT[kind], field, base))
                    done.add((base, field))
                    continue
                for h, x in rel:
                    m = self.form(kind, x)
                    if m and (base, field, "form") not in done:
                        done.add((base, field, "form"))
                        rep.viol("owner", "form:%s:%s" % (base, field), loc(h, x), m)
                self.reset(cls, field, kind, done)
                self.moves(cls, field, kind, done)

    def reset(self, cls, field, kind, done):
        """after an early release the field is changed, so that the destructor does not release it again"""
        rep, prog = self.rep, self.prog
        if kind in LOCK:
            return
        for f in prog.all_fns():
            if f.get("cls") != cls or not f.get("body") or f["n"].startswith("~"):
                continue
            fr = {id(x): x for x in self.freed(f, field, kind, alias=False)}
            if not fr:
                continue
            k = (f["file"], f["l"], field)
            if k in done:
                continue
            done.add(k)
            rep.inst("once", "%s: %s releases %s early" % (loc(f, next(iter(fr.values()))), f["n"], field))
            g = Graph(prog, f, inline=lambda h, c, fr: False)

            def step(node, s):
                x = node.n
                if x is None:
                    return [s]
                if id(x) in fr:
                    return ["gone"]
                if x["k"] == "bin" and x["op"] == "=" and place(x["x"]) == ("m", field):
                    return ["ok"]
                if x["k"] == "call" and short(x) in ("exchange", "swap") and any(place(a) == ("m", field) for a in x["a"]):
                    return ["ok"]
                return [s]
            sim = Sim(g, "ok", step, None, lambda node: node.n is not None and node.n["k"] == "throw")
            for node in g.nodes:
                if node.kind in ("exit", "xexit") and "gone" in sim.states(node):
                    rep.viol("once", "reset:%s:%s" % (f["qn"], field), loc(f, next(iter(fr.values()))), "%s is released here but still held by the object, whose destructor releases it again" % field)
                    break
            # assignment: the old content is released before the new one is taken
        for f in prog.all_fns():
            if f.get("cls") != cls or not f.get("body") or f["n"] != "operator=" or self.shares(f, field):
                continue
            k = (f["file"], f["l"], field, "=")
            if k in done:
                continue
            done.add(k)
            fr = {id(x) for h in self.closure(cls, f).values() for x in self.freed(h, field, kind)}
            takes = [x for x in walk(f["body"]) if x["k"] == "bin" and x["op"] == "=" and place(x["x"]) == ("m", field) and strip(x["y"])["k"] not in ("null", "int")]
            if not takes:
                continue
            rep.inst("once", "%s: %s replaces %s" % (loc(f, takes[0]), f["n"], field))
            calls = {id(x) for x in walk(f["body"]) if x["k"] == "call" and any(k2 in {kk for kk in self.closure(cls, f) if any(True for _ in self.freed(prog.fn(kk), field, kind))} for k2 in prog.targets(x))}
            # methods that release through further methods
            for x in walk(f["body"]):
                if x["k"] == "call":
                    for k2 in prog.targets(x):
                        h = prog.fn(k2)
                        if h and h.get("cls") == cls and any(True for hh in self.closure(cls, h).values() for _ in self.freed(hh, field, kind)):
                            calls.add(id(x))
            g = Graph(prog, f, inline=lambda h, c, fr: False)
            bad = []

            def step2(node, s):
                x = node.n
                if x is None:
                    return [s]
                if id(x) in fr or id(x) in calls:
                    return ["free"]
                if any(x is t for t in takes):
                    if s == "old":
                        bad.append(node)
                    return ["new"]
                if x["k"] == "bin" and x["op"] == "=" and place(x["x"]) == ("m", field):
                    return ["free"]
                if x["k"] == "call" and short(x) in ("swap", "exchange") and any(place(a) == ("m", field) for a in x["a"]):
                    return ["free"]
                return [s]
            Sim(g, "old", step2, None, lambda node: False)
            if bad:
                rep.viol("once", "lost:%s:%s" % (f["qn"], field), loc(f, bad[0].n), "what %s holds is overwritten without being released" % field)

    def shares(self, f, field):
        """a copy operation that copies the field: harmless as long as nobody uses it (rule copy)"""
        if len(f["params"]) != 1 or not (f["params"][0].get("t") or "").startswith("const"):
            return False
        pid = f["params"][0].get("id")

        def other(e):
            e = strip(e)
            return e is not None and e["k"] == "mem" and e["n"] == field and e.get("b") is not None and strip(e["b"]).get("id") == pid
        if any(x["k"] == "bin" and x["op"] == "=" and place(x["x"]) == ("m", field) and other(x["y"]) for x in walk(f["body"])) or \
           any(i.get("f") == field and i.get("e") is not None and other(i["e"]) for i in f.get("inits") or []):
            self.sharing.add(f["key"])
            return True
        return False

    def moves(self, cls, field, kind, done):
        """when the content of another object is taken over, the other object loses it"""
        rep, prog = self.rep, self.prog
        base = cls.split("<")[0].split("::")[-1]
        for f in prog.all_fns():
            if f.get("cls") != cls or not f.get("body") or f["n"] not in (base, "operator=") or len(f["params"]) != 1:
                continue
            pid = f["params"][0].get("id")
            t = f["params"][0].get("t") or ""
            if base not in t:
                continue
            k = (f["file"], f["l"], field, "move")
            if k in done:
                continue

            def other(e):
                e = strip(e)
                if e is not None and e["k"] == "cond":
                    return other(e["x"]) or other(e["y"])
                return e is not None and e["k"] == "mem" and e["n"] == field and e.get("b") is not None and strip(e["b"])["k"] == "ref" and strip(e["b"]).get("id") == pid
            if self.shares(f, field):
                continue
            init = [i for i in f.get("inits") or [] if i.get("f") == field and i.get("e") is not None and other(i["e"])]
            asg = [x for x in walk(f["body"]) if x["k"] == "bin" and x["op"] == "=" and place(x["x"]) == ("m", field) and other(x["y"])]
            if not init and not asg:
                continue
            done.add(k)
            rep.inst("once", "%s: %s takes %s of another object" % (loc(f, f), f["n"], field))
            g = Graph(prog, dict(f, inits=[]), inline=lambda h, c, fr: False)
            cond = show(strip(strip(init[0]["e"])["c"])) if init and strip(init[0]["e"])["k"] == "cond" else None

            def step(node, s):
                x = node.n
                if x is None:
                    return [s]
                if any(x is a for a in asg):
                    return ["taken"]
                if x["k"] == "bin" and x["op"] == "=" and strip(x["x"])["k"] == "mem" and strip(x["x"]).get("b") is not None and strip(strip(x["x"])["b"]).get("id") == pid:
                    # the field itself or a flag that says whether it is owned
                    if strip(x["x"])["n"] == field or strip(x["y"])["k"] == "bool":
                        return ["ok"]
                if x["k"] == "call" and short(x) in ("swap", "exchange", "release", "unmap", "clear", "reset"):
                    if (x.get("o") is not None and strip(x["o"]).get("id") == pid) or any(n.get("id") == pid for a in x.get("a") or [] for n in walk(a)):
                        return ["ok"]
                return [s]

            def refine(node, lab, s):
                if s == "taken" and cond is not None and node.n is not None and show(strip(node.n)) == cond and lab is not None and not lab:
                    return "ok"
                return s
            sim = Sim(g, "taken" if init else "ok", step, None, lambda node: False, refine=refine)
            for node in g.nodes:
                if node.kind == "exit" and "taken" in sim.states(node):
                    rep.viol("once", "shared:%s:%s" % (f["qn"], field), loc(f, f), "%s is taken over from another object that keeps it: both destructors release it" % field)
                    break

    # ------------------------------------------------------------ copies of owners
    def check_copies(self):
        """an object whose copy would share what it holds is never copied"""
        rep, prog = self.rep, self.prog
        raw = {}
        for cls, fields in self.own.items():
            dt = [f for f in prog.all_fns() if f.get("cls") == cls and f["n"].startswith("~") and f.get("body")]
            fs = [x for x, (k, f, n) in fields.items() if k not in LOCK and any(True for d in dt for h in self.closure(cls, d).values() for _ in self.freed(h, x, k))]
            if fs:
                raw[cls] = fs
        if not raw:
            raise AnalysisError("no class that owns a resource was found")
        user = {}
        for f in prog.all_fns():
            c = f.get("cls")
            if c in raw and f.get("body") and len(f["params"]) == 1 and f["key"] not in self.sharing:
                t = f["params"][0].get("t") or ""
                b = c.split("<")[0].split("::")[-1]
                if b in t and "&&" not in t and t.startswith("const"):
                    if f["n"] == b:
                        user.setdefault(c, set()).add("ctor")
                    elif f["n"] == "operator=":
                        user.setdefault(c, set()).add("=")
        for c in sorted(raw):
            rep.inst("copy", "%s holds %s; own copy operations: %s" % (c[:70], ", ".join(raw[c]), ", ".join(sorted(user.get(c, []))) or "none"))
        for f in source_fns(prog):
            for n in walk(f["body"]):
                if n["k"] == "ctor" and n.get("cm2") == "copy":
                    c = base_types(n["t"])
                    if c in raw and "ctor" not in user.get(c, ()):
                        rep.viol("copy", "ctor:%s:%s" % (f["qn"], c[:40]), loc(f, n), "an object of %s is copied, and both copies release %s" % (c[:60], ", ".join(raw[c])))
                elif n["k"] == "call" and n.get("op") == "=" and len(n.get("a") or []) == 2:
                    c = base_types(strip(n["a"][0]).get("t"))
                    if c in raw and "=" not in user.get(c, ()) and "&&" not in (n.get("fk") or ""):
                        rep.viol("copy", "assign:%s:%s" % (f["qn"], c[:40]), loc(f, n), "an object of %s is assigned by copying, and both copies release %s" % (c[:60], ", ".join(raw[c])))

    # ------------------------------------------------------------ results of new that nobody keeps
    def check_kept(self):
        rep = self.rep
        for f in source_fns(self.prog):
            F = Fn(self.prog, f)
            for n in walk(f["body"]):
                k = acquired(n)
                if not k:
                    continue
                rep.inst("kept", "%s: %s" % (loc(f, n), WHAT[k]))
                ok = False
                for a in F.ancestors(n):
                    if a["k"] in ("cast", "list", "defarg", "cond"):
                        continue
                    if a["k"] == "un" and a["op"] == "*" and not any(b["k"] == "var" and "&" in (b.get("t") or "") for b in F.ancestors(n)):
                        break
                    if a["k"] in ("var", "bin", "ret", "ctor", "call", "un", "mem", "if", "while"):
                        ok = True
                    break
                if not ok:
                    rep.viol("kept", "lost:%s:%s" % (f["qn"], show(n)[:40]), loc(f, n), "%s acquired here is lost at once" % WHAT[k])


def check(prog, rep):
    rep.rule("released", "what a function acquires in a local variable is released or passed on exactly once on every path, in the handling of requests also when an error leaves the function", 6)
    rep.rule("owner", "what an object acquires its destructor releases, in the matching form", 5)
    rep.rule("once", "what an object released early or passed on to another object it does not release again; what it replaces it releases", 4)
    rep.rule("copy", "objects whose copies would release the same resource are not copied", 3)
    rep.rule("kept", "the result of an acquisition is kept", 10)
    c = Check(prog, rep)
    rep.part(c.check_locals)
    rep.part(c.check_owners)
    rep.part(c.check_copies)
    rep.part(c.check_kept)
    rep.extra["functions_on_request_paths"] = len(c.query)


if __name__ == "__main__":
    run("C22", check, level="other",
        explanation="Typestate of every raw resource (new, files, descriptors, mappings, sockets, address lists, mutexes) over control-flow graphs with exception edges from an interprocedural exception analysis; "
                    "ownership rules for the classes that hold resources: release in the destructor, reset after early release, release before replacement, loss on hand-over, no sharing by copying.")
