"""Reads the byte sequence a function writes or reads from its syntax tree.

A sequence is a tuple of items:
  ("w", width, name)        a fixed-width value
  ("blob", name)            bytes whose number is not a constant
  ("sub", class, name)      an object with its own writer/reader
  ("loop", {sequences})     a repetition whose body is one of the sequences
Paths are enumerated; a path that ends in a throw is dropped.
Buffer positions are linear forms {term: factor} with the constant under None."""
from base import walk, strip, short, show, const_int, children
import re

WIDTH = {"unsigned long": 8, "long": 8, "unsigned int": 4, "int": 4, "char": 1, "unsigned char": 1, "signed char": 1, "double": 8,
         "float": 4, "unsigned long long": 8, "long long": 8, "bool": 1, "unsigned short": 2, "short": 2, "std::byte": 1}


def width_of(t):
    t = t.replace("const ", "").replace(" const", "").strip()
    while t.endswith(("*", "&")):
        t = t[:-1].strip()
    return WIDTH.get(t)


def add(a, b, f=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
    return {k: v for k, v in out.items() if v or k is None}


def num(n):
    return {None: n}


def same(a, b):
    d = add(a, b, -1)
    return not any(d.values())


def linshow(a):
    parts = [("%s" % k if v == 1 else "%d * %s" % (v, k)) for k, v in a.items() if k is not None and v]
    if a.get(None) or not parts:
        parts.append(str(a.get(None, 0)))
    return " + ".join(parts)


class State:
    __slots__ = ("ev", "env", "at", "end")

    def __init__(self, ev=(), env=None, at=None, end=None):
        self.ev, self.env, self.at, self.end = ev, env or {}, at, end

    def copy(self, **kw):
        s = State(self.ev, dict(self.env), self.at, self.end)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def key(self):
        return (self.ev, self.end, tuple(sorted((k, tuple(sorted(v.items(), key=str))) for k, v in self.env.items())))


class Seq:
    """mode 'w' or 'r'; channel(e) says whether an expression denotes the file/stream."""

    def __init__(self, prog, f, mode, channel, buffer=None, assume=None, problems=None, depth=0, consts=None):
        self.prog, self.f, self.mode, self.channel, self.assume = prog, f, mode, channel, assume or (lambda e: None)
        self.buffer = buffer            # ids of pointer parameters that walk over the bytes
        self.problems = problems if problems is not None else []   # (node, text)
        self.depth = depth
        self.consts = {}                # name of written value -> constant
        self.compared = {}              # name of read value -> constants it is compared with
        self.vars = {n["id"]: n for n in walk(f["body"]) if n["k"] == "var"}
        self.changed = set()
        for n in walk(f["body"]):
            x = None
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                x = strip(n["x"])
            elif n["k"] == "un" and n["op"].lstrip("p") in ("++", "--"):
                x = strip(n["x"])
            if x is not None and x["k"] == "ref" and "id" in x:
                self.changed.add(x["id"])
        self.deref = set()

    # -- linear forms
    def lin(self, e, st):
        e0 = e
        e = strip(e)
        c = const_int(e)
        if c is not None:
            return num(c)
        if e["k"] == "ref" and "id" in e:
            if e["id"] in st.env:
                return st.env[e["id"]]
            v = self.vars.get(e["id"])
            if v is not None and e["id"] not in self.changed and v.get("init") is not None:
                i = strip(v["init"])
                if const_int(i) is not None or i["k"] in ("bin",):
                    return self.lin(v["init"], st)
            return {e["n"]: 1, None: 0}
        if e["k"] == "bin" and e["op"] in ("+", "-"):
            return add(self.lin(e["x"], st), self.lin(e["y"], st), 1 if e["op"] == "+" else -1)
        if e["k"] == "bin" and e["op"] == "*":
            a, b = self.lin(e["x"], st), self.lin(e["y"], st)
            for x, y in ((a, b), (b, a)):
                if not any(v for k, v in x.items() if k is not None):
                    return {k: v * x.get(None, 0) for k, v in y.items()}
        if e["k"] == "call" and short(e) == "sizeOnDisk" and not e["a"]:
            v = self.returned(e)
            if v is not None:
                return v
        if e["k"] == "un" and e["op"] in ("p++", "++"):
            return self.lin(e["x"], st)
        return {show(e0): 1, None: 0}

    def returned(self, call):
        g = self.prog.fn(call["fk"]) if call.get("fk") else None
        if not g or not g.get("body"):
            return None
        rets = [n for n in walk(g["body"]) if n["k"] == "ret" and n.get("e")]
        if len(rets) != 1:
            return None
        return Seq(self.prog, g, self.mode, self.channel).lin(rets[0]["e"], State())

    def rooted(self, e):
        """Is this pointer expression a position in the buffer?"""
        if not self.buffer:
            return False
        e = strip(e)
        if e["k"] == "ref":
            if e.get("id") in self.buffer:
                return True
            v = self.vars.get(e.get("id"))
            return bool(v is not None and v.get("t", "").endswith("*") and v.get("init") is not None and self.rooted(v["init"]))
        if e["k"] == "bin" and e["op"] in ("+", "-"):
            return self.rooted(e["x"]) or self.rooted(e["y"])
        if e["k"] == "un" and e["op"] in ("&",):
            x = strip(e["x"])
            return x["k"] == "sub" and self.rooted(x["b"])
        return False

    def pos(self, e, st):
        e = strip(e)
        if e["k"] == "un" and e["op"] == "&":
            x = strip(e["x"])
            return add(self.pos(x["b"], st), self.lin(x["i"], st))
        if e["k"] == "ref" and e.get("id") not in st.env:
            v = self.vars.get(e.get("id"))
            if v is not None and v.get("init") is not None and self.rooted(v["init"]):
                return self.pos(v["init"], st)
        return self.lin(e, st)

    # -- names
    def name(self, e):
        e = strip(e)
        while e["k"] in ("un",) and e["op"] in ("&", "*"):
            e = strip(e["x"])
        if e["k"] == "mem":
            return e["n"]
        if e["k"] == "ref":
            c = const_int(e)
            v = self.vars.get(e.get("id"))
            n = e["n"]
            if c is not None:
                self.consts[n] = c
            elif v is not None and v.get("init") is not None and e.get("id") not in self.changed and const_int(v["init"]) is not None:
                self.consts[n] = const_int(v["init"])
            elif v is not None and v.get("init") is not None and e.get("id") not in self.changed and strip(v["init"])["k"] == "mem":
                return strip(v["init"])["n"]
            return n
        if e["k"] == "call" and e.get("o") is not None and short(e) in ("data", "c_str"):
            return self.name(e["o"])
        if e["k"] == "call" and e.get("op") == "[]":
            return self.name(e["a"][0])
        if e["k"] == "sub":
            return self.name(e["b"])
        return ""

    def emit(self, st, item, node, at=None, size=None):
        """Appends an item; checks that it follows what was read before."""
        if at is not None:
            if st.at is not None and not same(at, st.at):
                d = add(at, st.at, -1)
                if not any(v for k, v in d.items() if k is not None):
                    self.problems.append((node, "reads %s at position %s, but what was read before ends at %s" %
                                          (item[-1] or "a value", linshow(at), linshow(st.at))))
            st.at = add(at, size) if size is not None else None
        return st.copy(ev=st.ev + (item,))

    # -- expressions: in evaluation order, returns the states after
    def expr(self, e, states):
        if e is None:
            return states
        k = e["k"]
        if k == "lambda":
            return states
        if k == "cond" or k == "bin" and e["op"] in ("&&", "||"):
            first = e["c"] if k == "cond" else e["x"]
            states = self.expr(first, states)
            rest = [e["x"], e["y"]] if k == "cond" else [None, e["y"]]
            out = []
            for r in rest:
                out += self.expr(r, [s.copy() for s in states])
            return self.join(out)
        if k == "bin" and e["op"] in ("=", "+=", "-="):
            x = strip(e["x"])
            states = self.expr(e["y"], states)
            if x["k"] != "ref":
                states = self.expr(e["x"], states)
            if x["k"] == "ref" and "id" in x:
                out = []
                for s in states:
                    s = s.copy()
                    v = self.lin(e["y"], s) if not self.reads(e["y"]) else {x["n"]: 1, None: 0}
                    if e["op"] != "=":
                        v = add(s.env.get(x["id"], {x["n"]: 1, None: 0}), v, 1 if e["op"] == "+=" else -1)
                    if self.buffer and x["id"] in self.buffer or x["id"] in self.changed:
                        s.env[x["id"]] = v
                    out.append(s)
                states = out
            return self.target(e, x, states) if e["op"] == "=" else states
        if k == "un" and e["op"].lstrip("p") in ("++", "--"):
            x = strip(e["x"])
            states = self.expr(e["x"], states)
            if x["k"] == "ref" and "id" in x:
                out = []
                for s in states:
                    s = s.copy()
                    s.env[x["id"]] = add(s.env.get(x["id"], {x["n"]: 1, None: 0}), num(1 if "++" in e["op"] else -1))
                    out.append(s)
                states = out
            return states
        if k == "un" and e["op"] == "*" and self.mode == "r":
            x = e["x"]
            if self.rooted(x):
                w = width_of(self.castto(x)) or 1
                return [self.emit(s, ("w", w, ""), e, self.pos(x, s), num(w)) for s in states]
        if k == "sub" and self.mode == "r" and self.rooted(e["b"]):
            w = width_of(self.castto(e["b"])) or 1
            return [self.emit(s, ("w", w, ""), e, add(self.pos(e["b"], s), {t: f * w for t, f in self.lin(e["i"], s).items()}), num(w)) for s in states]
        if k in ("call", "ctor"):
            return self.call(e, states)
        for c in children(e):
            states = self.expr(c, states)
        return states

    def castto(self, e):
        while e is not None and e["k"] in ("cast", "defarg", "list"):
            if e["k"] == "cast" and e.get("t", "").rstrip().endswith("*") and "void" not in e["t"]:
                return e["t"]
            e = e.get("e") if e["k"] != "list" else e["a"][0]
        return (e or {}).get("t", "")

    def reads(self, e):
        return any(n["k"] == "un" and n["op"] == "*" and self.rooted(n["x"]) or n["k"] == "call" and any(self.channel(a) for a in n["a"])
                   or n["k"] == "call" and n.get("o") is not None and self.channel(n["o"]) or n["k"] == "sub" and self.rooted(n["b"])
                   or n["k"] == "call" and self.inner(n) for n in walk(e))

    def inner(self, e):
        """The buffer pointer that a call advances (readFromBuf(&buf))."""
        for a in e["a"]:
            x = strip(a)
            if x["k"] == "un" and x["op"] == "&":
                y = strip(x["x"])
                if y["k"] == "ref" and self.buffer and y.get("id") in self.buffer:
                    return y
        return None

    def target(self, e, x, states):
        """Names the value just read after what it is stored in."""
        if self.mode != "r" or not self.reads(e["y"] if "y" in e else e):
            return states
        out = []
        for s in states:
            if s.ev and s.ev[-1][0] in ("w", "blob") and not s.ev[-1][-1]:
                s = s.copy(ev=s.ev[:-1] + (s.ev[-1][:-1] + (x.get("n", ""),),))
            out.append(s)
        return out

    def call(self, e, states):
        nm, a, o = short(e), e["a"], e.get("o")
        op = e.get("op")
        if op == "=" and len(a) == 2:
            states = self.expr(a[1], states)
            return self.target(dict(y=a[1]), strip(a[0]), states)
        if self.mode == "w":
            if o is not None and self.channel(o) and nm in ("write", "writeSome", "put") and a:
                for x in a:
                    states = self.expr(x, states)
                return self.written(e, states)
            if op == "<<" and len(a) == 2:
                root = a[0]
                chain = [a[1]]
                while strip(root)["k"] == "call" and strip(root).get("op") == "<<":
                    r = strip(root)
                    chain.insert(0, r["a"][1])
                    root = r["a"][0]
                if self.channel(root):
                    for x in chain:
                        t = self.typeof(x)
                        states = [self.emit(s, ("sub", t, self.name(x)), e) for s in states]
                    return states
        if self.mode == "r":
            if o is not None and self.channel(o) and nm in ("read", "readSome") and a:
                w = const_int(a[1]) if len(a) > 1 else None
                x = strip(a[0])
                for y in a[1:]:
                    states = self.expr(y, states)
                item = ("blob", self.name(x))
                if w is not None and x["k"] == "un" and x["op"] == "&":
                    item = ("w", w, self.name(x))
                    t = width_of(self.vartype(strip(x["x"])))
                    if t is not None and t != w:
                        self.problems.append((e, "reads %d bytes into %s, which has %d" % (w, show(x["x"]), t)))
                if len(a) > 2 and a[2]["k"] != "defarg":
                    return [self.emit(s, item, e, self.lin(a[2], s), num(w) if w is not None else self.lin(a[1], s)) for s in states]
                return [self.emit(s, item, e) for s in states]
            y = self.inner(e)
            if y is not None:
                g = self.prog.fn(e["fk"]) if e.get("fk") else None
                w = width_of(e.get("t", ""))
                adv = None
                if g and g.get("body"):
                    for n in walk(g["body"]):
                        if n["k"] == "bin" and n["op"] == "+=":
                            adv = const_int(n["y"])
                        if n["k"] == "cast" and n.get("t", "").endswith("*") and width_of(n["t"]) and n["t"].count("*") == 1 and "char" not in n["t"]:
                            w = width_of(n["t"])
                if adv is not None and w is not None and adv != w:
                    self.problems.append((e, "%s reads %d bytes but advances by %d" % (nm, w, adv)))
                out = []
                for s in states:
                    cur = s.env.get(y["id"], num(0))
                    s = self.emit(s, ("w", w, ""), e, cur, num(w or 8))
                    s.env[y["id"]] = add(cur, num(adv if adv is not None else (w or 8)))
                    out.append(s)
                return out
            rooted = [x for x in a if self.rooted(x)]
            if rooted and nm in ("memcpy", "memmove", "copy") and len(a) == 3 and self.rooted(a[1]):
                n = const_int(a[2])
                return [self.emit(s, ("w", n, self.name(a[0])) if n is not None and n <= 16 else ("blob", self.name(a[0])), e, self.pos(a[1], s), self.lin(a[2], s)) for s in states]
            if rooted and nm in ("assign", "append") and len(a) == 2:
                return [self.emit(s, ("blob", self.name(o)), e, self.pos(a[0], s), self.lin(a[1], s)) for s in states]
            if rooted and (e["k"] == "ctor" or nm == "basic_string") and len([x for x in a if x["k"] != "defarg"]) == 2:
                return [self.emit(s, ("blob", ""), e, self.pos(rooted[0], s), self.lin(a[1], s)) for s in states]
            if rooted:
                g = self.prog.fn(e["fk"]) if e.get("fk") else None
                if g and g.get("body") and e.get("o") is not None and nm == "createFromByteBuffer":
                    return [self.emit(s, ("sub", g["cls"].split("<")[0].split("::")[-1], self.name(o)), e, self.pos(rooted[0], s), None) for s in states]
                if g and g.get("body") and self.depth < 4:
                    return self.inline(e, g, states)
        # a helper that is given the channel
        if any(self.channel(x) for x in a) and e.get("fk"):
            g = self.prog.fn(e["fk"])
            if g and g.get("body") and self.depth < 4:
                if nm in ("write", "load", "save") and o is not None and g["cls"]:
                    at = [x for x in a if not self.channel(x) and x["k"] != "defarg"]
                    return [self.emit(s, ("sub", g["cls"].split("<")[0].split("::")[-1], self.name(o)), e, self.lin(at[0], s) if at else None) for s in states]
                return self.inline(e, g, states)
        if o is not None:
            states = self.expr(o, states)
        for x in a:
            states = self.expr(x, states)
        return states

    def typeof(self, x):
        x0 = x
        while x is not None and x["k"] in ("cast", "defarg"):
            x = x["e"]
        t = (x or x0).get("t", "")
        if not t and x["k"] == "mem":
            t = x.get("t", "")
        t = t.replace("const ", "").rstrip("&* ").strip()
        return t.split("<")[0].split("::")[-1]

    def written(self, e, states):
        a = e["a"]
        x = strip(a[0])
        n = const_int(a[1]) if len(a) > 1 else None
        if x["k"] == "un" and x["op"] == "&" and n is not None:
            v = strip(x["x"])
            t = self.vartype(v)
            w = width_of(t)
            if w is not None and w != n:
                self.problems.append((e, "writes %d bytes of %s, which has %d" % (n, show(v), w)))
            return [self.emit(s, ("w", n, self.name(v)), e) for s in states]
        if n is not None and n <= 16 and x["k"] != "call":
            return [self.emit(s, ("w", n, self.name(x)), e) for s in states]
        return [self.emit(s, ("blob", self.name(x)), e) for s in states]

    def vartype(self, v):
        if v.get("t"):
            return v["t"]
        d = self.vars.get(v.get("id"))
        return d.get("t", "") if d else ""

    def inline(self, e, g, states):
        bind = {}
        chans, bufs = set(), set()
        for p, x in zip(g.get("params", []), e["a"]):
            if self.channel(x):
                chans.add(p["id"])
            if self.mode == "r" and self.rooted(x):
                bufs.add(p["id"])
                bind[p["id"]] = x
        def ch(x):
            x = strip(x)
            while x["k"] == "un" and x["op"] in ("*", "&"):
                x = strip(x["x"])
            return x["k"] == "ref" and x.get("id") in chans
        sub = Seq(self.prog, g, self.mode, ch, bufs, self.assume, self.problems, self.depth + 1)
        out = []
        for s in states:
            env = {i: self.pos(x, s) for i, x in bind.items()}
            for r in sub.stmts(g["body"], [State(s.ev, env, s.at)]):
                if r.end in (None, "ret"):
                    out.append(s.copy(ev=r.ev, at=None if bufs else s.at))
        self.consts.update(sub.consts)
        for k, v in sub.compared.items():
            self.compared.setdefault(k, set()).update(v)
        return self.join(out) or states

    def join(self, states):
        seen, out = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out[:64]

    # -- statements
    def stmts(self, n, states):
        if n is None:
            return states
        live = [s for s in states if s.end is None]
        done = [s for s in states if s.end is not None]
        if not live:
            return states
        k = n["k"]
        if k == "blk":
            st = live
            for c in n["s"]:
                st = self.stmts(c, st)
            return self.join(done + st)
        if k == "decl":
            st = live
            for v in n["d"]:
                st = self.stmts(v, st)
            return done + st
        if k == "var":
            if n.get("init") is not None:
                st = self.expr(n["init"], live)
                if self.mode == "r":
                    st = self.target(dict(y=n["init"]), n, st)
                if n["id"] in self.changed:
                    out = []
                    for s in st:
                        s = s.copy()
                        s.env[n["id"]] = self.lin(n["init"], s) if not self.reads(n["init"]) else {n["n"]: 1, None: 0}
                        out.append(s)
                    st = out
                return done + st
            return done + live
        if k == "if":
            st = self.expr(n["c"], live)
            self.compare(n["c"])
            v = truth(n["c"])
            if v is None:
                v = self.assume(n["c"])
            out = []
            if v is not False:
                out += self.stmts(n["x"], [s.copy() for s in st])
            if v is not True:
                out += self.stmts(n.get("y"), [s.copy() for s in st]) if n.get("y") else [s.copy() for s in st]
            return done + self.join(out)
        if k in ("for", "while", "do", "rfor"):
            st = live
            if k == "for" and n.get("init"):
                st = self.stmts(n["init"], st)
            if k == "rfor":
                st = self.expr(n["range"], st)
            inner = []
            head = {}
            for s in st[:1]:
                for i in self.changed:
                    if i in s.env:
                        head[i] = {"#%s" % i: 1, None: 0}
                if self.buffer:
                    for i in self.buffer:
                        head[i] = {"#%s" % i: 1, None: 0}
                inner = [State((), dict(head), None)]
            if k in ("for", "while") and n.get("c"):
                inner = self.expr(n["c"], inner)
            b = self.stmts(n.get("body"), inner)
            b2 = []
            for s in b:
                if s.end in ("cont",):
                    s = s.copy(end=None)
                b2.append(s)
            if k == "for" and n.get("inc"):
                b2 = [x for s in b2 for x in (self.expr(n["inc"], [s]) if s.end is None else [s])]
            if k == "do" and n.get("c"):
                b2 = [x for s in b2 for x in (self.expr(n["c"], [s]) if s.end is None else [s])]
            alts = frozenset(s.ev for s in b2 if s.end in (None,) and s.ev)
            # the position must advance by what the body reads
            for s in b2:
                if s.end is None and s.at is not None and self.mode == "r":
                    ok = False
                    moved = [i for i in head if i in s.env and not same(s.env[i], head[i])]
                    for i in moved:
                        d = add(s.env[i], head[i], -1)
                        start = add(s.at, {}, 1)
                        if not any(v for t, v in add(s.env[i], s.at, -1).items() if t is not None) and add(s.env[i], s.at, -1).get(None, 0) != 0:
                            self.problems.append((n, "the loop reads up to %s but continues at %s" % (linshow(s.at), linshow(s.env[i]))))
            out = []
            for s in st:
                s = s.copy()
                if alts:
                    s = s.copy(ev=s.ev + (("loop", alts),), at=None)
                    for i in head:
                        if any(r.env.get(i) is not None and not same(r.env[i], head[i]) for r in b2):
                            s.env[i] = {"after%d.%s" % (n.get("l", 0), i): 1, None: 0}
                out.append(s)
            for s in b:
                if s.end in ("ret",) and s.ev:
                    for s0 in st:
                        out.append(s0.copy(ev=s0.ev + s.ev, end="ret"))
            return done + self.join(out)
        if k == "ret":
            st = self.expr(n.get("e"), live)
            return done + [s.copy(end="ret") for s in st]
        if k == "throw" or k == "cast" and n["e"]["k"] == "throw":
            return done + [s.copy(end="throw") for s in live]
        if k in ("break", "cont"):
            return done + [s.copy(end=k) for s in live]
        if k == "try":
            return done + self.stmts(n.get("body") or n.get("x") or next(children(n), None), live)
        if k == "switch":
            st = self.expr(n.get("c"), live)
            return done + st
        return done + self.expr(n, live)

    def compare(self, c):
        for n in walk(c):
            if n["k"] == "bin" and n["op"] in ("==", "!="):
                for x, y in ((n["x"], n["y"]), (n["y"], n["x"])):
                    v = const_int(y)
                    sx = strip(x)
                    if v is not None and sx["k"] in ("ref", "mem"):
                        self.compared.setdefault(sx["n"], set()).add(v)

    def run(self):
        st = State((), {i: num(0) for i in (self.buffer or ())}, num(0) if self.buffer else None)
        out = self.stmts(self.f["body"], [st])
        return frozenset(s.ev for s in out if s.end in (None, "ret"))


def truth(c):
    """Value of a condition that is a constant (if constexpr)."""
    c = strip(c)
    if c["k"] == "un" and c["op"] == "!":
        v = truth(c["x"])
        return None if v is None else not v
    v = const_int(c)
    return None if v is None else bool(v)


# ---------------------------------------------------------------- comparing
def norm(n):
    return n.lstrip("_").rstrip("_").lower()


def names(seq):
    out = set()
    for i in seq:
        if i[0] == "loop":
            for a in i[1]:
                out |= names(a)
        elif i[-1]:
            out.add(norm(i[-1]))
    return out


def match(w, r, shared):
    """Reason why the sequence read differs from the one written, or None."""
    for n in range(max(len(w), len(r))):
        if n >= len(r):
            return "item %d (%s) is written but not read" % (n + 1, label(w[n])), n
        if n >= len(w):
            return "item %d (%s) is read but not written" % (n + 1, label(r[n])), n
        a, b = w[n], r[n]
        if a[0] != b[0]:
            return "item %d is written as %s and read as %s" % (n + 1, label(a), label(b)), n
        if a[0] == "w" and a[1] != b[1]:
            return "item %d (%s) is written with %d bytes and read with %s" % (n + 1, label(a), a[1], b[1]), n
        if a[0] == "sub" and a[1] and b[1] and a[1] != b[1]:
            return "item %d is written as %s and read as %s" % (n + 1, a[1], b[1]), n
        if a[0] == "loop":
            for x in a[1]:
                why = None
                for y in b[1]:
                    m = match(x, y, shared)
                    if m is None:
                        why = None
                        break
                    why = m if why is None or m[1] > why[1] else why
                if why:
                    return "in the repetition (item %d): %s" % (n + 1, why[0]), n
        else:
            x, y = norm(a[-1]), norm(b[-1])
            if x != y and (x in shared or y in shared):
                return "item %d is written from %s and read into %s" % (n + 1, a[-1] or "?", b[-1] or "?"), n
    return None


def label(i):
    if i[0] == "loop":
        return "a repetition"
    return i[-1] or (i[1] if i[0] == "sub" else "%s bytes" % i[1] if i[0] == "w" else "bytes")


def agree(ws, rs):
    """None, or why some written sequence cannot be read by any of the reader's sequences."""
    for w in ws:
        best = None
        for r in rs:
            shared = names(w) & names(r)
            m = match(w, r, shared)
            if m is None:
                best = None
                break
            if best is None or m[1] > best[1]:
                best = m
        else:
            return best[0] if best else "nothing is read"
    return None


def total(seq):
    """Bytes of a sequence of fixed-width values, blobs counted as terms."""
    n = 0
    for i in seq:
        if i[0] == "w":
            n += i[1]
        elif i[0] != "blob":
            return None
    return n


def describe(seq):
    return " ".join(("%s:%s" % (i[-1] or "?", i[1]) if i[0] in ("w", "sub") else "%s:bytes" % (i[-1] or "?")) if i[0] != "loop" else
                    "{%s}*" % " | ".join(sorted(describe(a) for a in i[1])) for i in seq)
