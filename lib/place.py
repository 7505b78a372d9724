"""Places, definitions and guards inside one function, on the syntax tree."""
from base import walk, strip, short, show, const_int, children

EXITS = ("ret", "throw", "break", "cont")


class Fn:
    """One function body with parents, definitions of locals and guards."""

    def __init__(self, prog, f, binds=None, up=None):
        self.prog, self.f, self.binds, self.up = prog, f, binds or {}, up
        self.parent = {}
        self.order = {}
        self.vars = {}
        self.assign = {}      # variable id -> [(rhs, node)]
        self.mutated = set()  # variables changed in place (++, +=)
        i = 0
        st = [(f["body"], None)]
        while st:
            n, p = st.pop()
            self.parent[id(n)] = p
            self.order[id(n)] = i
            i += 1
            if n["k"] == "var" and n["id"] not in self.vars:
                self.vars[n["id"]] = n
            if n["k"] == "rfor":
                self.vars[n["var"]["id"]] = dict(n["var"], k="var", of=n["range"])
            ch = list(children(n))
            st.extend((c, n) for c in reversed(ch))
        self.params = {p["id"]: p for p in f.get("params", [])}
        for n in walk(f["body"]):
            if n["k"] == "un" and n["op"].lstrip("p") in ("++", "--") or n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("=", "==", "!=", "<=", ">="):
                x = strip(n["x"])
                if x["k"] == "ref" and "id" in x:
                    self.mutated.add(x["id"])
            if n["k"] == "call" and n.get("op") in ("++", "--", "+=", "-=") and n["a"]:
                x = strip(n["a"][0])
                if x["k"] == "ref" and "id" in x:
                    self.mutated.add(x["id"])
            if n["k"] == "bin" and n["op"] == "=":
                x, y = strip(n["x"]), n["y"]
            elif n["k"] == "call" and n.get("op") == "=":
                x, y = strip(n["a"][0]), n["a"][1]
            else:
                continue
            if x["k"] == "ref" and "id" in x:
                self.assign.setdefault(x["id"], []).append((y, n))

    # -- structure
    def ancestors(self, n):
        p = self.parent.get(id(n))
        while p is not None:
            yield p
            p = self.parent.get(id(p))

    def inside(self, n, root):
        return n is root or any(a is root for a in self.ancestors(n))

    def guards(self, n):
        """[(condition, polarity, node)] that hold whenever n is evaluated, innermost first."""
        out = []
        c = n
        for p in self.ancestors(n):
            if p["k"] == "if":
                if c is p["x"]:
                    out.append((p["c"], True, p))
                elif c is p.get("y"):
                    out.append((p["c"], False, p))
            elif p["k"] == "cond":
                if c is p["x"]:
                    out.append((p["c"], True, p))
                elif c is p["y"]:
                    out.append((p["c"], False, p))
            elif p["k"] == "bin" and p["op"] in ("&&", "||") and c is p["y"]:
                out.append((p["x"], p["op"] == "&&", p))
            elif p["k"] in ("for", "while") and p.get("c") and c is not p["c"] and c is not p.get("init"):
                out.append((p["c"], True, p))
            elif p["k"] == "blk":
                for s in flat(p["s"], c):
                    if s is not None and s["k"] == "if" and leaves(s["x"]) and not s.get("y"):
                        out.append((s["c"], False, s))
                    elif s is not None and s["k"] == "if" and s.get("y") and leaves(s["y"]) and not leaves(s["x"]):
                        out.append((s["c"], True, s))
            c = p
        return out

    # -- places
    def single(self, vid):
        """The only definition of a local, or None."""
        d = self.vars.get(vid)
        if d is None or vid in self.assign or vid in self.mutated or d.get("of") is not None:
            return None
        return d.get("init")

    def before_changes(self, e):
        """Is this use of a local before all assignments to it?"""
        o = self.order.get(id(e))
        vid = e["id"]
        if o is None or vid in self.mutated or vid not in self.assign:
            return False
        d = self.vars[vid]
        for _, n in self.assign[vid]:
            if self.order[id(n)] <= o or any(a["k"] in ("for", "while", "do", "rfor") and self.inside(e, a) and not self.inside(d, a) for a in self.ancestors(n)):
                return False
        return True

    def path(self, e, depth=0):
        """Canonical path of an expression (aliases resolved)."""
        e = strip(e)
        if depth > 16:
            return ("?",)
        while True:
            if e["k"] == "un" and e["op"] in ("*", "&"):
                e = strip(e["x"])
            elif e["k"] == "call" and e.get("op") in ("*", "->") and len(e["a"]) == 1:
                e = strip(e["a"][0])
            elif e["k"] == "call" and short(e) in ("get", "lock") and not e["a"] and e.get("o") and "_ptr" in e.get("fn", ""):
                e = strip(e["o"])
            else:
                break
        if e["k"] == "ref" and "id" in e:
            if e["id"] in self.binds:
                a, c = self.binds[e["id"]]
                return c.path(a, depth + 1)
            d = self.vars.get(e["id"])
            if d is not None and e["id"] not in self.assign and e["id"] not in self.mutated and d.get("init") is not None and d.get("of") is None:
                t = d.get("t", "")
                i = strip(d["init"])
                if t.endswith(("&", "*")) or (i["k"] in ("mem", "ref") and "id" in i):
                    return self.path(d["init"], depth + 1)
            if d is not None and d.get("init") is not None and d.get("of") is None and d.get("t", "").endswith(("&", "*")) and self.before_changes(e):
                return self.path(d["init"], depth + 1)
            return (("v", id(self.f), e["id"], e["n"]),)
        if e["k"] == "ref":
            return (("g", e.get("n", "?")),)
        if e["k"] == "mem":
            return (self.path(e["b"], depth + 1) if e.get("b") else (("this",),)) + (e["n"],)
        if e["k"] == "this":
            return (("this",),)
        if e["k"] == "call" and e.get("op") == "[]" and len(e["a"]) == 2:
            return self.path(e["a"][0], depth + 1) + ("[%s]" % self.text(e["a"][1]),)
        if e["k"] == "sub":
            return self.path(e["b"], depth + 1) + ("[%s]" % self.text(e["i"]),)
        if e["k"] == "call" and short(e) in ("front", "begin") and not e["a"] and e.get("o"):
            return self.path(e["o"], depth + 1) + ("[0]",)
        if e["k"] == "call" and short(e) in ("at",) and len(e["a"]) == 1 and e.get("o"):
            return self.path(e["o"], depth + 1) + ("[%s]" % self.text(e["a"][0]),)
        return (("e", self.text(e)),)

    def text(self, e, depth=0):
        """Text of an expression with single-definition locals replaced by what they stand for."""
        e = strip(e)
        c = const_int(e)
        if c is not None:
            return str(c)
        if depth > 10:
            return show(e)
        if e["k"] == "ref" and "id" in e:
            if e["id"] in self.binds:
                a, c2 = self.binds[e["id"]]
                return c2.text(a, depth + 1)
            i = self.single(e["id"])
            if i is not None:
                s = strip(i)
                if s["k"] in ("ref", "mem", "sub", "int") or s["k"] == "call" and s.get("op") == "[]":
                    return self.text(s, depth + 1)
            return e["n"]
        if e["k"] == "bin":
            a, b = self.text(e["x"], depth + 1), self.text(e["y"], depth + 1)
            if e["op"] in ("+", "*") and b < a:
                a, b = b, a
            return "(%s %s %s)" % (a, e["op"], b)
        if e["k"] in ("mem", "sub") or e["k"] == "call" and e.get("op") == "[]":
            return pathtext(self.path(e, depth + 1))
        if e["k"] == "call" and e.get("o") is not None and not e.get("op"):
            return "%s.%s(%s)" % (self.text(e["o"], depth + 1), short(e), ", ".join(self.text(a, depth + 1) for a in e["a"] if a["k"] != "defarg"))
        return show(e)


def pathtext(p):
    out = ""
    for x in p:
        if isinstance(x, tuple):
            out += x[-1] if x[0] != "this" else "this"
        elif x.startswith("["):
            out += x
        else:
            out += "." + x
    return out


def flat(ss, stop):
    """The statements of a block before stop, those of nested plain blocks included."""
    for s in ss:
        if s is stop:
            return
        if s is not None and s["k"] == "blk":
            yield from flat(s["s"], None)
        elif s is not None:
            yield s


def leaves(s):
    """Does the statement always leave the enclosing block?"""
    if s is None:
        return False
    if s["k"] in EXITS:
        return True
    if s["k"] == "blk":
        return any(leaves(x) for x in s["s"] if x is not None)
    if s["k"] == "if" and s.get("y"):
        return leaves(s["x"]) and leaves(s["y"])
    if s["k"] in ("cast",):
        return leaves(s.get("e"))
    return False


def conj(e, pol=True):
    """Conjuncts [(expr, polarity)] of a condition that is known to be pol."""
    e = strip(e)
    if e["k"] == "un" and e["op"] == "!":
        return conj(e["x"], not pol)
    if e["k"] == "bin" and e["op"] == ("&&" if pol else "||"):
        return conj(e["x"], pol) + conj(e["y"], pol)
    return [(e, pol)]
