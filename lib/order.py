"""Structure of comparison functions."""
from base import walk, strip, short, show, const_int


def side(e, params):
    """(0|1, key text) if e reads one of the two arguments, else None."""
    e = strip(e)
    who = {x["id"] for x in walk(e) if x["k"] == "ref" and x.get("id") in params}
    if len(who) != 1:
        return None
    w = who.pop()

    def txt(n):
        n = strip(n)
        if n["k"] == "ref" and n.get("id") == w:
            return "@"
        if n["k"] == "call" and n.get("op") == "[]" and len(n["a"]) == 2:
            return "%s[%s]" % (txt(n["a"][0]), const_int(n["a"][1]) if const_int(n["a"][1]) is not None else show(n["a"][1]))
        if n["k"] == "sub":
            return "%s[%s]" % (txt(n["b"]), const_int(n["i"]) if const_int(n["i"]) is not None else show(n["i"]))
        if n["k"] == "mem" and n.get("b"):
            return "%s.%s" % (txt(n["b"]), n["n"])
        if n["k"] == "call" and short(n) == "get" and len(n["a"]) == 1:
            import re
            m = re.search(r"get<(\d+)", n.get("fk", ""))
            return "get<%s>(%s)" % (m.group(1) if m else "?", txt(n["a"][0]))
        if n["k"] == "call" and n.get("o") is not None and not n.get("op"):
            return "%s.%s(%s)" % (txt(n["o"]), short(n), ",".join(txt(a) for a in n["a"] if a["k"] != "defarg"))
        if n["k"] == "un":
            return "%s%s" % (n["op"], txt(n["x"]))
        return show(n)
    return params.index(w), txt(e)


def lexicographic(prog, f):
    """([index, ...], None) if f compares its two arguments element by element in this sequence, else (None, reason)."""
    ps = [p["id"] for p in f["params"]]

    def key(e):
        s = side(e, ps)
        if s is None:
            return None
        t = s[1]
        if t.startswith("@[") and t.endswith("]") and t[2:-1].isdigit():
            return s[0], int(t[2:-1])
        return None

    def less(e):
        """index i if e is a[i] < b[i] (or b[i] > a[i])"""
        e = strip(e)
        if e["k"] == "bin" and e["op"] in ("<", ">"):
            a, b = key(e["x"]), key(e["y"])
            if a and b and a[1] == b[1] and (a[0], b[0]) == ((0, 1) if e["op"] == "<" else (1, 0)):
                return a[1]
        return None

    def equal(e):
        e = strip(e)
        if e["k"] == "un" and e["op"] == "!":
            r = equal(e["x"])
            return (r[0], not r[1]) if r else None
        if e["k"] == "bin" and e["op"] in ("==", "!="):
            a, b = key(e["x"]), key(e["y"])
            if a and b and a[1] == b[1] and a[0] != b[0]:
                return a[1], e["op"] == "=="
        return None

    def expr(e):
        e = strip(e)
        i = less(e)
        if i is not None:
            return [i]
        if e["k"] == "cond":
            q = equal(e["c"])
            if q:
                same, diff = (e["x"], e["y"]) if q[1] else (e["y"], e["x"])
                if less(diff) == q[0]:
                    r = expr(same)
                    return [q[0]] + r if r else None
            return None
        if e["k"] == "bin" and e["op"] == "||":
            # a0 < b0 || (a0 == b0 && rest)
            i = less(e["x"])
            y = strip(e["y"])
            if i is not None and y["k"] == "bin" and y["op"] == "&&":
                q = equal(y["x"])
                if q and q == (i, True):
                    r = expr(y["y"])
                    return [i] + r if r else None
            return None
        if e["k"] in ("bin", "call") and e.get("op") == "<":
            x, y = (e["x"], e["y"]) if e["k"] == "bin" else (e["a"][0], e["a"][1])
            x, y = strip(x), strip(y)
            if x["k"] == "call" and y["k"] == "call" and short(x) == short(y) and short(x) in ("tie", "make_tuple", "forward_as_tuple"):
                a, b = [key(z) for z in x["a"]], [key(z) for z in y["a"]]
                if all(a) and all(b) and [z[1] for z in a] == [z[1] for z in b] and all(z[0] == 0 for z in a) and all(z[0] == 1 for z in b):
                    return [z[1] for z in a]
        return None

    def body(stmts):
        stmts = [s for s in stmts if s is not None and s["k"] != "nop"]
        if not stmts:
            return None
        s, rest = stmts[0], stmts[1:]
        if s["k"] == "blk":
            return body(s["s"] + rest)
        if s["k"] == "ret":
            return expr(s["e"])
        if s["k"] == "if":
            q = equal(s["c"])
            if q is None:
                # if (a < b) return true; if (b < a) return false;
                i = less(s["c"])
                if i is not None and rest and rest[0]["k"] == "if":
                    t = strip(rest[0]["c"])
                    if t["k"] == "bin" and t["op"] in ("<", ">"):
                        a, b = key(t["x"]), key(t["y"])
                        if a and b and a[1] == b[1] == i and (a[0], b[0]) == ((1, 0) if t["op"] == "<" else (0, 1)) and \
                                rets(s["x"]) == 1 and rets(rest[0]["x"]) == 0:
                            r = body(rest[1:])
                            return [i] + r if r else None
                return None
            i, eq = q
            same = s["x"] if eq else s.get("y")
            diff = s.get("y") if eq else s["x"]
            sm = ([same] if same is not None else []) + rest
            df = ([diff] if diff is not None else []) + rest
            rs, rd = body(sm), body(df)
            if rs and rd and rd[:1] == [i]:
                # on the 'different' side the first comparison decides
                return [i] + [x for x in rs]
            return None
        if s["k"] == "decl":
            return body(rest)
        return body(rest) if s["k"] in ("log",) else None

    def rets(s):
        s = s["s"][0] if s["k"] == "blk" and len(s["s"]) == 1 else s
        return const_int(s["e"]) if s["k"] == "ret" and s.get("e") else None
    r = body(f["body"]["s"])
    if not r:
        return None, "it has another form"
    if len(set(r)) != len(r):
        return None, "a position is compared twice (%s)" % r
    return r, None
