"""C20: command-line options and stored settings take effect as announced."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, is_log, AnalysisError
from place import Fn, conj, leaves

NEG = {"no", "not", "disable", "skip", "without", "omit"}
STOP = {"is", "the", "set", "of", "for", "use", "get", "enable", "max", "in", "on", "m", "and", "to", "a", "_"}
ANTI = {"keep": {"delete", "remove", "unlink"}}
GB = 1 << 30


def words(s):
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1 \2", s)
    s = re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1 \2", s)
    return [w.lower() for w in re.split(r"[^A-Za-z0-9]+", s) if w]


def stem(w):
    for e in ("ing", "es", "s", "ed"):
        if w.endswith(e) and len(w) - len(e) >= 3:
            w = w[:-len(e)]
            break
    return w


def bag(s):
    return {stem(w) for w in words(s)} - NEG - STOP


def common(a, b):
    return sum(1 for x in a if any(x == y or len(x) > 2 and len(y) > 2 and (x.startswith(y) or y.startswith(x)) for y in b))


def sim(a, b):
    c = common(a, b)
    return c / max(1, len(a) + len(b) - c)


def has_gb(s):
    return any(w in ("gb", "gigabytes") for w in words(s))


class Prog:
    """One program with its option table."""


def own(prog, key, f):
    """The definition of a function or variable that the file of f uses."""
    for k in (key + "@" + f["file"], key):
        if k in prog.raw["F"]:
            return prog.fn(k)
    return None


def own_global(prog, key, f):
    for k in (key + "@" + f["file"], key):
        if k in prog.raw["G"]:
            g = prog.global_(k)
            if "@" in k or g["file"] == f["file"] or not g["file"].endswith(".cpp"):
                return g
    return None


def literal(prog, f, F, e):
    e = strip(e)
    for _ in range(6):
        if e is None:
            return None
        if e["k"] == "str":
            return e["v"]
        if e["k"] == "call" and short(e) in ("c_str", "data") and e.get("o"):
            e = strip(e["o"])
        elif e["k"] == "ctor" and e["a"]:
            e = strip(e["a"][0])
        elif e["k"] == "ref" and "id" in e and F.single(e["id"]) is not None:
            e = strip(F.single(e["id"]))
        elif e["k"] == "ref" and e.get("dk") == "global":
            g = own_global(prog, e.get("g", ""), f)
            e = strip(g["init"]) if g and g.get("init") else None
        else:
            return None
    return None


def programs(prog, rep):
    res = []
    for k in sorted(prog.all_keys()):
        if b'"getopt_long"' not in prog.raw["F"][k]:
            continue
        f = prog.fn(k)
        F = Fn(prog, f)
        for c in walk(f["body"]):
            if c["k"] != "call" or short(c) != "getopt_long":
                continue
            p = Prog()
            p.f, p.F, p.call = f, F, c
            p.name = os.path.basename(f["file"])[:-4]
            p.short = literal(prog, f, F, c["a"][2])
            if p.short is None:
                raise AnalysisError("%s: the short options given to getopt_long are not a literal" % loc(f, c))
            t = strip(c["a"][3])
            while t["k"] in ("un", "cast"):
                t = strip(t.get("x") or t.get("e"))
            init = None
            if t["k"] == "ref" and t.get("dk") == "global":
                g = own_global(prog, t.get("g", ""), f)
                init = g and g.get("init")
            elif t["k"] == "ref" and t.get("id") in F.vars:
                init = F.vars[t["id"]].get("init")
            if init is None:
                raise AnalysisError("%s: option table not found" % loc(f, c))
            p.long = []
            for row in [n for n in walk(init) if n["k"] == "list" and n is not init and len(n["a"]) >= 4]:
                nm = strip(row["a"][0])
                if nm["k"] != "str":
                    continue
                p.long.append((nm["v"], const_int(row["a"][1]), const_int(row["a"][3]), row["l"]))
            if not p.long:
                raise AnalysisError("%s: option table is empty" % loc(f, c))
            p.shorts = {}
            s = p.short.lstrip("+-:")
            for i, ch in enumerate(s):
                if ch != ":":
                    p.shorts[ch] = s[i + 1:i + 2] == ":"
            handlers(prog, p)
            res.append(p)
    return res


def ends(s):
    """Does the statement end the program?"""
    if s["k"] == "blk":
        return any(ends(x) for x in s["s"] if x is not None)
    return s["k"] == "call" and short(s) in ("exit", "abort", "_exit", "quick_exit")


def value_of(e):
    """The expression a json value is made from."""
    e = strip(e)
    while e["k"] == "ctor" and e["a"] and "json" in e.get("t", ""):
        e = strip(e["a"][0])
    return e


def flat_cases(ss):
    """[(labels, statements)] of the body of a switch; labels fall through."""
    out, cur = [], None
    for s in ss:
        if s is None:
            continue
        labels = []
        while s is not None and s["k"] in ("case", "default"):
            labels.append("default" if s["k"] == "default" else s.get("cv"))
            s = s.get("s")
        if labels:
            if cur is not None and not any(leaves(x) or ends(x) for x in cur[1]):
                cur = (labels, [])      # falls through into the next label
                out[-1][2].append(len(out))
            else:
                cur = (labels, [])
            out.append((cur[0], cur[1], []))
        if cur is not None and s is not None:
            cur[1].append(s)
    # statements reached by falling through
    res = []
    for i, (l, st, nx) in enumerate(out):
        st = list(st)
        j = nx
        while j:
            st += out[j[0]][1]
            j = out[j[0]][2]
        res.append((l, st))
    return res


def handlers(prog, p):
    """p.h: option letter -> statements that handle it."""
    p.h = {}
    p.loop = None
    f, F = p.f, p.F
    pa = [a for a in F.ancestors(p.call)]
    for a in pa:
        if a["k"] in ("while", "for", "do"):
            p.loop = a
            break
    root = p.loop or f["body"]
    var = None
    for a in pa:
        if a["k"] == "var":
            var = a["id"]
            break
        if a["k"] == "bin" and a["op"] == "=" and strip(a["x"])["k"] == "ref":
            var = strip(a["x"])["id"]
            break

    def isc(e):
        e = strip(e)
        return e["k"] == "ref" and e.get("id") == var

    def scan(f2, root, isc):
        for n in walk(root):
            if n["k"] == "switch" and isc(n["c"]):
                for ls, st in flat_cases(n["body"]["s"] if n["body"]["k"] == "blk" else [n["body"]]):
                    for l in ls:
                        if isinstance(l, int):
                            p.h.setdefault(chr(l), []).extend(st)
                        else:
                            p.default = st
            if n["k"] == "if":
                for e, pol in conj(n["c"], True):
                    if pol and e["k"] == "bin" and e["op"] == "==":
                        for x, y in ((e["x"], e["y"]), (e["y"], e["x"])):
                            v = const_int(y)
                            if isc(x) and v is not None and 0 < v < 256:
                                p.h.setdefault(chr(v), []).append(n["x"])
    scan(f, root, isc)
    if not p.h:
        raise AnalysisError("%s: the options read by getopt_long are not distinguished" % loc(f, p.call))


def uses_optarg(st):
    return any(n["k"] == "ref" and n.get("n") == "optarg" for s in st for n in walk(s))


def assigned(st):
    """[(variable ref, value)] assigned in statements."""
    for s in st:
        for n in walk(s):
            if n["k"] == "bin" and n["op"] == "=":
                yield strip(n["x"]), n["y"], n
            elif n["k"] == "call" and n.get("op") == "=" and len(n["a"]) == 2:
                yield strip(n["a"][0]), n["a"][1], n


def is_output(st):
    return any(n["k"] == "call" and n.get("op") == "<<" for s in st for n in walk(s)) or \
        any(n["k"] == "call" and not n.get("op") and short(n) not in ("atoi", "atof", "stoi", "stoul") for s in st for n in walk(s))


def written(prog, rep):
    """A name that an option sets must also be set on the objects that are built anew and written to the index files."""
    def root(e):
        e = strip(e)
        while e is not None:
            if e["k"] == "mem" and e.get("b") is not None:
                e = strip(e["b"])
            elif e["k"] == "call" and e.get("o") is not None:
                e = strip(e["o"])
            elif e["k"] == "call" and e.get("op") in ("->", "*", "[]") and e["a"]:
                e = strip(e["a"][0])
            elif e["k"] == "un":
                e = strip(e["x"])
            else:
                return e
        return e
    named = {}
    for f in prog.all_fns():
        if f["n"] == "setName" and f.get("cls") and f["file"].startswith("src/"):
            named.setdefault(f["cls"], f)
    sets = {}
    for f in prog.all_fns():
        if f.get("body") and f["file"].startswith("src/"):
            for n in walk(f["body"]):
                if n["k"] == "call" and short(n) == "setName" and n.get("o") is not None:
                    r = root(n["o"])
                    if r is not None and r["k"] == "ref":
                        sets.setdefault(f["key"], set()).add(show(strip(n["o"])))
    for f in prog.all_fns():
        if f.get("cls") != "Index" or not f.get("body"):
            continue
        for n in walk(f["body"]):
            if n["k"] != "call" or n.get("o") is None or short(n) not in ("appendToFile", "writeToFile"):
                continue
            ts = [prog.fn(k) for k in prog.targets(n)]
            if not ts or ts[0].get("cls") not in named:
                continue
            r = root(n["o"])
            if r is None or r["k"] != "ref":
                continue
            rep.inst("written", "%s: %s" % (loc(f, n), show(n)[:70]))
            own = sets.get(f["key"], set())
            if show(strip(n["o"])) in own:
                continue
            callees = {k for c in walk(f["body"]) if c["k"] == "call" for k in prog.targets(c)}
            callees |= {k for h in list(callees) for c in walk((prog.fn(h) or {}).get("body") or {"k": "nop"}) if c["k"] == "call" for k in prog.targets(c)}
            # set by the function that made the object, or through another name for it
            if any(sets.get(k) for k in callees if prog.fn(k).get("cls") == f.get("cls") or prog.fn(k)["file"] == f["file"]) or (own and len(own) >= 1 and r.get("n") not in " ".join(own)):
                continue
            rep.viol("written", "name:%s:%s" % (f["qn"], show(strip(n["o"]))[:40]), loc(f, n), "%s is written to the index without the name that was given on the command line" % show(strip(n["o"])))


def check(prog, rep):
    rep.rule("form", "every long option has a handler, and its short form takes the same argument", 40)
    rep.rule("arg", "the handler of an option uses the argument exactly if the option has one", 40)
    rep.rule("effect", "an option changes a variable of its own to a value that differs from the default and is used", 35)
    rep.rule("announce", "every option that the help announces exists under that letter and name", 35)
    rep.rule("reach", "the value of an option reaches the setting it names", 15)
    rep.rule("setter", "a setter stores its parameter in a member that is used", 7)
    rep.rule("unit", "an amount in gigabytes is converted before it is used as an amount of bytes or elements", 4)
    rep.rule("key", "a setting is tested, read and stored under the same name", 8)
    rep.rule("restore", "what is stored in the configuration is restored from the same name to the same place", 6)
    rep.rule("late", "settings are complete when the configuration is written", 1)
    rep.rule("default", "the default of a configurable value is not used in its place", 2)
    rep.rule("written", "an object that is written to a file carries the names that were set by options", 2)
    rep.rule("format", "every input format that is announced or deduced is read", 4)
    progs = programs(prog, rep)
    for p in progs:
        rep.part(forms, prog, rep, p)
        rep.part(help_text, prog, rep, p)
        rep.part(reach, prog, rep, p)
    rep.part(formats, prog, rep)
    rep.part(setters, prog, rep, progs)
    rep.part(units, prog, rep)
    rep.part(config, prog, rep)
    rep.part(written, prog, rep)
    rep.extra["programs"] = {p.name: [l[0] for l in p.long] for p in progs}


def forms(prog, rep, p):
    f = p.f
    seen = {}
    p.var = {}
    for name, need, val, line in p.long:
        where = "%s:%d" % (f["file"], line)
        ch = chr(val) if val and val < 256 else None
        rep.inst("form", "%s --%s -%s" % (p.name, name, ch))
        if ch is None or ch not in p.h:
            rep.viol("form", "%s --%s" % (p.name, name), where, "option --%s of %s is accepted but not handled" % (name, p.name))
            continue
        if ch in seen:
            rep.viol("form", "%s --%s" % (p.name, name), where, "options --%s and --%s of %s are not told apart" % (name, seen[ch], p.name))
        seen[ch] = name
        if ch in p.shorts and p.shorts[ch] != (need == 1):
            rep.viol("form", "%s -%s" % (p.name, ch), where, "-%s of %s takes %s argument, --%s takes %s" % (ch, p.name, "an" if p.shorts[ch] else "no", name, "one" if need == 1 else "none"))
        st = p.h[ch]
        rep.inst("arg", "%s --%s" % (p.name, name))
        if uses_optarg(st) != (need == 1):
            rep.viol("arg", "%s --%s" % (p.name, name), loc(f, st[0]) if st else where,
                     "--%s of %s takes %s argument but its handler %s it" % (name, p.name, "an" if need == 1 else "no", "ignores" if need == 1 else "reads"))
    for ch, need in p.shorts.items():
        if ch in p.h and ch not in seen:
            rep.inst("arg", "%s -%s" % (p.name, ch))
            if uses_optarg(p.h[ch]) and not need:
                rep.viol("arg", "%s -%s" % (p.name, ch), loc(f, p.h[ch][0]), "-%s of %s takes no argument but its handler reads one" % (ch, p.name))
    owner = {}
    for ch, st in sorted(p.h.items()):
        name = seen.get(ch, ch)
        asg = [(x, y, n) for x, y, n in assigned(st) if x["k"] == "ref"]
        rep.inst("effect", "%s -%s: %s" % (p.name, ch, ", ".join(show(n) for _, _, n in asg) or "message or action"))
        if not asg:
            if not is_output(st):
                rep.viol("effect", "%s -%s" % (p.name, ch), loc(f, st[0]) if st else loc(f), "--%s of %s has no effect" % (name, p.name))
            continue
        vs = []
        for x, y, n in asg:
            vs.append(x.get("id"))
            d = p.F.vars.get(x.get("id"))
            if d is None:
                continue
            a, b = const_int(y), const_int(d["init"]) if d.get("init") else None
            if a is not None and a == b:
                rep.viol("effect", "%s -%s value" % (p.name, ch), loc(f, n), "--%s of %s sets %s to its default" % (name, p.name, x["n"]))
            uses = [u for u in walk(f["body"]) if u["k"] == "ref" and u.get("id") == x["id"] and not any(p.F.inside(u, s) for t in p.h.values() for s in t)]
            uses = [u for u in uses if not is_target(p.F, u)]
            if not uses:
                rep.viol("effect", "%s -%s use" % (p.name, ch), loc(f, n), "the value of --%s of %s is never used" % (name, p.name))
            p.var[x["id"]] = (name, ch, y, d)
        for o, (ovs, on) in owner.items():
            if set(vs) <= set(ovs) and set(ovs) <= set(vs):
                rep.viol("effect", "%s -%s same" % (p.name, ch), loc(f, asg[0][2]), "--%s and --%s of %s change the same variable" % (name, on, p.name))
        owner[ch] = (vs, name)


def is_target(F, u):
    p = F.parent.get(id(u))
    return p is not None and (p["k"] == "bin" and p["op"] == "=" and strip(p["x"]) is u or p["k"] == "call" and p.get("op") == "=" and strip(p["a"][0]) is u)


def help_text(prog, rep, p):
    """Functions without parameters of the query kind that print texts: those called for -h or before exiting."""
    f = p.f
    fs, todo = [f], [f]
    while todo:
        g = todo.pop()
        for c in walk(g["body"]):
            if c["k"] == "call" and c.get("fk"):
                t = own(prog, c["fk"], f)
                if t and t["file"] == f["file"] and t.get("body") and t not in fs:
                    fs.append(t)
                    todo.append(t)
    names = {n: (chr(v) if v and v < 256 else None) for n, _, v, _ in p.long}
    for g in fs:
        for n in walk(g["body"]):
            if n["k"] != "str":
                continue
            m = re.fullmatch(r"\s*-?([A-Za-z]), *(?:--)?([a-z][a-z0-9]*(?:-[a-z0-9]+)*)\s*", n["v"])
            if m:
                ch, nm = m.groups()
                rep.inst("announce", "%s: -%s, --%s" % (p.name, ch, nm))
                if nm not in names:
                    rep.viol("announce", "%s --%s" % (p.name, nm), loc(g, n), "the help of %s announces --%s, which does not exist" % (p.name, nm))
                elif names[nm] != ch or ch not in p.shorts:
                    rep.viol("announce", "%s -%s" % (p.name, ch), loc(g, n), "the help of %s announces -%s as short form of --%s, which it is not" % (p.name, ch, nm))
                continue
            if re.fullmatch(r"\s*(?:--)?([a-z]+(-[a-z]+)+)\s*", n["v"]):
                nm = n["v"].strip().lstrip("-")
                rep.inst("announce", "%s: --%s" % (p.name, nm))
                if nm not in names:
                    rep.viol("announce", "%s --%s" % (p.name, nm), loc(g, n), "the help of %s announces --%s, which does not exist" % (p.name, nm))
                continue
            for m in re.finditer(r"--([a-z]+(?:-[a-z]+)*)(?: \(-([A-Za-z])\))?", n["v"]):
                nm, ch = m.groups()
                rep.inst("announce", "%s: --%s" % (p.name, nm))
                if nm not in names:
                    rep.viol("announce", "%s --%s" % (p.name, nm), loc(g, n), "a message of %s names --%s, which does not exist" % (p.name, nm))
                elif ch and (names[nm] != ch or ch not in p.shorts):
                    rep.viol("announce", "%s -%s" % (p.name, ch), loc(g, n), "a message of %s names -%s as short form of --%s, which it is not" % (p.name, ch, nm))


def optvar(p, e, neg=False):
    """(option variable id, negated) an argument stands for."""
    e = strip(e)
    while e["k"] == "un" and e["op"] == "!":
        e, neg = strip(e["x"]), not neg
    if e["k"] == "call" and short(e) in ("c_str", "data") and e.get("o"):
        e = strip(e["o"])
    if e["k"] == "ref" and e.get("id") in getattr(p, "var", {}):
        return e["id"], neg
    if e["k"] == "ref" and "id" in e:
        i = p.F.single(e["id"])
        if i is not None and strip(i)["k"] in ("ref", "un"):
            return optvar(p, i, neg)
    return None


def params_of(prog, c):
    for k in prog.targets(c):
        t = prog.fn(k)
        if t and t.get("params"):
            return t, t["params"]
    return None, None


def reach(prog, rep, p):
    f = p.f
    setters = []       # (option, setting name, call, type, arg)
    for c in walk(f["body"]):
        if c["k"] not in ("call", "ctor") or c.get("op"):
            continue
        if any(p.F.inside(c, s) for st in p.h.values() for s in st) or is_in_log(p.F, c):
            continue
        pos = [(i, a, optvar(p, a)) for i, a in enumerate(c["a"]) if optvar(p, a)]
        if not pos:
            continue
        t, ps = params_of(prog, c)
        if ps is None:
            if c["k"] == "call" and len(c["a"]) == 1 and c.get("o"):
                setters.append((pos[0][2], short(c), c, "", c["a"][0]))
            continue
        opts = [(p.var[v][0], neg, ps[i]["n"] if i < len(ps) else "", ps[i].get("t", "") if i < len(ps) else "", a, v) for i, a, (v, neg) in pos]
        if len(opts) == 1 and len(c["a"]) == 1:
            setters.append(((opts[0][5], opts[0][1]), short(c) + " " + opts[0][2], c, opts[0][3], c["a"][0]))
            continue
        for x in range(len(opts)):
            o1, n1, s1, t1, a1, _ = opts[x]
            rep.inst("reach", "%s --%s -> %s(%s)" % (p.name, o1, short(c), s1))
            for y in range(x):
                o2, n2, s2, t2, a2, _ = opts[y]
                swapped(rep, p, c, o1, s1, o2, s2, t1, t2)
            polarity(rep, p, c, o1, n1, s1, p.var[opts[x][5]], t1)
    for x, ((v1, n1), s1, c1, t1, a1) in enumerate(setters):
        rep.inst("reach", "%s --%s -> %s" % (p.name, p.var[v1][0], short(c1)))
        for (v2, n2), s2, c2, t2, a2 in setters[:x]:
            swapped(rep, p, c1, p.var[v1][0], s1, p.var[v2][0], s2, t1, t2)
        polarity(rep, p, c1, p.var[v1][0], n1, s1, p.var[v1], t1)
    # conditions on options
    for n in walk(f["body"]):
        if n["k"] == "if":
            for e, pol in conj(n["c"], True):
                ov = optvar(p, e)
                if not ov:
                    continue
                name = p.var[ov[0]][0]
                for br, sign in ((n["x"], pol), (n.get("y"), not pol)):
                    if br is None:
                        continue
                    for c in walk(br):
                        if c["k"] == "call" and not c.get("op") and c.get("o") and bag(name) and common(bag(name), bag(short(c))) and not is_in_log(p.F, c):
                            rep.inst("reach", "%s --%s decides about %s" % (p.name, name, short(c)))
                            polarity(rep, p, c, name, not sign, short(c), p.var[ov[0]], "bool")


def is_in_log(F, n):
    return any(a["k"] in ("call",) and a.get("op") == "<<" for a in F.ancestors(n))


def swapped(rep, p, c, o1, s1, o2, s2, t1, t2):
    b1, b2, c1, c2 = bag(o1), bag(o2), bag(s1), bag(s2)
    if sim(b1, c2) + sim(b2, c1) > sim(b1, c1) + sim(b2, c2) + 1e-9 and sim(b1, c2) >= sim(b1, c1) and sim(b2, c1) >= sim(b2, c2):
        rep.viol("reach", "%s %s %s" % (p.name, *sorted((o1, o2))), loc(p.f, c), "%s: the value of --%s is used as %s and that of --%s as %s" % (p.name, o1, s1, o2, s2))


def polarity(rep, p, c, name, neg, setting, var, t):
    _, ch, y, d = var
    given = const_int(y)
    if d.get("t") != "bool" or given is None:
        return
    given = bool(given) != neg
    ow, sw = words(name), words(setting)
    want = not (set(ow) & NEG) != bool(set(sw) & NEG)
    want = (not (set(ow) & NEG)) == (not (set(sw) & NEG))
    for a, bs in ANTI.items():
        if a in ow and set(sw) & bs:
            want = not want
    if not common(bag(name), bag(setting)):
        return
    if given != want:
        rep.viol("reach", "%s --%s sign" % (p.name, name), loc(p.f, c), "%s: with --%s the setting %s becomes %s" % (p.name, name, setting, str(given).lower()))


def setters(prog, rep, progs):
    done = set()
    for p in progs:
        for c in walk(p.f["body"]):
            if c["k"] != "call" or c.get("op") or not c.get("o"):
                continue
            if not any(optvar(p, a) for a in c["a"]):
                continue
            for k in prog.targets(c):
                t = prog.fn(k)
                if not t or not t.get("body") or k in done:
                    continue
                done.add(k)
                for i, a in enumerate(c["a"]):
                    if not optvar(p, a) or i >= len(t["params"]):
                        continue
                    par = t["params"][i]
                    uses = [n for n in walk(t["body"]) if n["k"] == "ref" and n.get("id") == par["id"]]
                    uses = [u for u in uses if not is_log_use(Fn(prog, t), u)]
                    rep.inst("setter", "%s(%s)" % (t["qn"], par["n"]))
                    if not uses:
                        rep.viol("setter", "%s %s" % (t["qn"], par["n"]), loc(t), "%s does not use its parameter %s" % (t["qn"], par["n"]))
                    for x, y, n in assigned([t["body"]]):
                        if x["k"] == "mem" and any(u is strip(y) for u in uses):
                            if not field_read(prog, x["f"], t["key"]):
                                rep.viol("setter", "%s %s" % (t["qn"], x["n"]), loc(t, n), "%s stores %s in %s, which is never read" % (t["qn"], par["n"], x["n"]))
                            others = [g for g in done if g != k and sets(prog, g, x["f"])]
                            if others:
                                rep.viol("setter", "%s %s" % (t["qn"], x["n"]), loc(t, n), "%s and %s set the same member %s" % (t["qn"], prog.fn(others[0])["qn"], x["n"]))


def is_log_use(F, u):
    return any(a["k"] == "call" and a.get("op") == "<<" for a in F.ancestors(u)) and is_log(next(iter(reversed([a for a in F.ancestors(u) if a["k"] == "call" and a.get("op") == "<<"]))))


def sets(prog, k, field):
    t = prog.fn(k)
    return any(x["k"] == "mem" and x.get("f") == field and strip(y)["k"] == "ref" and strip(y).get("dk") == "parm" for x, y, n in assigned([t["body"]]))


_reads = {}


def field_read(prog, field, but):
    if field not in _reads:
        _reads[field] = set()
        b = field.rsplit("::", 1)[-1].encode()
        for k in prog.all_keys():
            if b not in prog.raw["F"][k] or k.startswith("T:"):
                continue
            f = prog.fn(k)
            if not f.get("body"):
                continue
            F = Fn(prog, f)
            for n in walk(f["body"]):
                if n["k"] == "mem" and n.get("f") == field and not is_target(F, n) and not is_in_log(F, n):
                    _reads[field].add(k)
    return _reads[field] - {but}


# ------------------------------------------------------------------ formats
def formats(prog, rep):
    """Where a text is compared with literals in an if-chain, every literal it is set to is among them."""
    for k in sorted(prog.all_keys()):
        f = prog.fn(k) if k.startswith("main(") else None
        if not f or not f.get("body"):
            continue
        F = Fn(prog, f)
        tested = {}
        for n in walk(f["body"]):
            if n["k"] == "call" and n.get("op") == "==" and len(n["a"]) == 2:
                a, b = strip(n["a"][0]), strip(n["a"][1])
                if a["k"] == "ref" and "id" in a and b["k"] == "str":
                    tested.setdefault(a["id"], set()).add(b["v"])
        sets_ = {}
        for x, y, n in assigned([f["body"]]):
            if x["k"] == "ref" and "id" in x and strip(y)["k"] == "str":
                sets_.setdefault(x["id"], []).append((strip(y)["v"], n, x["n"]))
        # variables handed to a helper that distinguishes the texts
        for c in walk(f["body"]):
            if c["k"] == "call" and c.get("fk") and not c.get("op"):
                t = own(prog, c["fk"], f)
                if not t or t["file"] != f["file"] or not t.get("body"):
                    continue
                for i, a in enumerate(c["a"]):
                    a = strip(a)
                    if a["k"] == "ref" and a.get("id") in sets_ and i < len(t["params"]):
                        pid = t["params"][i]["id"]
                        for n in walk(t["body"]):
                            if n["k"] == "call" and n.get("op") == "==" and len(n["a"]) == 2 and strip(n["a"][0]).get("id") == pid and strip(n["a"][1])["k"] == "str":
                                tested.setdefault(a["id"], set()).add(strip(n["a"][1])["v"])
        for v, l in sets_.items():
            if v not in tested or len(tested[v]) < 2:
                continue
            empties = [n for n in walk(f["body"]) if n["k"] == "if" and strip(n["c"])["k"] == "call" and short(strip(n["c"])) == "empty" and strip(strip(n["c"])["o"]).get("id") == v]
            for val, n, nm in l:
                rep.inst("format", "%s: %s = %s" % (f["file"], nm, val))
                if val not in tested[v]:
                    rep.viol("format", "%s %s" % (f["file"], val), loc(f, n), "%s is set to \"%s\", which is not among the formats read" % (nm, val))
            for e in empties:
                rep.inst("format", "%s: %s not given" % (f["file"], l[0][2]))
                if not always_sets(e["x"], v):
                    rep.viol("format", "%s empty" % f["file"], loc(f, e), "%s stays empty if the format is neither given nor deduced" % l[0][2])


def always_sets(s, v):
    if s is None:
        return False
    if s["k"] == "blk":
        return any(always_sets(x, v) for x in s["s"] if x is not None)
    if s["k"] == "if":
        return bool(s.get("y")) and always_sets(s["x"], v) and always_sets(s["y"], v)
    if leaves(s):
        return True
    if s["k"] == "call" and short(s) in ("exit", "abort"):
        return True
    return any(x.get("id") == v for x, y, n in assigned([s])) if s["k"] in ("bin", "call") else False


# ------------------------------------------------------------------ units
def factor(e, F):
    """[(name of an amount in GB, is scaled)] in an expression."""
    e0 = strip(e)
    out = []

    def chain(e):
        e = strip(e)
        return chain(e["x"]) + chain(e["y"]) if e["k"] == "bin" and e["op"] == "*" else [e]

    def go(e, scaled):
        e = strip(e)
        if e["k"] == "bin" and e["op"] == "*":
            fs, prod, rest = chain(e), 1, []
            for b in fs:
                v = const_int(b)
                if v is None or b["k"] in ("ref", "mem") and has_gb(b["n"]):
                    rest.append(b)
                else:
                    prod *= v
            for a in rest:
                go(a, scaled or prod == GB or any(named(b) for b in rest if b is not a))
        elif e["k"] == "bin" and e["op"] == "<<":
            go(e["x"], scaled or const_int(e["y"]) == 30)
        elif e["k"] == "bin":
            go(e["x"], scaled)
            go(e["y"], scaled)
        elif e["k"] in ("ref", "mem"):
            if has_gb(e["n"]):
                out.append((e["n"], scaled))
            elif e["k"] == "ref" and F is not None and "id" in e and F.single(e["id"]) is not None:
                go(F.single(e["id"]), scaled)

    def named(b):
        b = strip(b)
        if b["k"] == "ref" and F is not None and "id" in b and F.single(b["id"]) is not None:
            return const_int(F.single(b["id"])) == GB
        return b["k"] == "bin" and b["op"] == "*" and any(const_int(x) == GB for x in (b["x"], b["y"]))
    go(e0, False)
    return out


def units(prog, rep):
    for k in sorted(prog.all_keys()):
        raw = prog.raw["F"][k]
        if b"GB" not in raw and b"Gb" not in raw or k.startswith("T:"):
            continue
        f = prog.fn(k)
        if not f["file"].startswith("src/"):
            continue
        F = Fn(prog, f) if f.get("body") else None
        roots = [i for i in f.get("inits", []) or []] + ([f["body"]] if f.get("body") else [])
        for r in roots:
            for c in walk(r if "k" in r else {"k": "x", "i": r}):
                if c["k"] not in ("call", "ctor") or c.get("op"):
                    continue
                t, ps = params_of(prog, c)
                for i, a in enumerate(c["a"]):
                    if "int" not in (strip(a).get("t") or "int") and strip(a)["k"] not in ("bin", "ref", "mem"):
                        continue
                    for nm, scaled in factor(a, F):
                        pn = ps[i]["n"] if ps and i < len(ps) else ""
                        if has_gb(pn) or has_gb(nm) and common(bag(pn), bag(nm)) and pn and not scaled and any(w in words(pn) for w in ("gb",)):
                            continue
                        if not ps and not (c.get("t") or short(c)):
                            continue
                        if short(c) in ("to_string", "setw", "move", "forward") or is_stream(c):
                            continue
                        if ps is None and scaled is False and c["k"] == "ctor" and len(c["a"]) == 1:
                            continue
                        rep.inst("unit", "%s: %s(%s)" % (f["qn"], short(c) or c.get("t", ""), show(a)))
                        # a parameter that is scaled in the callee
                        if not scaled and t is not None and i < len(ps) and scaled_inside(prog, t, ps[i], 0):
                            continue
                        if not scaled:
                            rep.viol("unit", "%s %s" % (f["qn"], nm), loc(f, c), "%s, an amount in gigabytes, is passed to %s as it is" % (nm, short(c) or c.get("t", "")))


def is_stream(c):
    return "ostream" in (c.get("fn") or "")


def scaled_inside(prog, t, par, depth):
    if not t.get("body") or depth > 3:
        return False
    for n in walk({"k": "x", "i": t.get("inits") or [], "b": t["body"]}):
        if n["k"] == "bin" and n["op"] == "*":
            for a, b in ((n["x"], n["y"]), (n["y"], n["x"])):
                if strip(a).get("id") == par["id"] and const_int(b) == GB:
                    return True
    return False


# ------------------------------------------------------------------ configuration
def jpath(F, e):
    """(object path, [keys]) of a chain obj["a"]["b"]."""
    keys = []
    e = strip(e)
    while True:
        if e["k"] == "call" and e.get("op") == "[]" and len(e["a"]) == 2 and "json" in (e.get("fn") or ""):
            o, k = e["a"]
        elif e["k"] == "call" and short(e) in ("at", "value") and e.get("o") and "json" in (e.get("fn") or "") and e["a"]:
            o, k = e["o"], e["a"][0]
        elif e["k"] == "ref" and "id" in e and F.single(e["id"]) is not None and "json" in (F.vars[e["id"]].get("t") or "") and keys:
            i = strip(F.single(e["id"]))
            if i["k"] == "call":
                e = i
                continue
            break
        else:
            break
        k = strip(k)
        if k["k"] == "ctor" and k["a"]:
            k = strip(k["a"][0])
        if k["k"] != "str":
            return None
        keys.insert(0, k["v"])
        e = strip(o)
    if not keys:
        return None
    return F.path(e), tuple(keys)


def outermost(F, n):
    """Is this access not part of a longer one?"""
    p = F.parent.get(id(n))
    while p is not None and p["k"] == "cast":
        p = F.parent.get(id(p))
    return not (p is not None and p["k"] == "call" and p.get("op") == "[]" and strip(p["a"][0]) is n)


def tests(F, e):
    """[(object, key)] whose presence a condition tests."""
    out = []
    for n in walk(e):
        if n["k"] == "call" and short(n) in ("find", "count", "contains") and n.get("o") and "json" in (n.get("fn") or "") and n["a"]:
            k = strip(n["a"][0])
            if k["k"] == "ctor" and k["a"]:
                k = strip(k["a"][0])
            if k["k"] == "str":
                out.append((F.path(n["o"]), k["v"]))
    return out


def json_fns(prog):
    for k in sorted(prog.all_keys()):
        raw = prog.raw["F"][k]
        if b"basic_json" not in raw or k.startswith("T:"):
            continue
        f = prog.fn(k)
        if f["file"].startswith("src/") and f.get("body"):
            yield f


def sinks(prog, F, e, depth=0):
    """What happens with a value: {('mem', field)}, {('call', object, function, position)}, {('key', ...)}; locals are followed."""
    out = set()
    p = F.parent.get(id(e))
    c = e
    while p is not None and (p["k"] == "cast" or p["k"] in ("ctor", "list") and len(p["a"]) == 1 or p["k"] == "call" and p.get("fn") == "std::move"
                             or p["k"] == "call" and ("operator" in (p.get("fn") or "") and p.get("o") is c or short(p) == "get") and "json" in (p.get("fn") or "")):
        c, p = p, F.parent.get(id(p))
    if p is None:
        return out
    if p["k"] == "var":
        for u in walk(F.f["body"]):
            if u["k"] == "ref" and u.get("id") == p["id"] and depth < 4:
                out |= sinks(prog, F, u, depth + 1)
        return out
    if p["k"] == "bin" and p["op"] == "=" and c is p["y"] or p["k"] == "call" and p.get("op") == "=" and len(p["a"]) == 2 and c is p["a"][1]:
        x = strip(p["x"] if p["k"] == "bin" else p["a"][0])
        jp = jpath(F, x)
        if jp:
            out.add(("key", jp[1]))
        elif x["k"] == "mem":
            out.add(("mem", x["f"]))
        elif x["k"] == "ref" and "id" in x:
            for u in walk(F.f["body"]):
                if u["k"] == "ref" and u.get("id") == x["id"] and not is_target(F, u) and depth < 4:
                    out |= sinks(prog, F, u, depth + 1)
        return out
    if p["k"] in ("call", "ctor") and not p.get("op"):
        for i, a in enumerate(p["a"]):
            if a is c:
                o = strip(p["o"]) if p.get("o") else None
                out.add(("call", show(o) if o is not None else "", short(p) or p.get("t", ""), i))
        return out
    if p["k"] in ("if", "cond", "un", "bin", "while"):
        out.add(("cond",))
    return out


def config(prog, rep):
    stored = {}      # keys -> [(f, F, node, source expr)]
    restored = {}    # keys -> [(f, F, node)]
    conf = None
    fns = list(json_fns(prog))
    Fs = {f["key"]: Fn(prog, f) for f in fns}
    writers, readers = [], []
    for f in fns:
        F = Fs[f["key"]]
        for n in walk(f["body"]):
            if n["k"] == "call" and n.get("op") in ("<<", ">>") and len(n["a"]) == 2:
                o = strip(n["a"][1])
                if o["k"] == "mem" and "json" in (o.get("t") or "") and "basic_json" in o.get("t", ""):
                    s = strip(n["a"][0])
                    if "fstream" in (s.get("t") or ""):
                        (writers if n["op"] == "<<" else readers).append((f, o["f"], n))
    fields = {w[1] for w in writers} & {r[1] for r in readers}
    if len(fields) != 1:
        raise AnalysisError("expected one configuration that is written and read, found %s" % sorted(fields))
    conf = fields.pop()
    loaders = {r[0]["key"] for r in readers if r[1] == conf}
    dead, readkeys, unread = set(), set(), []
    for f in fns:
        F = Fs[f["key"]]
        obj = {}
        for n in walk(f["body"]):
            if n["k"] == "if":
                for o, key in tests(F, n["c"]):
                    inner = set()
                    br = n["x"]
                    neg = strip(n["c"])
                    absent = neg["k"] == "call" and neg.get("op") == "==" or neg["k"] == "un" and neg["op"] == "!" or neg["k"] == "bin" and neg["op"] == "=="
                    if absent:
                        br = n.get("y")
                    for a in walk(br) if br else ():
                        jp = jpath(F, a) if a["k"] == "call" else None
                        if jp and outermost(F, a) and jp[0] == o and not is_target(F, a):
                            inner.add(jp[1][0])
                    if leaves(br) and not inner and not absent:
                        dead.add(key)
                        continue
                    if f["file"].endswith("Server.cpp"):
                        continue
                    if not absent or inner:
                        rep.inst("key", "%s: \"%s\"" % (f["qn"], key))
                        if inner and key not in inner:
                            rep.viol("key", "%s %s" % (f["qn"], key), loc(f, n), "%s tests for the setting \"%s\" but reads \"%s\"" % (f["qn"], key, ", ".join(sorted(inner))))
                        elif inner - {key}:
                            rep.viol("key", "%s %s" % (f["qn"], key), loc(f, n), "%s tests for the setting \"%s\" but also reads \"%s\"" % (f["qn"], key, ", ".join(sorted(inner - {key}))))
                        if inner:
                            readkeys.add((f["qn"], key))
                        if not inner and not absent:
                            unread.append((f, key, n))
            if n["k"] != "call":
                continue
            jp = jpath(F, n)
            if not jp or not outermost(F, n):
                continue
            if jp[0][-1] == conf.rsplit("::", 1)[-1]:
                if is_target(F, n):
                    p = F.parent[id(n)]
                    stored.setdefault(jp[1], []).append((f, F, n, p["y"] if p["k"] == "bin" else p["a"][1]))
                else:
                    restored.setdefault(jp[1], []).append((f, F, n))
    # each setting has a member of its own
    own = {}
    for f in fns:
        F = Fs[f["key"]]
        for n in walk(f["body"]):
            jp = jpath(F, n) if n["k"] == "call" else None
            if jp and outermost(F, n) and not is_target(F, n):
                for x in sinks(prog, F, n):
                    if x[0] == "mem":
                        own.setdefault((f["qn"], x[1]), {}).setdefault("/".join(jp[1]), (f, n))
    for (qn, m), ks in sorted(own.items()):
        rep.inst("key", "%s: \"%s\" -> %s" % (qn, ", ".join(sorted(ks)), m))
        if len(ks) > 1:
            f, n = sorted(ks.items())[-1][1]
            rep.viol("key", "%s shared" % m, loc(f, n), "the settings \"%s\" are stored in the same member %s" % ("\" and \"".join(sorted(ks)), m))
    for f, key, n in unread:
        # instantiations of a template may each contain a part of it
        if (f["qn"], key) not in readkeys:
            rep.viol("key", "%s %s" % (f["qn"], key), loc(f, n), "%s tests for the setting \"%s\" but does not read it" % (f["qn"], key))
    # same name on both sides of a copy
    for keys, l in sorted(stored.items()):
        for f, F, n, src in l:
            s = value_of(src)
            jp = jpath(F, s)
            srcs = {jp[1]} if jp else set()
            if s["k"] == "ref" and "id" in s:
                for y, _ in F.assign.get(s["id"], []):
                    j2 = jpath(F, strip(y))
                    if j2:
                        srcs.add(j2[1])
                i = F.vars.get(s["id"], {}).get("init")
                j2 = jpath(F, strip(i)) if i else None
                if j2:
                    srcs.add(j2[1])
            for x in srcs:
                rep.inst("key", "%s: stored \"%s\"" % (f["qn"], "/".join(keys)))
                if x != keys:
                    rep.viol("key", "%s stored %s" % (f["qn"], "/".join(keys)), loc(f, n), "%s stores the setting \"%s\" under the name \"%s\"" % (f["qn"], "/".join(x), "/".join(keys)))
    # stored <-> restored
    for keys, l in sorted(stored.items()):
        rl = [r for r in restored.get(keys, []) if r[0]["key"] in loaders]
        name = "/".join(keys)
        rep.inst("restore", "\"%s\"" % name)
        if not rl:
            rep.viol("restore", name, loc(l[0][0], l[0][2]), "the setting \"%s\" is stored with the index but not restored" % name)
            continue
        rs = set()
        for f, F, n in rl:
            rs |= sinks(prog, F, n)
        if not rs:
            rep.viol("restore", name, loc(rl[0][0], rl[0][2]), "the setting \"%s\" is read but not used" % name)
        for f, F, n, src in l:
            s = value_of(src)
            if s["k"] == "mem":
                ms = {x for x in rs if x[0] == "mem"}
                if ms and ("mem", s["f"]) not in ms:
                    rep.viol("restore", name + " member", loc(rl[0][0], rl[0][2]), "\"%s\" is stored from %s but restored to %s" % (name, s["n"], ", ".join(sorted(x[1] for x in ms))))
                continue
            want = set()
            if s["k"] == "ref" and "id" in s:
                for u in walk(F.f["body"]):
                    if u["k"] == "ref" and u.get("id") == s["id"] and not is_target(F, u):
                        want |= sinks(prog, F, u)
            elif jpath(F, s):
                jp = jpath(F, s)
                for u in walk(F.f["body"]):
                    if u["k"] == "call" and jpath(F, u) == jp and outermost(F, u):
                        want |= sinks(prog, F, u)
            want = {w for w in want if w[0] in ("call", "mem") and w[2:3] != ("operator<<",) and (w[0] == "mem" or w[1])}
            for w in sorted(want):
                if w not in rs:
                    rep.viol("restore", "%s %s" % (name, w[2] if w[0] == "call" else w[1]), loc(rl[0][0], rl[0][2]),
                             "the build uses \"%s\" for %s, opening the index does not" % (name, "%s.%s" % (w[1], w[2]) if w[0] == "call" else w[1]))
            for r in sorted(rs):
                if want and r[0] == "call" and r not in want and r[1]:
                    rep.viol("restore", "%s %s extra" % (name, r[2]), loc(rl[0][0], rl[0][2]), "opening the index uses \"%s\" for %s.%s, the build does not" % (name, r[1], r[2]))
    for keys, rl in sorted(restored.items()):
        rl = [r for r in rl if r[0]["key"] in loaders]
        if rl and keys not in stored and keys[0] not in dead:
            rep.inst("restore", "\"%s\" read" % "/".join(keys))
            if not any(s[:len(keys)] == keys for s in stored):
                rep.viol("restore", "/".join(keys) + " unknown", loc(rl[0][0], rl[0][2]), "the setting \"%s\" is restored but never stored" % "/".join(keys))
    late(prog, rep, conf, stored, {w[0]["key"] for w in writers if w[1] == conf})
    defaults(prog, rep, fns, Fs)


def late(prog, rep, conf, stored, wkeys):
    """No setting is stored after the configuration was written; the build writes it on every normal way out."""
    direct = {}
    for keys, l in stored.items():
        for f, F, n, src in l:
            direct.setdefault(f["key"], []).append("/".join(keys))
    memo = {}

    def storing(k, depth=0):
        if k in memo:
            return memo[k]
        memo[k] = set(direct.get(k, []))
        f = prog.fn(k)
        if f and f.get("body") and f["file"].startswith("src/index") and depth < 4:
            for c in walk(f["body"]):
                if c["k"] == "call":
                    for t in prog.targets(c):
                        memo[k] |= storing(t, depth + 1)
        return memo[k]
    bases = {prog.fn(k)["qn"] for k in direct}
    n = 0
    for k in sorted(prog.all_keys()):
        if k.startswith("T:"):
            continue
        f = prog.fn(k)
        if not f["file"].startswith("src/") or not f.get("body") or k in wkeys:
            continue
        if not any(b"%s" % w.split("(")[0].rsplit("::", 1)[-1].encode() in prog.raw["F"][k] for w in wkeys):
            continue
        F = Fn(prog, f)
        ws = [c for c in walk(f["body"]) if c["k"] == "call" and set(prog.targets(c)) & wkeys]
        if not ws:
            continue
        st = storing(k)
        if not st:
            continue
        n += 1
        rep.inst("late", "%s writes the configuration" % f["qn"])
        first = min(F.order[id(c)] for c in ws)
        for c in walk(f["body"]):
            if F.order.get(id(c), 0) <= first:
                continue
            keys = set()
            if c["k"] == "call":
                for t in prog.targets(c):
                    keys |= storing(t)
                jp = jpath(F, c)
                if jp and jp[0][-1] == conf.rsplit("::", 1)[-1] and is_target(F, c):
                    keys.add("/".join(jp[1]))
            if keys and F.order[id(c)] > max(F.order[id(w)] for w in ws):
                rep.viol("late", "%s %s" % (f["qn"], ", ".join(sorted(keys))), loc(f, c), "%s stores %s after the configuration was written" % (f["qn"], ", ".join(sorted(keys))))
        for w in ws:
            g = [x for x in F.guards(w) if x[2]["k"] in ("if", "for", "while", "cond")]
            if g and len(ws) == 1:
                rep.viol("late", "%s conditional" % f["qn"], loc(f, w), "%s writes the configuration only if %s" % (f["qn"], show(g[0][0])))
    if not n:
        raise AnalysisError("no function stores settings and writes the configuration")


def defaults(prog, rep, fns, Fs):
    """Members that a settings file can change and whose default is a named constant: the constant is used nowhere else."""
    ch = {}
    for f in fns:
        F = Fs[f["key"]]
        for x, y, n in assigned([f["body"]]):
            if x["k"] == "mem" and any(c["k"] == "call" and jpath(F, c) for c in walk(y)):
                ch.setdefault(x["f"], f)
    for field, f in sorted(ch.items()):
        cls, nm = field.rsplit("::", 1)
        rec = prog.records.get(cls)
        fd = next((x for x in rec["fields"] if x["n"] == nm), None) if rec else None
        init = fd.get("init") if fd else None
        rep.inst("default", field)
        if not field_read(prog, field, f["key"]):
            rep.viol("default", field, loc(f), "the setting stored in %s is never used" % field)
        if not init:
            continue
        consts = {n.get("n") for n in walk(init) if n["k"] == "ref" and n.get("dk") == "global"}
        for k in sorted(prog.all_keys()):
            raw = prog.raw["F"][k]
            if k.startswith("T:") or not any(c.encode() in raw for c in consts):
                continue
            g = prog.fn(k)
            if not g.get("body") or not g["file"].startswith("src/index"):
                continue
            G = Fn(prog, g)
            for n in walk(g["body"]):
                if n["k"] == "ref" and n.get("n") in consts and not is_in_log(G, n):
                    # a parameter that is only logged is harmless
                    p = next((a for a in G.ancestors(n) if a["k"] == "call"), None)
                    if p is not None and only_logged(prog, p, n):
                        continue
                    rep.viol("default", "%s %s" % (field, g["qn"]), loc(g, n), "%s uses the default %s in place of the setting %s" % (g["qn"], n["n"], nm))


def only_logged(prog, call, n):
    for k in prog.targets(call):
        t = prog.fn(k)
        if not t or not t.get("body"):
            return False
        for i, a in enumerate(call["a"]):
            if strip(a) is n and i < len(t["params"]):
                T = Fn(prog, t)
                return all(is_in_log(T, u) for u in walk(t["body"]) if u["k"] == "ref" and u.get("id") == t["params"][i]["id"])
    return False


if __name__ == "__main__":
    run("C20", check, level="checked-over-all-paths",
        explanation="The option tables, short-option strings, handlers, help texts and option variables of all programs, and the names under which settings are read, "
                    "stored and restored, are taken from the resolved syntax tree and compared with each other.",
        assumptions=["names of options, parameters and setters that share words mean the same thing", "getopt_long behaves as documented"])
