"""C23: every kind of thing that is distinguished is handled or rejected, and is called by its name."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, children, AnalysisError
from place import Fn, leaves

ENDS = ("exit", "abort", "_exit", "quick_exit", "terminate", "rethrow_exception", "throw_with_nested")


def norm(s):
    return re.sub(r"[^a-z0-9]", "", s.lower())


def rejects(s):
    """Does the statement always end in an error?"""
    if s is None:
        return False
    if s["k"] == "throw" or s["k"] == "call" and short(s) in ENDS:
        return True
    if s["k"] == "blk":
        return any(rejects(x) for x in s["s"] if x is not None)
    if s["k"] == "if":
        c = strip(s["c"])
        if c["k"] == "un" and c["op"] == "!" and strip(c["x"])["k"] == "bool" and not strip(c["x"]).get("v"):
            return rejects(s["x"])
        return bool(s.get("y")) and rejects(s["x"]) and rejects(s["y"])
    if s["k"] == "cast":
        return rejects(s.get("e"))
    if s["k"] == "do":
        return rejects(s["body"])
    return False


def stops(s):
    return leaves(s) or rejects(s)


def may_leave(s):
    return any(n["k"] in ("break", "ret", "throw", "cont") for n in walk(s, into_lambdas=False))


def idle(st):
    """Statements that do nothing."""
    for s in st:
        if s is None or s["k"] in ("nop", "break", "log"):
            continue
        if s["k"] == "blk" and idle(s["s"]):
            continue
        if s["k"] == "cast" and s.get("e") and strip(s["e"])["k"] in ("int", "ref", "bool"):
            continue
        return False
    return True


class Arm:
    def __init__(self, line):
        self.labels, self.default, self.st, self.line, self.next = [], False, [], line, None


def arms(sw):
    """The groups of labels of a switch with the statements behind them."""
    out = []
    body = sw["body"]["s"] if sw["body"]["k"] == "blk" else [sw["body"]]
    for s in body:
        if s is None:
            continue
        first = True
        while s is not None and s["k"] in ("case", "default"):
            if first and not (out and not out[-1].st):
                out.append(Arm(s["l"]))
            first = False
            if s["k"] == "default":
                out[-1].default = True
            else:
                out[-1].labels.append(s.get("cv"))
            s = s.get("s")
        if out and s is not None:
            out[-1].st.append(s)
    for i, a in enumerate(out[:-1]):
        if not any(stops(s) for s in a.st):
            a.next = out[i + 1]
    return out


def reached(a):
    """Statements executed from the label of an arm on."""
    st = []
    while a is not None:
        st += a.st
        a = a.next
    return st


def source_fns(prog):
    for f in prog.all_fns():
        if f["file"].startswith("src/") and f.get("body"):
            yield f


def occurring(prog):
    """{enum: enumerators that some value can have}: those named outside of labels and comparisons; all of them when
    numbers are converted to the enumeration."""
    occ, conv = {}, set()

    def see(n, cmp):
        if n["k"] == "ref" and n.get("dk") == "enum":
            if not cmp:
                occ.setdefault(n.get("en"), set()).add(n["n"])
            return
        if n["k"] == "cast" and n.get("st") and n.get("t") in prog.enums and strip(n["e"])["k"] != "ref":
            conv.add(n["t"])
        c = n["k"] in ("bin", "call") and n.get("op") in ("==", "!=")
        for x in children(n):
            see(x, c)
    for f in source_fns(prog):
        see(f["body"], False)
        for i in f.get("inits") or []:
            if isinstance(i, dict):
                for x in children(i):
                    see(x, False)
        for p in f.get("params", []):
            if isinstance(p.get("def"), dict):
                see(p["def"], False)
    for g in prog.raw["G"]:
        g = prog.global_(g)
        if g and g.get("init"):
            see(g["init"], False)
    for r in prog.records.values() if isinstance(prog.records, dict) else []:
        for fl in r.get("fields", []):
            if isinstance(fl, dict) and isinstance(fl.get("init"), dict):
                see(fl["init"], False)
    return occ, conv


def names_in(st):
    """Names and short texts that statements mention: [(text, node)]."""
    for s in st:
        for n in walk(s):
            if n["k"] == "str" and len(n["v"]) < 60:
                yield n["v"], n
            elif n["k"] in ("mem",) and n.get("n"):
                yield n["n"], n
            elif n["k"] == "ref" and n.get("dk") != "enum" and n.get("n"):
                yield n["n"], n
            elif n["k"] == "call" and not n.get("op"):
                yield short(n), n


def match(text, enums):
    """The enumerator a text is made from, if any."""
    t = norm(text)
    best = None
    for e in enums:
        m = norm(e)
        if t == m or len(m) >= 5 and m in t:
            if best is None or len(m) > len(norm(best)):
                best = e
    return best


def str_value(prog, e, depth=0):
    """The text a constant string expression has, or None."""
    e = strip(e)
    if e is None or depth > 12:
        return None
    if e["k"] == "str":
        return e["v"]
    if e["k"] in ("ctor", "list") and e.get("a"):
        return str_value(prog, e["a"][0], depth + 1)
    if e["k"] == "call" and e.get("op") == "+" and len(e["a"]) == 2:
        a, b = str_value(prog, e["a"][0], depth + 1), str_value(prog, e["a"][1], depth + 1)
        return a + b if a is not None and b is not None else None
    if e["k"] in ("ref", "mem"):
        for k in (e.get("g"), e.get("fk"), e.get("f")):
            if k and k in prog.raw["G"]:
                g = prog.global_(k)
                if g.get("init"):
                    return str_value(prog, g["init"], depth + 1)
    return None


def alternatives(p):
    """The words of a pattern that is a list of words, else None."""
    m = re.fullmatch(r"(?:\(\?i\))?\(?([A-Za-z_]+(?:\|[A-Za-z_]+)*)\)?", p)
    return m.group(1).split("|") if m else None


def bare(p):
    return re.sub(r"^\(\?i\)|[()]", "", p)


def check(prog, rep):
    rep.rule("handled", "in a switch over an enumeration every value that can occur has a label or the rest is rejected or handled by default", 25)
    rep.rule("break", "the statements of one label do not run on into those of the next", 100)
    rep.rule("alike", "a kind that the switches of a class handle is not rejected in one of them", 5)
    rep.rule("own", "a label that mentions the name of a kind mentions its own", 60)
    rep.rule("table", "a table of names that is indexed by an enumeration has the name of each value at its place", 8)
    rep.rule("repeat", "a chain of comparisons does not test for the same kind twice", 10)
    rep.rule("words", "every word the lexer recognises is handled by the parser", 25)
    rep.rule("shadow", "no pattern or word of the lexer hides a longer one that is tried later", 8)
    occ, conv = occurring(prog)
    sws = []
    seen = set()
    for f in source_fns(prog):
        for n in walk(f["body"]):
            if n["k"] == "switch" and (f["file"], n["l"]) not in seen:
                seen.add((f["file"], n["l"]))
                sws.append((f, n))
    rep.part(switches, prog, rep, sws, occ, conv)
    rep.part(tables, prog, rep)
    rep.part(chains, prog, rep)
    rep.part(lexer, prog, rep)
    rep.extra["switches"] = len(sws)


def switches(prog, rep, sws, occ, conv):
    byclass = {}
    for f, n in sws:
        t = n.get("t", "").replace("const ", "").strip()
        A = arms(n)
        where = loc(f, n)
        cond = strip(n["c"])
        # run on
        for a in A:
            if a.next is None:
                if a.st:
                    rep.inst("break", "%s label in %s" % (loc(f, {"l": a.line}), f["qn"]))
                continue
            rep.inst("break", "%s label in %s" % (loc(f, {"l": a.line}), f["qn"]))
            last = [s for s in a.st if s is not None]
            if any(s["k"] == "nop" for s in last) or any(may_leave(s) for s in last) or idle(last):
                continue
            rep.viol("break", "%s:%s" % (f["qn"], a.labels), "%s:%d" % (f["file"], a.line),
                     "the statements for one label run on into those of the next (line %d) in %s" % (a.next.line, f["qn"]))
        if t not in prog.enums:
            continue
        enums = [(x[0], x[1]) for x in prog.enums[t]["e"]]
        val = {}
        for nm, v in enums:
            val.setdefault(v, nm)
        have = {l for a in A for l in a.labels}
        missing = [nm for nm, v in enums if v not in have and val[v] == nm and (t in conv or nm in occ.get(t, ()))]
        const = cond["k"] == "ref" and cond.get("v") is not None or cond["k"] in ("int",)
        if not const:
            rep.inst("handled", "%s switch over %s: %d labels" % (where, t, len(have)))
        dflt = [a for a in A if a.default]
        rejected = set()
        for a in dflt:      # a label of its own that rejects is a decision; falling to the default is not
            if any(rejects(s) for s in reached(a)):
                rejected |= set(missing)
        if missing and not const:
            if dflt:
                if idle(reached(dflt[0])):
                    rep.viol("handled", "%s:%s" % (f["qn"], ",".join(missing)), where,
                             "%s is silently ignored: no label, and the default does nothing (switch over %s in %s)" % (", ".join(missing), t, f["qn"]))
            else:
                nxt = following(f, n)
                if not rejects(nxt):
                    rep.viol("handled", "%s:%s" % (f["qn"], ",".join(missing)), where,
                             "%s has no label in the switch over %s in %s and is not rejected" % (", ".join(missing), t, f["qn"]))
                else:
                    rejected |= set(missing)
        # an arm that does nothing although the others do something
        if not const:
            for a in A:
                ls = [val[l] for l in a.labels if l in val]
                if ls and not a.default and idle(reached(a)) and not all(idle(reached(b)) for b in A if b is not a):
                    rep.viol("handled", "%s:%s:empty" % (f["qn"], ",".join(ls)), "%s:%d" % (f["file"], a.line),
                             "nothing is done for %s in the switch over %s in %s" % (", ".join(ls), t, f["qn"]))
        guarded = bool([g for g in Fn(prog, f).guards(n) if g[2]["k"] == "if"])
        if not const and f.get("cls"):
            byclass.setdefault((f["cls"], t), []).append((f, n, rejected, guarded, {val[l] for l in have if l in val} | (set(missing) if dflt else set())))
        own(prog, rep, f, n, A, val, [e[0] for e in enums])
    for (c, t), L in sorted(byclass.items()):
        if len(L) < 2:
            continue
        rep.inst("alike", "%s: %d switches over %s" % (c, len(L), t))
        for f, n, rej, guarded, have in L:
            if guarded:
                continue
            for e in sorted(rej):
                ok = [x for x in L if x[1] is not n and e in x[4] and e not in x[2]]
                if len(ok) * 2 > len(L) - 1:
                    rep.viol("alike", "%s:%s" % (f["qn"], e), loc(f, n),
                             "%s is rejected in %s but handled in %s" % (e, f["qn"], ", ".join(sorted({x[0]["qn"] for x in ok}))))


def following(f, n):
    for b in walk(f["body"]):
        if b["k"] == "blk":
            ss = [s for s in b["s"] if s is not None]
            for i, s in enumerate(ss):
                if s is n:
                    for x in ss[i + 1:]:
                        if x["k"] in ("nop", "log"):
                            continue
                        return x
                    return None
    return None


def own(prog, rep, f, n, A, val, names):
    ok, bad = 0, []
    for a in A:
        mine = [val[l] for l in a.labels if l in val]
        if not mine or a.default:
            continue
        hit, other = set(), []
        for text, node in names_in(a.st):
            m = match(text, names)
            if m is None:
                continue
            if m in mine:
                hit.add(m)
            else:
                other.append((m, text, node))
        if hit:
            ok += 1
            rep.inst("own", "%s %s" % (loc(f, {"l": a.line}), ",".join(mine)))
        elif other:
            bad.append((a, mine, other))
    if ok >= 2 and ok > len(bad):
        for a, mine, other in bad:
            m, text, node = other[0]
            rep.viol("own", "%s:%s" % (f["qn"], mine[0]), "%s:%d" % (f["file"], node.get("l", a.line)),
                     "the label %s of the switch in %s uses %s, which belongs to %s" % (mine[0], f["qn"], text, m))


def tables(prog, rep):
    """Arrays indexed by a value of an enumeration."""
    seen = {}
    for f in source_fns(prog):
        for n in walk(f["body"]):
            if n["k"] == "sub":
                b, i = n["b"], n["i"]
            elif n["k"] == "call" and n.get("op") == "[]" and len(n["a"]) == 2:
                b, i = n["a"]
            else:
                continue
            e = i
            en = None
            while e is not None and e["k"] == "cast":
                e = e["e"]
                if e is not None and e.get("t", "").replace("const ", "").strip() in prog.enums:
                    en = e["t"].replace("const ", "").strip()
            if e is not None and e["k"] == "call" and short(e) in ("to_underlying",) and e["a"]:
                en = strip(e["a"][0]).get("t", "").replace("const ", "").strip()
            if en not in prog.enums:
                continue
            b = strip(b)
            g = None
            for k in (b.get("g"), b.get("fk"), b.get("f")):
                if k and k in prog.raw["G"]:
                    g = prog.global_(k)
            if g is None or not g.get("init") or (g["file"], g["n"] if "n" in g else show(b)) in seen:
                continue
            seen[(g["file"], g.get("n", show(b)))] = True
            init = strip(g["init"])
            els = init.get("a") or []
            if init["k"] in ("ctor", "list") and len(els) == 1 and strip(els[0])["k"] == "list":
                els = strip(els[0])["a"]
            texts = [str_value(prog, x) for x in els]
            enums = prog.enums[en]["e"]
            for nm, v in enums:
                rep.inst("table", "%s[%s]" % (show(b), nm))
                if v < 0 or v >= len(texts):
                    rep.viol("table", "%s:%s" % (show(b), nm), "%s:%d" % (g["file"], g.get("l", 0)),
                             "the table %s has %d entries; %s is number %d and is read behind its end" % (show(b), len(texts), nm, v))
                elif texts[v] is not None:
                    m = match(texts[v], [x[0] for x in enums])
                    if m is not None and m != nm and norm(texts[v]) == norm(m):
                        rep.viol("table", "%s:%s" % (show(b), nm), "%s:%d" % (g["file"], g.get("l", 0)),
                                 "the table %s has %r as the name of %s" % (show(b), texts[v], nm))


def tested(c):
    """[(what is tested, the kind)] when the condition is made of comparisons with kinds, else []."""
    c = strip(c)
    if c["k"] == "bin" and c["op"] == "||":
        a, b = tested(c["x"]), tested(c["y"])
        return a + b if a and b else []
    if c["k"] in ("bin", "call") and c.get("op") == "==":
        x, y = (c["x"], c["y"]) if c["k"] == "bin" else c["a"][:2]
        x, y = strip(x), strip(y)
        for a, b in ((x, y), (y, x)):
            if b["k"] == "ref" and b.get("dk") == "enum":
                return [(show(a), b["n"])]
            if b["k"] == "str":
                return [(show(a), b["v"])]
            if b["k"] == "char":
                return [(show(a), b["v"])]
    if c["k"] == "call" and short(c) == "accept" and c["a"]:
        b = c["a"][0]
        for x in walk(b):
            if x["k"] == "str":
                return [(short(c), x["v"].lower())]
            if x["k"] == "ref" and x.get("dk") == "enum":
                return [(short(c), x["n"])]
    return []


def chains(prog, rep):
    seen = set()
    for f in source_fns(prog):
        if f["file"] in seen and "<" in f["qn"]:
            continue
        inner = set()
        for n in walk(f["body"]):
            if n["k"] != "if" or id(n) in inner:
                continue
            ch, m = [], n
            while m is not None and m["k"] == "if":
                inner.add(id(m))
                ch.append((m, tested(m["c"])))
                m = m.get("y")
            if len([c for c in ch if c[1]]) < 2 or (f["file"], n["l"]) in seen:
                continue
            seen.add((f["file"], n["l"]))
            rep.inst("repeat", "%s chain of %d tests in %s" % (loc(f, n), len(ch), f["qn"]))
            have = {}
            for m, ts in ch:
                for s, k in ts:
                    if s == "accept":
                        continue        # a word that lost its rule is found by the rule on words
                    if (s, k) in have and "(" not in s.replace("()", ""):
                        rep.viol("repeat", "%s:%s" % (f["qn"], k), loc(f, m),
                                 "%s is compared with %s a second time in the same chain in %s: this branch is never taken" % (s, k, f["qn"]))
                    have[(s, k)] = True


def lexer(prog, rep):
    """The patterns of the lexer in the order they are tried, and the words the parser knows."""
    fs = [f for f in source_fns(prog) if f.get("cls") == "SparqlLexer"]
    pats = []
    enum = [e for e in prog.enums if e.startswith("SparqlToken::")]
    if not fs or not enum:
        raise AnalysisError("the lexer of queries is not found")
    kinds = [x[0] for x in prog.enums[enum[0]]["e"]]
    for f in fs:
        got = []
        for n in walk(f["body"]):
            if n["k"] == "if":
                cs = [c for c in walk(n["c"]) if c["k"] == "call" and short(c) in ("Consume", "FullMatch", "PartialMatch", "FindAndConsume")]
                if not cs:
                    continue
                pat = None
                for a in cs[0]["a"]:
                    for x in walk(a):
                        for k in (x.get("g"), x.get("fk"), x.get("f")) if x["k"] in ("ref", "mem") else ():
                            if k and k in prog.raw["G"] and prog.global_(k).get("init"):
                                pat = (x["n"], prog.global_(k))
                if pat is None:
                    continue
                text = None
                for x in walk(pat[1]["init"]):
                    text = text or str_value(prog, x) if x["k"] in ("ref", "mem", "str", "ctor", "call") else text
                got.append((pat[0], text, n))
                # the kind the token gets
                asg = [strip(y) for s in walk(n["x"]) for y in ([s["y"]] if s["k"] == "bin" and s["op"] == "=" else
                       [s["a"][1]] if s["k"] == "call" and s.get("op") == "=" and len(s["a"]) == 2 else [])]
                asg = [y["n"] for y in asg if y["k"] == "ref" and y.get("dk") == "enum"]
                m = match(pat[0], kinds) or next((k for k in kinds if norm(pat[0]) == "re" + norm(k)), None)
                if asg and m:
                    rep.inst("own", "%s pattern %s" % (loc(f, n), pat[0]))
                    if asg[0] != m:
                        rep.viol("own", "lexer:%s" % pat[0], loc(f, n), "text that matches %s becomes a token of kind %s" % (pat[0], asg[0]))
        if len(got) > len(pats):
            pats, pf = got, f
    if len(pats) < 5:
        raise AnalysisError("the patterns of the lexer are not found")
    words = {}
    for i, (nm, text, n) in enumerate(pats):
        rep.inst("shadow", "%s %s" % (loc(pf, n), nm))
        if text is None:
            continue
        w = alternatives(text)
        if w:
            for j, a in enumerate(w):
                words.setdefault(a.lower(), (nm, n))
                for b in w[j + 1:]:
                    if b.lower().startswith(a.lower()) and a.lower() != b.lower():
                        rep.viol("shadow", "%s:%s" % (nm, b), loc(pf, n), "in the pattern %s the word %s comes before %s, which is then never recognised" % (nm, a, b))
        for nm2, t2, n2 in pats[i + 1:]:
            if t2 is None or nm2 == nm:
                continue
            if w and alternatives(t2):
                first = {x.lower() for n0, t0, _ in pats[:i] if t0 and alternatives(t0) for x in alternatives(t0)}
                for a in w:
                    for b in alternatives(t2):
                        if b.lower().startswith(a.lower()) and b.lower() != a.lower() and b.lower() not in first \
                                and b.lower() not in [x.lower() for x in w]:
                            rep.viol("shadow", "%s:%s" % (nm2, b), loc(pf, n2), "%s is tried first and recognises %s, the start of %s" % (nm, a, b))
            elif not w and len(bare(text)) > 3 and bare(t2).startswith(bare(text)) and bare(t2) != bare(text):
                rep.viol("shadow", "%s:%s" % (nm, nm2), loc(pf, n2), "%s is tried before %s and matches the start of everything it would match" % (nm, nm2))
    known = set()
    for f in source_fns(prog):
        if "SparqlParser" in f["file"]:
            for n in walk(f["body"]):
                if n["k"] in ("call", "bin") and (n.get("op") in ("==", "!=") or short(n) in ("accept", "expect", "peek", "compare", "startsWith")
                                                  or any(x["k"] == "ref" for x in n.get("a", [])) and n.get("fn", "").startswith("SparqlLexer")):
                    for x in walk(n):
                        if x["k"] == "str":
                            known.add(x["v"].lower())
    for w, (nm, n) in sorted(words.items()):
        rep.inst("words", "%s (%s)" % (w, nm))
        if w not in known:
            rep.viol("words", w, loc(pf, n), "the word %s is recognised by the pattern %s, but the parser has no rule for it" % (w, nm))


run("C23", check, level="other", explanation="Reads every switch, every table of names indexed by an enumeration, every chain "
    "of comparisons and the patterns of the lexer from the resolved syntax tree, and decides for each kind whether it is handled, "
    "rejected, or silently ignored, and whether the names used for it are its own.")
