"""C21: every column of a result is described correctly."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from place import Fn
from layout import Ev, St, Unreadable, add, lin, atom, text, key

# columns that are described by a member of the operation -> type of their values
NAMED = {"_predicateVarName": "KB", "_countVarName": "VERBATIM"}


def compatible(p, q):
    return all(q.b.get(k, v) == v for k, v in p.b.items()) and all(q.rel.get(k, v) == v for k, v in p.rel.items())


def child_of(t):
    """input from which a segment of types is taken"""
    if t[0] in ("all", "one"):
        return t[1]
    if t[0] == "loop":
        cs = {x[1] for _, _, ps in t[3] for x in ps if x[0] == "one"}
        return cs.pop() if len(cs) == 1 else None
    return None


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.layouts, self.ops = {}, []

    def fn(self, cls, name):
        for c in [cls]:
            for f in self.prog.fns(c + "::" + name):
                if f.get("body"):
                    return f
        return None

    # ------------------------------------------------------------ width and types of the computed result
    def computed(self):
        for cls in sorted(self.prog.subclasses("Operation")):
            cr, wf = self.fn(cls, "computeResult"), self.fn(cls, "getResultWidth")
            if not cr or not wf:
                continue
            self.ops.append(cls)
            ev = Ev(self.prog, cls)
            try:
                paths = [p for p in ev.run(cr, [("out",)]) if p.end != "throw"]
            except Unreadable as e:
                self.rep.extra.setdefault("not_read", []).append("%s::computeResult: %s" % (cls, e))
                continue
            self.layouts[cls] = []
            seen = set()
            for p in paths:
                if p.cols is None:
                    if any(q.cols is not None for q in paths) or True:
                        self.once(seen, "width", cls + ":unset", loc(cr), "%s::computeResult has a way on which the number of columns is not set" % cls)
                    continue
                if not isinstance(p.cols, dict):
                    continue
                p.cols = p.simp(p.cols)
                try:
                    ws = [q for q in ev.run(wf, base=p) if q.end != "throw"]
                except Unreadable:
                    ws = []
                vals = [q.simp(q.ret[1]) for q in ws if q.ret is not None and q.ret[0] == "lin"]
                if vals and len(vals) == len(ws):
                    self.rep.inst("width", "%s: %s columns" % (cls, text(p.cols)))
                    if not any(add(v, p.cols, -1) == {} for v in vals):
                        self.once(seen, "width", "%s:%s" % (cls, text(p.cols)), loc(cr), "the result of %s gets %s columns where %s::getResultWidth reports %s" % (cls, text(p.cols), cls, text(vals[0])))
                # types
                if any(t[0] in ("?", "at") for t in p.types):
                    continue
                n = ev.total(p.types, p)
                if n is None:
                    continue
                want = p.cols
                self.rep.inst("types", "%s: %s types" % (cls, text(n)))
                if add(p.simp(n), p.simp(want), -1) != {} and not self.alike(n, want, cls):
                    self.once(seen, "types", "%s:%s" % (cls, text(n)), loc(cr), "%s::computeResult sets %s value types for %s columns" % (cls, text(n), text(want)))
                    continue
                self.layouts[cls].append((p, ev))
                self.strings(cls, p, cr, seen)
                self.sources(cls, p, cr, seen)

    def alike(self, n, want, cls):
        """A width that is kept in a member cannot be compared here (see 'bound')."""
        return any(a != 1 and a[0] == "m" for a in want)

    def once(self, seen, rid, k, where, msg):
        if (rid, k) not in seen:
            seen.add((rid, k))
            self.rep.viol(rid, k, where, msg)

    def strings(self, cls, p, cr, seen):
        """Columns taken over from an input may be columns of strings: these have to be taken over too."""
        need = set()
        for t in p.types:
            if t[0] == "each":
                need |= {x[1] for _, _, ps in t[2] for x in ps if x[0] == "one"}
            elif t[0] in ("all", "loop") and child_of(t):
                need.add(child_of(t))
        for c in sorted(need):
            self.rep.inst("strings", "%s: strings of %s" % (cls, c))
            if c not in p.vocab:
                self.once(seen, "strings", "%s:%s" % (cls, c), loc(cr), "%s takes over columns of %s with their types, but not the strings (_localVocab) that columns of dynamically assembled strings refer to" % (cls, c))

    def sources(self, cls, p, cr, seen):
        """The type at a position is that of the same column of the same input."""
        for t in p.types:
            if t[0] == "each":
                for rels, facts, ps in t[2]:
                    for x in ps:
                        if x[0] != "one":
                            continue
                        js = [a for a in x[2] if a != 1 and a[0] == "J"]
                        m = re.search(r"\[(\d+)\]$", x[1])
                        if len(js) == 1 and m:
                            self.rep.inst("source", "%s: %s[%d] is a column of %s" % (cls, t[1], js[0][2], x[1]))
                            if int(m.group(1)) != js[0][2]:
                                self.once(seen, "source", "%s:%s:%d" % (cls, x[1], js[0][2]), loc(cr), "%s takes the type of column %s[%d], which is a column of input %d, from %s" % (cls, t[1], js[0][2], js[0][2], x[1]))
            elif t[0] == "loop":
                for rels, facts, ps in t[3]:
                    for x in ps:
                        if x[0] == "one":
                            self.rep.inst("source", "%s: type of a column of %s" % (cls, x[1]))
                            if x[2] != {t[4]: 1}:
                                self.once(seen, "source", "%s:%s" % (cls, x[1]), loc(cr), "%s takes the type of a column of %s from another column (%s)" % (cls, x[1], text(x[2])))
                            hi = add(t[2], t[1], -1)
                            ws = [a for a in hi if a != 1 and a[0] == "W"]
                            if len(ws) == 1 and ws[0][1] != x[1]:
                                self.once(seen, "source", "%s:%s:w" % (cls, x[1]), loc(cr), "%s takes types of %s for the columns of %s" % (cls, x[1], ws[0][1]))

    # ------------------------------------------------------------ columns of the variables
    def offsets(self, p, ev):
        o = {}
        for t in p.types:
            yield o, t
            w = ev.width(t, p)
            o = p.simp(add(o, w))

    def expected(self, p, ev, child, c, rels, facts):
        """Position of column c of an input, by the types; None if it is left out, '?' if not known."""
        for o, t in self.offsets(p, ev):
            if child_of(t) != child:
                continue
            if t[0] == "all":
                return add(o, atom(c))
            if t[0] == "loop" and not t[1]:
                pos = add(o, atom(c))
                for r, f, ps in t[3]:
                    if ps:
                        continue
                    ins = [k for k, v in f.items() if isinstance(k, tuple) and k[0] == "in" and v]
                    if ins:
                        k = ins[0]
                        mine = ("in", k[1], k[2], ((c, 1),))
                        if facts.get(mine):
                            return None
                        pos = add(pos, atom(("cnt", k[1], k[2], "lt", ((c, 1),))), -1)
                        if mine not in facts:
                            return ("unguarded", pos)
                    elif len(r) == 1:
                        d = dict(list(r)[0])
                        rest = {a: x for a, x in d.items() if a != t[4]}
                        k2, sg = key(add(atom(c), rest if d[t[4]] > 0 else add({}, rest, -1)))
                        q = rels.get(k2)
                        if q is None:
                            return ("unguarded", pos)
                        if sg < 0:
                            q = {"lt": "gt", "gt": "lt", "eq": "eq"}[q]
                        if q == "eq":
                            return None
                        if q == "gt":
                            pos = add(pos, lin(1), -1)
                    else:
                        return "?"
                return pos
        return "?"

    def variables(self):
        for cls in self.ops:
            vf = self.fn(cls, "getVariableColumns")
            if not vf or cls not in self.layouts:
                continue
            ev = Ev(self.prog, cls)
            try:
                qs = [q for q in ev.run(vf) if q.end != "throw"]
            except Unreadable as e:
                self.rep.extra.setdefault("not_read", []).append("%s::getVariableColumns: %s" % (cls, e))
                continue
            seen = set()
            for p, pev in self.layouts[cls]:
                if any(t[0] == "rep" for t in p.types) and len(p.types) == 1 and len(self.layouts[cls]) > 1:
                    continue          # no rows
                for q in qs:
                    if not compatible(p, q) or q.ret is None:
                        continue
                    if len([r for r, v in q.rel.items() if v == "eq" and [a[0] for a, _ in r if a != 1] == ["W"]]) > 1:
                        continue          # both inputs are scans of everything: never planned
                    if q.ret[0] == "map":
                        base, sets = q.ret[1], []
                    elif q.ret[0] == "mapval":
                        base, sets = q.ret[1], q.ret[2]
                    else:
                        continue
                    self.compare(cls, p, pev, base, sets, vf, seen)

    def compare(self, cls, p, ev, base, sets, vf, seen):
        each = any(t[0] == "each" for t in p.types)
        if base is not None and not each:
            e = self.expected(p, ev, base, ("c", base, 0), {}, {})
            self.rep.inst("columns", "%s: variables of %s" % (cls, base))
            if e == "?" or isinstance(e, tuple) or e is None or e != atom(("c", base, 0)):
                self.once(seen, "columns", "%s:%s:base" % (cls, base), loc(vf), "%s reports the columns of the variables of %s unchanged, but its result does not start with the columns of %s" % (cls, base, base))
        consts = [(o, t) for o, t in self.offsets(p, ev) if t[0] in ("const", "val", "one")] if not each else []
        used = {}
        if base is None and sets and all(s[0] is not None and s[0][0] == "opaque" for s in sets) and all(t[0] == "const" for t in p.types) and len(sets) != len(p.types):
            return                # a scan has as many columns as variables
        self.permutation(cls, p, sets, vf, seen)
        for k, v, rels, line, facts in sets:
            if k is None or v is None or v[0] != "lin":
                continue
            if any(r in p.rel and p.rel[r] != x for r, x in rels.items()):
                continue
            where = "%s:%s" % (vf["file"], line)
            x = p.simp(v[1])
            if k[0] == "var":
                child = k[1]
                cs = [a for a in x if a != 1 and a[0] == "c"]
                if [a for a in x if a != 1 and a[0] == "carried" and a[3]]:
                    self.rep.inst("order", "%s: %s" % (cls, child))
                    if not each:
                        self.once(seen, "order", "%s:%s" % (cls, child), where, "%s numbers the columns of the variables of %s in the order in which a hash map happens to contain them" % (cls, child))
                    continue
                if any(a != 1 and a[0] == "ctrend" for a in x):
                    rest = {a: n for a, n in x.items() if a == 1 or a[0] != "ctrend"}
                    self.rep.inst("columns", "%s: variables of %s" % (cls, child))
                    if len(cs) != 1 or x[cs[0]] != 1:
                        self.once(seen, "columns", "%s:%s" % (cls, child), where, "%s does not keep the columns of the variables of %s apart" % (cls, child))
                    if not each and not any(child_of(t) == child for t in p.types) and not any(t[0] == "?" for t in p.types):
                        self.once(seen, "source", "%s:%s:absent" % (cls, child), where, "%s reports columns for the variables of %s, but does not take over the types of their values" % (cls, child))
                    continue
                c = cs[0] if len(cs) == 1 else ("c", child, 0)
                e = self.expected(p, ev, child, c, rels, facts)
                self.rep.inst("columns", "%s: variables of %s%s" % (cls, child, " (" + ", ".join("%s %s 0" % (text(dict(r)), y) for r, y in rels.items() if c in dict(r)) + ")" if rels else ""))
                if e == "?":
                    # the values of this input are produced by the operation: its first column is the joined one
                    run_ = [o for o, t in consts if t[0] == "const"]
                    if len(run_) != 2:
                        continue
                    e = add(add(run_[0], atom(c)), lin(1), -1)
                    if rels.get(key(atom(c))[0]) != "gt":
                        self.once(seen, "columns", "%s:%s:first" % (cls, child), where, "%s gives the joined column of %s a column of its own" % (cls, child))
                        continue
                if isinstance(e, tuple):
                    self.once(seen, "columns", "%s:%s:joined" % (cls, child), where, "%s reports a column for the variable of %s that is joined on without telling it from the other columns" % (cls, child))
                elif e is None:
                    self.once(seen, "columns", "%s:%s:left out" % (cls, child), where, "%s reports a column for a variable of %s whose column is not part of the result" % (cls, child))
                elif add(p.simp(e), x, -1) != {}:
                    self.once(seen, "columns", "%s:%s:%s" % (cls, child, sorted(rels.values())), where, "%s reports column %s for a variable of %s that is in column %s" % (cls, text(x), child, text(e)))
            elif k[0] == "opaque":
                nm = k[1]
                tx = repr(sorted(x.items(), key=repr))
                self.rep.inst("columns", "%s: %s" % (cls, nm))
                if tx in used and used[tx] != nm:
                    self.once(seen, "columns", "%s:%s:twice" % (cls, nm), where, "%s reports the same column for %s and %s" % (cls, used[tx], nm))
                used[tx] = nm
                if any(a != 1 and a[0] in ("ctr", "ctrend", "carried") for a in x):
                    continue
                if not each and consts and any(t[0] in ("all", "loop", "const", "one", "val") for t in p.types):
                    hit = [t for o, t in consts if add(o, x, -1) == {}]
                    if not hit and not self.inside(p, ev, x):
                        self.once(seen, "columns", "%s:%s" % (cls, nm), where, "%s reports column %s for %s, which is not a column that it adds to the result" % (cls, text(x), nm))
                    if hit and hit[0][0] == "const":
                        want = NAMED.get(nm) or ("TEXT" if nm == "_cvar" else "VERBATIM" if nm.startswith('"SCORE(') else None)
                        if want and hit[0][1] != want:
                            self.once(seen, "source", "%s:%s:type" % (cls, nm), where, "%s reports column %s for %s, but the values of that column are of type %s" % (cls, text(x), nm, hit[0][1]))

    def scantypes(self):
        """{value: (name, columns)} of the scans: columns by the first letters of subject, predicate and object"""
        out = {}
        for e in self.prog.enums.values():
            for n, v in e["e"]:
                m = re.match(r"(?:(FULL)_INDEX_SCAN_)?([SPO]{3})(?:_(FREE|BOUND)_([SPO]))?$", n)
                if m and (m.group(1) or m.group(3)):
                    out[n] = (v, m.group(2)[0 if m.group(1) else 1 if m.group(3) == "FREE" else 2:])
        return out

    def permutation(self, cls, p, sets, vf, seen):
        t = p.b.get("sw:_type")
        for n, (v, cols) in self.scantypes().items():
            if v != t or not sets or cls + "::" not in vf["qn"] + "::" or "can" not in cls or len(sets) != len(cols):
                continue
            pos = {k[1].lstrip("_")[:1].upper(): x[1].get(1, 0) for k, x, _, _, _ in sets if k[0] == "opaque" and x[0] == "lin"}
            if set(pos) != set(cols):
                continue
            self.rep.inst("columns", "%s: %s" % (cls, n))
            if any(pos[c] != i for i, c in enumerate(cols)):
                self.once(seen, "columns", "%s:%s" % (cls, n), loc(vf), "%s reports the variables of the scan %s in the columns %s" % (cls, n, pos))

    def inside(self, p, ev, x):
        """Whether position x lies in a repeated segment."""
        for o, t in self.offsets(p, ev):
            if t[0] in ("rep", "loop") and child_of(t) is None:
                d = add(x, o, -1)
                if not [a for a in d if a != 1] and d.get(1, 0) >= 0:
                    return True
        return False

    # ------------------------------------------------------------ columns that are kept in members (bound sides of paths)
    def bound(self):
        for cls in self.ops:
            wf, vf = self.fn(cls, "getResultWidth"), self.fn(cls, "getVariableColumns")
            if not wf or not vf or not self.layouts.get(cls):
                continue
            members = {a[1] for p, _ in self.layouts[cls] for a in p.cols if a != 1 and a[0] == "m"}
            if not members:
                continue
            for f in self.prog.all_fns():
                if f.get("cls") != cls or not f.get("body") or f["qn"].endswith("::" + cls.split("::")[-1]):
                    continue
                if not any(n["k"] == "mem" and n["n"] in members for n in walk(f["body"])):
                    continue
                if not any("QueryExecutionTree" in q.get("t", "") for q in f["params"]):
                    continue
                ev = Ev(self.prog, cls)
                args = [("tree", "P%d" % i) if "QueryExecutionTree" in q.get("t", "") else ("lin", atom(("m", "P%d" % i))) if "long" in q.get("t", "") else ("opaque", "P%d" % i) for i, q in enumerate(f["params"])]
                try:
                    res = [r for r in ev.run(f, args) if r.end != "throw"]
                except Unreadable as e:
                    self.rep.extra.setdefault("not_read", []).append("%s: %s" % (f["qn"], e))
                    continue
                seen, done = set(), set()
                for r in res:
                    if repr((r.mem, r.maps)) in done:
                        continue
                    done.add(repr((r.mem, r.maps)))
                    ren = {}
                    for m, v in r.mem.items():
                        if v is not None and v[0] == "tree":
                            ren[v[1]] = m
                        elif v is not None and v[0] == "lin" and len(v[1]) == 1 and list(v[1])[0] != 1 and list(v[1])[0][0] == "m":
                            ren[list(v[1])[0][1]] = m
                    R = lambda a: a if a == 1 else tuple(ren.get(z, z) if isinstance(z, str) else tuple(R(b) if isinstance(b, tuple) else b for b in z) if isinstance(z, tuple) else z for z in a)
                    for mm, (b, sets) in r.maps.items():
                        sets2 = []
                        for k, v, rels, line, facts in sets:
                            if k is None or k[0] != "var" or v is None or v[0] != "lin":
                                continue
                            k2 = ("var", ren.get(k[1], k[1]))
                            rel2 = {}
                            for rk, rv in rels.items():
                                d = {R(a): c for a, c in rk}
                                kk, sg = key(d)
                                rel2[kk] = rv if sg > 0 else {"lt": "gt", "gt": "lt", "eq": "eq"}[rv]
                            sets2.append((k2, ("lin", {R(a): c for a, c in v[1].items()}), rel2, line, facts))
                        for p, pev in self.layouts[cls]:
                            kids = {child_of(t) for t in p.types}
                            mine = [s for s in sets2 if s[0][1] in kids]
                            if mine:
                                self.compare(cls, p, pev, None, mine, f, seen)
                    # one more column for every variable that gets one
                    steps = [t for t in r.trail if isinstance(t, tuple) and t[0] == "member" and t[1] in members]
                    for _, m, d, rels, facts, c in steps:
                        self.rep.inst("width", "%s: %s" % (f["qn"], m))
                        if d != lin(1) and not all(x == "eq" for x in rels.values()):
                            self.once(seen, "width", "%s:%s" % (f["qn"], m), loc(f), "%s changes %s by %s for a variable that gets one column" % (f["qn"], m, text(d)))
                    setw = {repr(sorted(rels.items(), key=repr)) for mm, (b, sets) in r.maps.items() for k, v, rels, line, facts in sets if k is not None and k[0] == "var"}
                    stw = {repr(sorted(t[3].items(), key=repr)) for t in steps}
                    if setw and setw != stw:
                        self.once(seen, "width", "%s:count" % f["qn"], loc(f), "%s does not count every variable that it gives a column" % f["qn"])

    # ------------------------------------------------------------ trees: the variables are those of the operation
    def trees(self):
        """setVariableColumns gets the columns of the operation that the tree runs."""
        keeps = set()
        for cls in self.ops:
            vf = self.fn(cls, "getVariableColumns")
            if vf:
                try:
                    qs = [q for q in Ev(self.prog, cls).run(vf) if q.end != "throw"]
                    if qs and all(q.ret is not None and q.ret[0] == "map" for q in qs):
                        keeps.add(cls)
                except Unreadable:
                    pass
        for f in self.prog.all_fns():
            if not f.get("body") or not f["file"].startswith("src/engine/"):
                continue
            ops, cols, single = [], [], []
            for n in walk(f["body"]):
                if n["k"] == "call" and n.get("o") is not None and "QueryExecutionTree" in (n.get("fn") or ""):
                    if short(n) == "setOperation" and len(n["a"]) >= 2:
                        ops.append(n)
                    elif short(n) == "setVariableColumns" and n["a"]:
                        cols.append(n)
                    elif short(n) == "setVariableColumn" and len(n["a"]) == 2:
                        single.append(n)
            if not ops:
                continue
            F = Fn(self.prog, f)
            for n in ops:
                t = self.tree(F, n["o"])
                mine = [c for c in cols if self.tree(F, c["o"]) == t]
                # the one in the same block
                blk = self.block(F, n)
                near = [c for c in mine if self.block(F, c) is blk]
                one = [c for c in single if self.tree(F, c["o"]) == t and self.block(F, c) is blk]
                if not near and one:
                    self.rep.inst("tree", "%s:%d: %s" % (f["file"], n["l"], t))
                    self.singles(F, f, n, one, t)
                    continue
                near = near or mine
                if not near:
                    self.rep.viol("tree", "%s:%s:none" % (f["qn"], t), loc(f, n), "the tree %s gets an operation but not the columns of its variables" % t)
                    continue
                later = [c for c in near if c["l"] >= n["l"]]
                earlier = [c for c in near if c["l"] < n["l"]]
                cands = ([min(later, key=lambda c: c["l"])] if later else []) + ([max(earlier, key=lambda c: c["l"])] if earlier else [])
                op = self.origin(F, n["a"][1])
                self.rep.inst("tree", "%s:%d: %s" % (f["file"], n["l"], t))
                oks, why = [], None
                for c in cands:
                    a = strip(c["a"][0])
                    if a["k"] != "call" or short(a) != "getVariableColumns":
                        oks.append(True)
                        continue
                    src = self.origin(F, a["o"])
                    if "QueryExecutionTree" in (a.get("fn") or ""):
                        ins = self.inputs(F, n["a"][1])
                        if ins is None:
                            oks.append(True)
                            continue
                        cls, trees = ins
                        if cls not in keeps:
                            why = "%s gets the columns of the input %s although %s has columns of its own" % (t, src, cls)
                            oks.append(False)
                        else:
                            ok = src in trees
                            if not ok:
                                why = "%s gets the columns of %s, but its operation %s reads %s" % (t, src, cls, ", ".join(trees))
                            oks.append(ok)
                    else:
                        ok = src == op
                        if not ok:
                            why = "%s runs %s but gets the columns of the variables of %s" % (t, op, src)
                        oks.append(ok)
                if oks and not any(oks):
                    self.rep.viol("tree", "%s:%s" % (f["qn"], why), loc(f, n), "the tree " + why)

    def singles(self, F, f, n, one, t):
        """Columns that the planner gives itself to the variables of a scan."""
        d = self.decl(F, n["a"][1])
        types = self.scantypes()
        names = {m["n"] for m in walk(d or {}) if m["k"] == "ref" and m.get("n") in types}
        op = self.origin(F, n["a"][1])
        roles = {}
        for m in walk(f["body"]):
            if m["k"] == "call" and m.get("o") is not None and short(m) in ("setSubject", "setPredicate", "setObject") and self.origin(F, m["o"]) == op:
                roles[show(strip(m["a"][0]))] = short(m)[3]
        if len(names) != 1 or not roles:
            return
        name = names.pop()
        cols = types[name][1]
        got = {}
        for c in one:
            v, i = show(strip(c["a"][0])), strip(c["a"][1])
            if v not in roles or i["k"] != "int":
                return
            got[roles[v]] = int(i["v"])
        if got != {c: i for i, c in enumerate(cols)}:
            self.rep.viol("tree", "%s:%s:scan" % (f["qn"], name), loc(f, n), "the tree %s of a scan %s is given the columns %s, but has %s" % (t, name, got, {c: i for i, c in enumerate(cols)}))

    def decl(self, F, e):
        e = strip(e)
        while e["k"] == "ctor" and len(e["a"]) == 1 or e["k"] == "call" and "pointer_cast" in (e.get("fn") or ""):
            e = strip(e["a"][0])
        if e["k"] == "ref" and "id" in e:
            d = self.single(F, e["id"])
            return d.get("init") if d else None
        return e

    def block(self, F, n):
        for a in F.ancestors(n):
            if a["k"] == "blk":
                return a
        return None

    def tree(self, F, e):
        return self.origin(F, e)

    def origin(self, F, e, depth=0):
        """Name of the object an expression refers to, through references, casts and .get()."""
        e = strip(e)
        while e is not None:
            if e["k"] == "un" and e["op"] in ("*", "&"):
                e = strip(e["x"])
            elif e["k"] == "call" and e.get("op") in ("->", "*"):
                e = strip(e["a"][0] if e["a"] else e["o"])
            elif e["k"] == "call" and short(e) == "get" and e.get("o") is not None and not e["a"]:
                e = strip(e["o"])
            elif e["k"] == "call" and "pointer_cast" in (e.get("fn") or "") and len(e["a"]) == 1:
                e = strip(e["a"][0])
            elif e["k"] == "ctor" and len(e["a"]) == 1:
                e = strip(e["a"][0])
            elif e["k"] == "ref" and "id" in e and depth < 4:
                d = self.single(F, e["id"])
                if d is not None and ("&" in (d.get("t") or "") or (d.get("t") or "").rstrip().endswith("*")) and d.get("init") is not None:
                    e, depth = strip(d["init"]), depth + 1
                    continue
                return "%s#%s" % (e.get("n"), e["id"])
            else:
                break
        if e is None:
            return "?"
        if e["k"] == "mem":
            return self.origin(F, e["b"], depth) + "." + e["n"] if e.get("b") is not None else e["n"]
        if e["k"] in ("call", "sub") and (e.get("op") == "[]" or e["k"] == "sub"):
            b, i = (e["a"][0], e["a"][1]) if e["k"] == "call" else (e["b"], e["i"])
            return "%s[%s]" % (self.origin(F, b, depth), show(i))
        return show(e)

    def single(self, F, vid):
        for n in walk(F.f["body"]):
            if n["k"] == "var" and n.get("id") == vid:
                return n
        return None

    def inputs(self, F, e):
        """(class, input trees) of the operation an expression was made as."""
        e = strip(e)
        while e["k"] == "ctor" and len(e["a"]) == 1 or e["k"] == "call" and "pointer_cast" in (e.get("fn") or ""):
            e = strip(e["a"][0])
        if e["k"] == "ref" and "id" in e:
            d = self.single(F, e["id"])
            if d is None or d.get("init") is None:
                return None
            e = strip(d["init"])
            while e["k"] == "ctor" and len(e["a"]) == 1:
                e = strip(e["a"][0])
        if e["k"] == "call" and short(e) in ("make_shared", "make_unique"):
            m = re.search(r"(?:shared_ptr|unique_ptr)<(?:class )?(\w+)", e.get("t", ""))
        elif e["k"] == "new":
            m = re.search(r"(\w+)", e.get("t", ""))
        else:
            return None
        if not m:
            return None
        args = e.get("a") or (strip(e["e"]).get("a") if e.get("e") else [])
        return m.group(1), [self.origin(F, a) for a in args if "QueryExecutionTree" in (strip(a).get("t") or "")]

    # ------------------------------------------------------------ grouping
    def grouping(self):
        agg = [c for c in self.ops if any(n["k"] == "mem" and n["n"] == "_outCol" for f in self.prog.fns(c + "::computeResult") if f.get("body") for n in walk(f["body"]))]
        if not agg:
            raise AnalysisError("no grouping operation found")
        for cls in agg:
            f = self.fn(cls, "computeResult")
            F = Fn(self.prog, f)
            for n in walk(f["body"]):
                if n["k"] == "bin" and n["op"] == "=" and strip(n["x"])["k"] == "mem" and strip(n["x"])["n"] in ("_inCol", "_outCol"):
                    side = strip(n["x"])["n"]
                    src, k = self.lookup(F, n["y"])
                    if src is None:
                        continue
                    self.rep.inst("group", "%s: %s is the column of %s in %s" % (cls, side, k, src))
                    if side == "_inCol" and "getVariableColumns" not in src or side == "_outCol" and "getVariableColumns" in src and "_subtree" in src:
                        self.rep.viol("group", "%s:%s:map" % (cls, side), loc(f, n), "%s: the %s column of an aggregate is looked up in %s" % (cls, "input" if side == "_inCol" else "output", src))
                    want = "_inVarName" if side == "_inCol" else "_outVarName"
                    other = "_outVarName" if side == "_inCol" else "_inVarName"
                    if k.endswith(other):
                        self.rep.viol("group", "%s:%s:name" % (cls, side), loc(f, n), "%s: the %s column of an aggregate is looked up by %s" % (cls, "input" if side == "_inCol" else "output", k))
            mine = {q.get("id") for q in f["params"]}
            self.rep.inst("strings", "%s: strings of the input" % cls)
            if not any(n["k"] == "call" and short(n) == "setLocalVocab" or n["k"] == "mem" and n["n"] == "_localVocab" and not any(m["k"] == "ref" and m.get("id") in mine for m in walk(n)) for n in walk(f["body"])):
                self.rep.viol("strings", "%s:input" % cls, loc(f), "%s takes over columns of its input with their types, but not the strings (_localVocab) that columns of dynamically assembled strings refer to" % cls)
            # order of the columns and of the aggregates
            def order(fn, hit):
                out = []
                for n in walk(fn["body"]):
                    if n["k"] in ("rfor", "for") and any(hit(m) for m in walk(n["body"])):
                        r = show(strip(n["range"])) if n["k"] == "rfor" else next((show(strip(m["o"])) for m in walk(n["c"]) if m["k"] == "call" and short(m) == "size"), "?")
                        out.append(r.lstrip("_"))
                return out
            cons = [g for g in self.prog.all_fns() if g.get("cls") == cls and g["n"] == cls and g.get("body") and len(g["params"]) > 1]
            o1 = [o for g in cons for o in order(g, lambda m: m["k"] == "bin" and m["op"] == "=" and strip(m["x"])["k"] == "call" and strip(m["x"]).get("op") == "[]" and "_varColMap" in show(m["x"]))]
            o2 = order(f, lambda m: m["k"] == "call" and short(m) in ("emplace_back", "push_back") and m.get("o") is not None and "Aggregate" in (strip(m["o"]).get("t") or ""))
            if o1 and o2:
                self.rep.inst("group", "%s: columns %s, aggregates %s" % (cls, o1, o2))
                norm = lambda x: [re.sub(r"\W|_", "", y).lower() for y in x]
                if len(o1) == len(o2) and len(o1) > 1 and norm(o1) != norm(o2) and sorted(norm(o1)) == sorted(norm(o2)):
                    self.rep.viol("group", "%s:order" % cls, loc(f), "%s numbers its columns in the order %s but lists the aggregates, from which the types are set, in the order %s" % (cls, o1, o2))
            # types of the aggregates against what is written
            kinds = self.writers(cls)
            for n in walk(f["body"]):
                if n["k"] != "switch":
                    continue
                labels = []
                for s in n["body"]["s"]:
                    body = s
                    if s["k"] in ("case", "default"):
                        labels = []
                        while body is not None and body["k"] in ("case", "default"):
                            if body["k"] == "case":
                                labels.append(self.caselabel(body))
                            body = body.get("s")
                    for m in walk(body or {}):
                        if m["k"] == "bin" and m["op"] == "=" and "_resultTypes" in show(m["x"]):
                            ty = strip(m["y"])
                            for lab in labels:
                                if lab not in kinds:
                                    continue
                                got = ty["n"] if ty["k"] == "ref" else "INPUT"
                                self.rep.inst("group", "%s: %s is of type %s" % (cls, lab, got))
                                if got == "INPUT" and any(z["k"] == "mem" and z["n"] == "_outCol" for z in walk(ty)) and not any(z["k"] == "mem" and z["n"] == "_inCol" for z in walk(ty)):
                                    self.rep.viol("group", "%s:type:%s" % (cls, lab), loc(f, m), "%s declares the values of %s with the type of the input column that has the number of its output column" % (cls, lab))
                                elif got not in kinds[lab]:
                                    self.rep.viol("group", "%s:type:%s" % (cls, lab), loc(f, m), "%s declares the values of %s as %s, but writes %s" % (cls, lab, got, " or ".join(sorted(kinds[lab]))))

    def lookup(self, F, e):
        """(map, key) of a column number taken from a map of columns."""
        e = strip(e)
        for _ in range(6):
            if e["k"] == "mem" and e["n"] == "second":
                e = strip(e["b"])
            elif e["k"] == "call" and e.get("op") == "->":
                e = strip(e["a"][0] if e["a"] else e["o"])
            elif e["k"] == "ref" and "id" in e:
                d = self.single(F, e["id"])
                if d is None or d.get("init") is None:
                    return None, None
                e = strip(d["init"])
            else:
                break
        if e["k"] == "call" and (short(e) in ("find", "at") and e.get("o") is not None or e.get("op") == "[]"):
            m, k = (e["o"], e["a"][0]) if not e.get("op") else (e["a"][0], e["a"][1])
            m = strip(m)
            if m["k"] == "ref" and "id" in m:
                d = self.single(F, m["id"])
                if d is not None and d.get("init") is not None:
                    return show(strip(d["init"])), show(k)
            return show(m), show(k)
        if e["k"] == "call" and short(e) == "getVariableColumn":
            return show(e["o"]) + ".getVariableColumns", show(e["a"][0])
        return None, None

    def writers(self, cls):
        """{aggregate: types of what the computation writes for it}"""
        out = {}
        for f in self.prog.all_fns():
            if not f.get("body") or not f["file"].startswith("src/engine/" + cls):
                continue
            for n in walk(f["body"]):
                if n["k"] != "switch" or "AggregateType" not in (strip(n["c"]).get("t") or ""):
                    continue
                cur, acc = [], {}
                for s in n["body"]["s"]:
                    body = s
                    if s["k"] in ("case", "default"):
                        cur = []
                        while body is not None and body["k"] in ("case", "default"):
                            if body["k"] == "case":
                                cur.append(self.caselabel(body))
                            body = body.get("s")
                    if body is None:
                        continue
                    for lab in cur:
                        acc.setdefault(lab, []).append(body)
                for lab, bs in acc.items():
                    ks = set()
                    for b in bs:
                        for m in walk(b):
                            if m["k"] == "call" and short(m) == "memcpy" and "_outCol" in show(m["a"][0]):
                                st = strip(m["a"][1])
                                while st["k"] in ("un", "cast"):
                                    st = strip(st["x"] if st["k"] == "un" else st["e"])
                                ks.add("FLOAT" if "float" in (st.get("t") or "") else "INPUT")
                            if m["k"] == "bin" and m["op"] == "=" and "_outCol" in show(m["x"]) and "_resultTypes" not in show(m["x"]):
                                if any(z["k"] == "mem" and z["n"] == "_localVocab" for z in walk(m["y"])):
                                    ks.add("LOCAL_VOCAB")
                                elif lab == "COUNT":
                                    ks.add("VERBATIM")
                                elif "ID_NO_VALUE" not in show(m["y"]):
                                    ks.add("INPUT")
                    if "FLOAT" in ks:
                        ks.discard("INPUT")
                    if ks:
                        out.setdefault(lab, set()).update(ks)
        # an aggregate that is computed as a number is never of the type of its input
        return {k: v for k, v in out.items() if k in ("COUNT", "AVG", "SUM", "GROUP_CONCAT", "SAMPLE")}

    def caselabel(self, c):
        for n in walk(c["v"]):
            if n["k"] == "ref":
                return n["n"].split("::")[-1]
        return str(c.get("cv"))

    # ------------------------------------------------------------ export
    def export(self):
        """The type that goes with an exported column is that of this column."""
        n_ = 0
        for f in self.prog.all_fns():
            if not f.get("body") or not f["file"].startswith("src/engine/"):
                continue
            for n in walk(f["body"]):
                if n["k"] in ("ctor", "call", "list") and len([a for a in n.get("a", []) if a["k"] != "defarg"]) == 2 and "ResultType" in n.get("t", "") and "pair" in n.get("t", ""):
                    a, b = n["a"][0], strip(n["a"][1])
                    if b["k"] == "call" and short(b) == "getResultType":
                        self.rep.inst("export", "%s:%d" % (f["file"], n.get("l", 0)))
                        if show(strip(a)) != show(strip(b["a"][0])):
                            self.rep.viol("export", "%s:type" % f["qn"], loc(f, n), "%s pairs column %s with the type of column %s" % (f["qn"], show(strip(a)), show(strip(b["a"][0]))))


def check(prog, rep):
    rep.rule("width", "the number of columns that a computation sets is the one that getResultWidth reports, in every case", 12)
    rep.rule("types", "a computation sets as many value types as columns", 12)
    rep.rule("strings", "an operation that takes over columns of an input takes over the strings that they may refer to", 8)
    rep.rule("source", "the type of a column is taken from the same column of the same input", 4)
    rep.rule("columns", "every variable is mapped to the column at which the types of its input (or its own type) are listed, for all columns before, at and after joined ones", 14)
    rep.rule("order", "column numbers do not depend on the order of a hash map (except where the same map also arranges the values)", 1)
    rep.rule("tree", "a tree is given the variable columns of the operation that it runs, or of its input if the operation keeps them", 12)
    rep.rule("group", "aggregates read and write the columns of their own variables and are declared with the type that is written", 4)
    rep.rule("export", "an exported column is paired with its own type", 1)
    c = Check(prog, rep)
    rep.part(c.computed)
    rep.part(c.variables)
    rep.part(c.bound)
    rep.part(c.trees)
    rep.part(c.grouping)
    rep.part(c.export)
    rep.extra["operations"] = c.ops


if __name__ == "__main__":
    run("C21", check, level="other",
        explanation="Abstract evaluation of computeResult, getResultWidth and getVariableColumns of every operation in a domain of linear expressions over the widths of the inputs, with case distinction on comparisons of columns; "
                    "the three descriptions of a result (width, sequence of value types, columns of variables) are checked against each other for all cases. Dataflow rules for trees, aggregates and export.")
