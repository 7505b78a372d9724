"""C19: client output is always well-formed, whatever the stored strings contain."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from cg import CallGraph
from place import Fn
from text import Texts, STR, norm, tg
import facts

CSV, TSV = ord(","), ord("\t")
DANGER = {CSV: {'"': "a quotation mark", ",": "a comma", "\n": "a line break"}, TSV: {"\t": "a tab", "\n": "a line break"}}
NAME = {CSV: "comma-separated", TSV: "tab-separated"}
KIND = [(re.compile(r"^text/csv\b"), "csv"), (re.compile(r"^text/tab-separated-values\b"), "tsv"), (re.compile(r"^application/json\b"), "json")]


def text(parts):
    out = []
    for p in parts:
        out.append(repr(p[1]) if p[0] == "l" else "<length>" if p[0] == "len" else "<%s>" % p[1] if p[0] in ("a", "num", "ch") else "<%s>" % p[0])
    return " ".join(out)


def expand(parts):
    """parts with alternatives -> plain parts"""
    outs = [()]
    for p in parts:
        if p[0] == "alt":
            outs = [o + q for o in outs for x in p[1] for q in expand(x)]
        else:
            outs = [o + (p,) for o in outs]
        outs = outs[:64]
    return [norm(o) for o in outs]


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.cg = CallGraph(prog)
        self.responses = []
        self.tables = {}

    def is_send(self, e):
        return e["k"] == "call" and any(g.get("cls") and g["cls"].endswith("Socket") and g["n"] == "send" for g in tg(self.prog, e))

    # ------------------------------------------------------------ responses
    def collect(self):
        senders = []
        for f in self.prog.all_fns():
            if f.get("body") and f["file"].startswith("src/") and not (f.get("cls") or "").endswith("Socket") and any(self.is_send(n) for n in walk(f["body"])):
                senders.append(f)
        if not senders:
            raise AnalysisError("no function sends anything to a client")
        # texts are followed into the functions of the classes and files that send, and into what they call to compose headers
        files = {f["file"] for f in senders}
        cls = {f.get("cls") for f in senders if f.get("cls")}
        headers = {f["key"] for f in self.prog.all_fns() if f.get("body") and f["file"].startswith("src/")
                   and any(n["k"] == "str" and re.search(r"Content-Length|HTTP/1", n["v"]) for n in walk(f["body"]))}

        def into(g):
            return g["file"] in files or g.get("cls") in cls or g["key"] in headers

        def on_send(T, fr, env, e, vals):
            if not self.is_send(e):
                return False
            v = vals[0] if vals else ("?",)
            alts = []
            for x in (v[1] if v[0] == "alt" else (v,)):
                alts += expand(x[1] if x[0] == "s" else T.parts(fr, x, e["a"][0]))
            for x in alts:
                self.responses.append((fr.f, e, x))
            return True

        for f in senders:
            T = Texts(self.prog, into, on_send)
            try:
                T.function(f)
            except OverflowError:
                raise AnalysisError("%s composes too many different responses" % f["qn"])

    def check_responses(self):
        rep = self.rep
        done = set()
        for f, e, parts in self.responses:
            k = (f["key"], e.get("l"), tuple(p[:2] if p[0] != "a" else p for p in parts))
            if k in done:
                continue
            done.add(k)
            self.response(f, e, parts)

    def response(self, f, e, parts):
        rep, w = self.rep, loc(f, e)
        key = "%s:%s" % (f["qn"], text(parts)[:60])
        # the header is what comes before the first empty line
        head, body, found = [], [], False
        for p in parts:
            if found:
                body.append(p)
            elif p[0] == "l" and ("".join(x[1] if x[0] == "l" else "#" for x in head) + p[1]).find("\r\n\r\n") >= 0:
                pre = "".join(x[1] if x[0] == "l" else "#" for x in head)
                i = (pre + p[1]).find("\r\n\r\n") + 4 - len(pre)
                head.append(("l", p[1][:i]))
                if p[1][i:]:
                    body.append(("l", p[1][i:]))
                found = True
            else:
                head.append(p)
        rep.inst("header", "%s: %s" % (w, text(parts)[:150]))
        if not found or not parts or parts[0][0] != "l" or not re.match(r"HTTP/1\.[01] \d\d\d ", parts[0][1]):
            rep.viol("header", "shape:" + f["qn"], w, "the response sent here does not consist of a status line, header lines and an empty line: %s" % text(parts)[:300])
            return
        for p in head:
            if p[0] in ("a", "ch", "imbue"):
                rep.viol("header", "text:%s:%s" % (f["qn"], p[1][:60]), w, "the header of a response contains text that is not fixed: %s" % p[1][:120])
        lines = "".join(x[1] if x[0] == "l" else "\0" + str(i) + "\0" for i, x in enumerate(head))[:-4].split("\r\n")
        for ln in lines[1:]:
            if not re.match(r"^[A-Za-z-]+: .+$", ln) or "\n" in ln or "\r" in ln:
                rep.viol("header", "line:%s:%s" % (f["qn"], ln[:30].replace("\0", "")), w, "a response has the malformed header line %r" % ln[:80])
        names = [ln.split(":")[0].lower() for ln in lines[1:]]
        # length
        rep.inst("length", "%s: %s" % (w, text(parts)[:100]))
        cl = [ln for ln in lines[1:] if ln.lower().startswith("content-length:")]
        if len(cl) != 1:
            rep.viol("length", "missing:" + f["qn"], w, "a response announces its length %d times" % len(cl))
        else:
            v = cl[0].split(":", 1)[1].strip()
            m = re.match(r"^\0(\d+)\0$", v)
            if m:
                p = head[int(m.group(1))]
                if p[0] != "len":
                    rep.viol("length", "other:" + f["qn"], w, "the announced length of a response is not the length of a text but %s" % p[1])
                elif norm(p[1]) != norm(tuple(body)):
                    rep.viol("length", "differs:" + f["qn"], w, "the announced length is that of %s, but the body sent is %s" % (text(p[1])[:150] or "nothing", text(body)[:150] or "empty"))
                if any(x[0] == "imbue" for x in head):
                    rep.viol("length", "format:" + f["qn"], w, "the announced length is printed with a changed number format")
            elif re.match(r"^\d+$", v):
                if any(p[0] != "l" for p in body) or len("".join(p[1] for p in body)) != int(v):
                    rep.viol("length", "constant:" + f["qn"], w, "the response announces a length of %s, but its body is %s" % (v, text(body)[:150] or "empty"))
            else:
                rep.viol("length", "unclear:" + f["qn"], w, "the announced length %r is not a number" % v.replace("\0", "#"))
        # kind of the body
        ct = [ln for ln in lines[1:] if ln.lower().startswith("content-type:")]
        kind = None
        if ct:
            v = ct[0].split(":", 1)[1].strip()
            for r, n in KIND:
                if r.match(v):
                    kind = n
        if kind == "json":
            rep.inst("json", "%s: body %s" % (w, text(body)[:120]))
            for p in body:
                if p[0] == "l" and not p[1].strip():
                    continue
                if p[0] == "a" and re.search(r"basic_json<.*::dump\(|basic_json::dump", p[1]):
                    continue
                if p[0] in ("l", "num", "len"):
                    continue
                if p[0] == "a" and self.json_escape(p[1]):
                    continue
                rep.viol("json", "raw:%s:%s" % (f["qn"], p[1][:50] if len(p) > 1 else p[0]), w, "a JSON response contains the text %s as it is, not escaped by the JSON library" % (p[1][:150] if len(p) > 1 else p[0]))
        elif kind in ("csv", "tsv"):
            rep.inst("kind", "%s: %s, body %s" % (w, kind, text(body)[:120]))
            want = CSV if kind == "csv" else TSV
            for p in body:
                if p[0] == "a" and len(p) > 3 and p[3] and p[3][0] == "call":
                    seps = [c for c in p[3][1:] if c in (CSV, TSV)]
                    self.tables.setdefault((p[1], want), (f, e, p))
                    if want not in seps:
                        rep.viol("kind", "sep:%s:%s" % (f["qn"], kind), w, "a response announced as %s is written with another separator (%s)" % (ct[0].split(":", 1)[1].strip().split("\r")[0], ", ".join(map(repr, map(chr, seps))) or "none"))
                elif p[0] == "a" and not re.search(r"basic_json", p[1]):
                    rep.viol("kind", "raw:%s:%s" % (f["qn"], kind), w, "a response announced as %s contains the text %s" % (kind, p[1][:120]))
                elif p[0] == "a":
                    rep.viol("kind", "json:%s:%s" % (f["qn"], kind), w, "a JSON text is announced as %s" % kind)
        elif ct:
            rep.inst("kind", "%s: other content %s" % (w, ct[0].replace("\0", "#")[:60]))
            for p in body:
                if p[0] == "a" and (re.search(r"basic_json<.*::dump\(", p[1]) or (len(p) > 3 and p[3] and p[3][0] == "call" and any(c in (CSV, TSV) for c in p[3][1:]))):
                    rep.viol("kind", "other:" + f["qn"], w, "a query result is announced as %s" % ct[0].replace("\0", "#")[:60])

    def json_escape(self, name):
        return bool(re.search(r"escape\w*json", name, re.I))

    # ------------------------------------------------------------ tables
    def check_tables(self):
        rep = self.rep
        if not self.tables:
            raise AnalysisError("no response contains an exported table")
        seen = set()
        for (fk, sep), (f0, e0, part) in sorted(self.tables.items(), key=lambda x: (x[0][0], x[0][1])):
            g = self.prog.fn(fk)
            if g is None or not g.get("body"):
                raise AnalysisError("the function that writes a table has no body: %s" % fk)
            stream = [i for i, q in enumerate(g["params"]) if re.search(r"ostream|stringstream|std::string &", q.get("t") or "") and not (q.get("t") or "").startswith("const ")]
            chars = [i for i, q in enumerate(g["params"]) if re.match(r"^(const )?char$", q.get("t") or "")]
            emitted = []

            def on_emit(fr, p, parts, n, env):
                for alt in expand(parts):
                    emitted.append((fr, p, alt, n))

            def into(h):
                return h["file"] == g["file"] or h.get("cls") == g.get("cls")

            T = Texts(self.prog, into, on_emit=on_emit)
            vals = {i: ("c", sep) for i in chars}
            for i in stream:
                vals[i] = ("s", (("mark", "table"),))
            try:
                T.function(g, vals)
            except OverflowError:
                raise AnalysisError("%s writes too many different texts" % g["qn"])
            n = 0
            for fr, p, parts, node in emitted:
                for part in parts:
                    k = (fr.f["key"], node.get("l"), part[:3], sep)
                    if k in seen:
                        continue
                    seen.add(k)
                    w = loc(fr.f, node)
                    if part[0] == "a":
                        n += 1
                        rep.inst("field", "%s: %s written to a %s table" % (w, part[1][:90], NAME[sep]))
                        if len(part) > 3 and part[3] and part[3][0] == "ret" and self.escapes(part[1], sep):
                            continue
                        rep.viol("field", "raw:%s:%s:%s" % (fr.f["qn"], NAME[sep][:3], part[1][:60]), w,
                                 "the text %s is written to a %s table without being escaped for it: %s in it breaks the row" % (part[1][:100], NAME[sep], " or ".join(sorted(DANGER[sep].values()))))
                    elif part[0] == "ch":
                        rep.inst("field", "%s: separator %s" % (w, part[1][:60]))
            if not n:
                raise AnalysisError("no string is written to a %s table" % NAME[sep])

    def escapes(self, fk, sep):
        """does this function return a text that is a single field?"""
        memo = self.__dict__.setdefault("esc", {})
        if (fk, sep) in memo:
            return memo[(fk, sep)]
        memo[(fk, sep)] = True
        g = self.prog.fn(fk)
        ok = False
        if g is not None and g.get("body"):
            ok = self.escaper(g, sep)
        memo[(fk, sep)] = ok
        return ok

    def escaper(self, g, sep):
        rep = self.rep
        ps = [i for i, q in enumerate(g["params"]) if STR.search(q.get("t") or "")]
        if len(ps) != 1:
            return False
        chars = self.literals(g)
        if not set(DANGER[sep]) - {","} <= chars and not (sep == CSV and '"' in chars):
            return False
        P = ("s", (("a", "field", "", ()),))
        good = True
        loops = False
        for d in sorted(DANGER[sep]):
            T = Texts(self.prog, lambda h: h["file"] == g["file"] and h["key"] != g["key"], probe=(P, ord(d)))
            try:
                outs, rets = T.function(g, {ps[0]: P}, keep_guards=True)
            except OverflowError:
                raise AnalysisError("%s has too many paths" % g["qn"])
            rep.inst("escape", "%s: %s in a %s field" % (loc(g, g), DANGER[sep][d], NAME[sep]))
            recs = [r for r in T.records if r[1]]
            loops = loops or bool(recs)
            for p, parts, l in recs:
                for x in expand(parts):
                    if all(y[0] == "l" for y in x):
                        t = "".join(y[1] for y in x)
                        if sep == TSV and (set(t) & set(DANGER[TSV])):
                            rep.viol("escape", "keeps:%s:%r" % (g["qn"], d), "%s:%s" % (g["file"], l), "%s is put into a %s field as it is" % (DANGER[sep][d].capitalize(), NAME[sep]))
                            good = False
                        if sep == CSV and d == '"' and t.count('"') % 2:
                            rep.viol("escape", "keeps:%s:%r" % (g["qn"], d), "%s:%s" % (g["file"], l), "a quotation mark inside a quoted field is not doubled but written as %r" % t)
                            good = False
            # what is returned
            for env, v in rets:
                for x in (v[1] if v[0] == "alt" else (v,)):
                    if x == P:
                        gs = set()
                        for cid, want in env.guards:
                            f2, c = T.conds[cid]
                            for n in walk(c):
                                if n["k"] == "str":
                                    gs |= set(n["v"])
                                elif n["k"] == "char":
                                    gs.add(chr(n["v"] & 255))
                        if d not in gs:
                            rep.viol("escape", "raw:%s:%r" % (g["qn"], d), loc(g, g), "a field with %s is returned unchanged for a %s table" % (DANGER[sep][d], NAME[sep]))
                            good = False
                    elif x[0] == "s" and sep == CSV and loops:
                        q = x[1]
                        if q and q[0][0] == "l" and q[-1][0] == "l" and q[0][1].startswith('"') and q[-1][1].endswith('"'):
                            continue
                        if len(q) == 1 and q[0][0] == "a" and q[0][1].startswith("changed"):
                            continue
                        rep.viol("escape", "quotes:" + g["qn"], loc(g, g), "a field for a %s table is returned without quotation marks around it: %s" % (NAME[sep], text(q)))
                        good = False
        if not loops and not set(DANGER[sep]) - {","} <= chars:
            return False
        # a wrong escaper has been reported above; what uses it is not reported again
        return True

    def literals(self, g, depth=0):
        out = set()
        for n in walk(g["body"]):
            if n["k"] == "str":
                out |= set(n["v"])
            elif n["k"] == "char":
                out.add(chr(n["v"] & 255))
            elif n["k"] == "call" and depth < 2:
                for h in tg(self.prog, n):
                    if h.get("body") and h["file"].startswith("src/"):
                        out |= self.literals(h, depth + 1)
        return out

    # ------------------------------------------------------------ sending
    def check_send(self):
        rep = self.rep
        n = 0
        for f in self.prog.all_fns():
            if not f.get("body") or not f["file"].startswith("src/"):
                continue
            for e in walk(f["body"]):
                if e["k"] == "call" and e.get("fn") in ("send", "::send", "write", "::write") and (e["fn"].endswith("send") or (f.get("cls") or "").endswith("Socket")) and len(e["a"]) >= 3:
                    n += 1
                    self.syscall(f, e)
        # the text overload hands over all of its text
        for f in self.prog.all_fns():
            if (f.get("cls") or "").endswith("Socket") and f["n"] == "send" and f.get("body"):
                for e in walk(f["body"]):
                    if e["k"] == "call" and any(g["n"] == "send" and g.get("cls") == f["cls"] for g in tg(self.prog, e)) and len(e["a"]) >= 2:
                        a, b = strip(e["a"][0]), strip(e["a"][1])
                        if a["k"] == "call" and short(a) in ("c_str", "data"):
                            rep.inst("complete", "%s: %s" % (loc(f, e), show(e)[:80]))
                            ok = b["k"] == "call" and short(b) in ("size", "length") and show(strip(b["o"])) == show(strip(a["o"]))
                            if not ok:
                                F = Fn(self.prog, f)
                                if b["k"] == "ref":
                                    i = F.vars.get(b.get("id"))
                                    i = strip(i["init"]) if i is not None and i.get("init") and b.get("id") not in F.assign else None
                                    ok = i is not None and i["k"] == "call" and short(i) in ("size", "length") and show(strip(i["o"])) == show(strip(a["o"]))
                            if not ok:
                                rep.viol("complete", "overload:" + f["key"], loc(f, e), "the number of bytes to send is not the size of the text: %s" % show(b))
        if not n:
            raise AnalysisError("no place sends bytes")

    def syscall(self, f, e):
        """the bytes that were not accepted are sent again, unless an error occurred"""
        rep = self.rep
        F = Fn(self.prog, f)
        rep.inst("complete", "%s: %s" % (loc(f, e), show(e)[:80]))
        data, size = strip(e["a"][1]), strip(e["a"][2])
        anc = F.ancestors(e)
        # the variable that holds the number of bytes sent
        var = None
        for a in anc:
            if a["k"] == "var":
                var = a["id"]
                break
            if a["k"] == "bin" and a["op"] == "=":
                x = strip(a["x"])
                if x["k"] == "ref":
                    var = x.get("id")
                break
        if var is None:
            rep.viol("complete", "dropped:" + f["key"], loc(f, e), "the number of bytes that were sent is not looked at")
            return
        loops = [a for a in anc if a["k"] in ("while", "for", "do")]

        def refers(x, i):
            return any(n["k"] == "ref" and n.get("id") == i for n in walk(x))

        def ids(x):
            return {n.get("id") for n in walk(x) if n["k"] == "ref" and n.get("id") is not None}
        moved, less = False, False
        # continuation by a call
        for c in walk(f["body"]):
            if c["k"] == "call" and c is not e and len(c["a"]) >= 2 and any(g["key"] == f["key"] for g in tg(self.prog, c)):
                a, b = strip(c["a"][0]), strip(c["a"][1])
                if refers(a, var) and refers(b, var):
                    okA = a["k"] == "bin" and a["op"] == "+"
                    okB = b["k"] == "bin" and b["op"] == "-" and refers(b["y"], var)
                    if okA and okB:
                        moved = less = True
                    else:
                        rep.viol("complete", "rest:" + f["key"], loc(f, c), "the rest of a text is sent from the wrong place or with the wrong size: %s" % show(c)[:100])
                        return
                elif refers(a, var) != refers(b, var):
                    rep.viol("complete", "rest:" + f["key"], loc(f, c), "the rest of a text is sent with %s: position and size do not fit" % show(c)[:100])
                    return
        if loops:
            offs = {i for i in ids(data) | ids(size)}
            for c in walk(loops[-1]):
                if c["k"] == "bin" and c["op"] in ("+=", "-=", "=") and refers(c["y"], var):
                    x = strip(c["x"])
                    if x["k"] == "ref" and x.get("id") in offs:
                        if x.get("id") in ids(data):
                            moved = True
                        if x.get("id") in ids(size):
                            less = True
        if moved != less:
            rep.viol("complete", "half:" + f["key"], loc(f, e), "after a part of a text was sent, %s" % ("its size is not reduced" if moved else "the position does not advance"))
            return
        if not moved:
            rep.viol("complete", "short:" + f["key"], loc(f, e), "when only a part of a text could be sent the rest is not sent")
            return
        # the continuation is reached whenever fewer bytes were sent: the test compares the number with the size
        if not loops:
            cont = [c for c in walk(f["body"]) if c["k"] == "call" and c is not e and any(g["key"] == f["key"] for g in tg(self.prog, c)) and refers(c["a"][0], var)]
            ok = False
            for c in cont:
                bad = []
                for x, pol, _ in F.guards(c):
                    y = strip(x)
                    if y["k"] == "bin" and refers(y, var):
                        op = y["op"] if pol else {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(y["op"])
                        other = y["y"] if refers(y["x"], var) else y["x"]
                        if not refers(y["x"], var):
                            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                        o = strip(other)
                        if o["k"] in ("int", "un") and not ids(o):
                            v = -1 if o["k"] == "un" else o.get("v")
                            if (op, v) not in (("!=", -1), (">=", 0), (">", 0), (">", -1), ("!=", 0)):
                                bad.append(show(y))
                        elif ids(o) & ids(size) and op not in ("!=", "<"):
                            bad.append(show(y))
                    elif y["k"] not in ("bin",) or not refers(y, var):
                        pass
                if not bad:
                    ok = True
            if not ok:
                rep.viol("complete", "guard:" + f["key"], loc(f, cont[0]), "the rest of a text is sent only under a condition that a partial transmission does not meet")


def check(prog, rep):
    rep.rule("header", "a response consists of a status line, fixed header lines and an empty line, followed by the body", 5)
    rep.rule("length", "the announced length of a response is the length of the body that follows", 5)
    rep.rule("json", "the body of a JSON response is produced by the JSON library, which escapes all texts", 2)
    rep.rule("kind", "the announced type of a response is the one its body is written in", 2)
    rep.rule("field", "every text written to a comma- or tab-separated table is escaped for this kind of table", 4)
    rep.rule("escape", "a function that escapes a field leaves nothing in it that ends the field or the row", 4)
    rep.rule("complete", "a response is sent to its last byte unless an error occurs", 2)
    c = Check(prog, rep)
    c.collect()
    rep.part(c.check_responses)
    rep.part(c.check_tables)
    rep.part(c.check_send)
    rep.extra["responses"] = len(c.responses)


if __name__ == "__main__":
    run("C19", check, level="other",
        explanation="Abstract interpretation of how responses are put together: for every place that sends something the sequence of literal texts, lengths, numbers and opaque texts of the response "
                    "is computed through all helper functions and branches, and compared with the grammar of a response; texts of tables are followed back to a function that escapes them, "
                    "which is analysed separately for every character that has a meaning in the table.")
