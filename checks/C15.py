"""C15: the index builder never reports success for an index it could not write."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, const_int, AnalysisError
from cfg import Graph, Sim, canon
from cg import CallGraph

STREAM = re.compile(r"std::basic_(i|o|)fstream<")
GOOD = {"is_open", "good", "operator bool", "operator void*"}
BAD = {"fail", "operator!"}
ENDS = {"exit", "_exit", "abort", "terminate", "quick_exit"}


def in_src(f):
    return f["file"].startswith("src/") and f.get("body")


def unique(prog, keys=None):
    seen = set()
    for f in (prog.all_fns() if keys is None else filter(None, map(prog.fn, sorted(keys)))):
        if in_src(f) and (f["file"], f["l"], f["n"]) not in seen:
            seen.add((f["file"], f["l"], f["n"]))
            yield f


def ends_program(n):
    """exit with an error status and the like"""
    if n["k"] == "call" and short(n) in ENDS:
        return not n["a"] or const_int(n["a"][0]) != 0
    return False


# ---------------------------------------------------------------- streams
def stream_path(e, fr, prog):
    p = canon(e, fr, prog)
    while p and p[-1] == "[]":
        p = p[:-1]
    return p


def base_stream(e):
    """The stream at the left end of a chain of << or >>."""
    e = strip(e)
    while e["k"] == "call" and e.get("op") in ("<<", ">>") and (e.get("o") is not None or e["a"]):
        e = strip(e["o"] if e.get("o") is not None else e["a"][0])
    return e


def is_stream_type(t):
    return bool(STREAM.search(t or "")) or bool(re.search(r"std::basic_(i|o|io)stream<", t or ""))


def flushes(e):
    """<< std::endl / std::flush"""
    for a in e.get("a", []):
        a = strip(a)
        if a["k"] == "ref" and a.get("n") in ("endl", "flush"):
            return True
    return False


class StreamRun:
    """Typestate of one stream:
    N not opened, O opened but not tested, C usable, W written, L written and flushed, V written, flushed and tested,
    E a line could not be read (end of file or error), F known to have failed."""

    def __init__(self, prog, f, path_of, out, dirty=False, entry="N"):
        self.prog, self.f, self.out, self.dirty = prog, f, out, dirty
        self.g = Graph(prog, f, inline=self.inline, lambdas=lambda c: "skip", max_depth=3)
        self.target = path_of(self.g.root)
        self.used_untested = []
        self.used_failed = []
        self.opened = []
        self.written = []
        self.used = []
        self.memo = {}
        self.flags = {}
        self.sim = Sim(self.g, entry, self.step, None, lambda nd: False, refine=self.refine)

    def inline(self, h, call, fr):
        return in_src(h) and any(is_stream_type(p.get("t")) for p in h.get("params", []))

    def same(self, e, fr):
        return e is not None and stream_path(e, fr, self.prog) == self.target

    def test(self, e, fr):
        """(True/False: label of success) when e tests the stream"""
        e = strip(e)
        if e["k"] == "un" and e["op"] == "!":
            r = self.test(e["x"], fr)
            return None if r is None else (not r[0], r[1])
        if e["k"] == "ref" and e.get("id") in self.flags:
            return self.flags[e["id"]]
        if e["k"] == "cast" and e.get("e") is not None:
            return self.test(e["e"], fr)
        if e["k"] != "call":
            return None
        o = e.get("o") if e.get("o") is not None else (e["a"][0] if e.get("op") == "!" and e["a"] else None)
        if o is None or not self.same(o, fr):
            return None
        s = short(e)
        if s == "bad":
            return False, s
        if s in GOOD:
            return True, s
        if s in BAD or e.get("op") == "!":
            return False, s
        return None

    def line_read(self, e, fr):
        """std::getline(stream, ..) as a condition"""
        e = strip(e)
        while e["k"] == "call" and short(e) in ("operator bool", "operator void*") and e.get("o") is not None:
            e = strip(e["o"])
        return e["k"] == "call" and short(e) == "getline" and e["a"] and self.same(e["a"][0], fr)

    def event(self, nd):
        n, fr = nd.n, nd.fr
        if nd.kind != "ev" or n is None:
            return None
        k = n["k"]
        if k == "var":
            if n.get("init") is not None:
                t = self.test(n["init"], fr)
                if t is not None:
                    self.flags[n["id"]] = t
            if is_stream_type(n.get("t")) and not n["t"].endswith("&") and self.same(dict(k="ref", id=n["id"], n=n["n"]), fr):
                i = strip(n["init"]) if n.get("init") else None
                return "open" if i is not None and i.get("a") else "reset"
        if k == "minit":
            if is_stream_type(n["e"].get("t")) and self.same(dict(k="mem", n=n["n"], f=n["n"], b=dict(k="this")), fr):
                return "open" if strip(n["e"]).get("a") else "reset"
        if k == "call":
            o = n.get("o")
            if o is not None and self.same(o, fr):
                s = short(n)
                if s in ("emplace_back", "push_back"):
                    return "open"
                if "fstream" in n.get("fn", "") or "basic_" in n.get("fn", "") or n.get("op"):
                    if s == "open":
                        return "open"
                    if s == "close":
                        return "close"
                    if s == "flush":
                        return "flush"
                    if s in GOOD or s in BAD or s in ("eof", "bad", "rdstate", "clear", "tellg", "tellp", "rdbuf", "exceptions", "imbue", "precision", "setstate"):
                        return None
                    if n.get("op") == "=":
                        return "reset"
                    if n.get("op") in ("<<", ">>"):
                        return "flushuse" if flushes(n) else "use"
                    return "use"
                return None
            if n.get("op") == "=" and n["a"] and self.same(n["a"][0], fr):
                return "reset"
            if n.get("op") in ("<<", ">>") and n["a"]:
                if self.same(base_stream(n), fr):
                    return "flushuse" if flushes(n) else "use"
                return None
            h = self.prog.fn(n["fk"]) if n.get("fk") else None
            if h is not None and self.inline(h, n, fr):
                return None
            if n.get("op") not in ("[]", "!", "->", "*"):
                for a in n["a"]:
                    if is_stream_type(strip(a).get("t")) and self.same(a, fr):
                        return "use"
        return None

    def ev(self, nd):
        if nd.i not in self.memo:
            self.memo[nd.i] = self.event(nd)
        return self.memo[nd.i]

    def step(self, nd, s):
        if nd.kind == "ev" and nd.n is not None and ends_program(nd.n):
            return []
        e = self.ev(nd)
        if e is None:
            return [s]
        if e == "open":
            self.opened.append(nd)
            return ["O"]
        if e == "reset":
            return [s if self.out and s in "WL" else "N"]
        if e in ("use", "flushuse"):
            self.used.append(nd)
            if s == "O" and not self.out:       # a failure to open an output stays visible until the test at its end
                self.used_untested.append(nd)
            if s == "F":
                self.used_failed.append(nd)
            if not self.out:
                return [s]
            self.written.append(nd)
            return ["L" if e == "flushuse" else "W"]
        if e in ("close", "flush"):
            return ["L" if s in "WL" else s]
        return [s]

    def refine(self, nd, lab, s):
        if nd.kind != "br" or nd.n is None:
            return s
        if not self.out and self.line_read(nd.n, nd.fr):
            if not lab:
                return "E" if s in "CE" else s
            return s
        t = self.test(nd.n, nd.fr)
        if t is None:
            return s
        good, name = t
        if name == "bad":
            return ("C" if s == "E" else s) if bool(lab) == good else ("F" if s == "E" else None if s == "C" else s)
        if bool(lab) == good:
            if s == "O":
                return "W" if self.dirty else "C"
            if s == "L" and name != "is_open":
                return "V"
            return None if s == "F" else s
        if s in ("O", "L"):
            return "F"
        return s if s in ("N", "F", "W", "E") else (s if s != "C" else None)


def streams(prog, rep, scope):
    for f in unique(prog, scope):
        for v in [n for n in walk(f["body"]) if n["k"] == "var" and STREAM.search(n.get("t", "")) and not n["t"].endswith(("&", "*"))]:
            ifs, ofs = "basic_ifstream" in v["t"], "basic_ofstream" in v["t"]
            r = StreamRun(prog, f, lambda root, v=v: stream_path(dict(k="ref", id=v["id"], n=v["n"]), root, prog), ofs)
            judge(prog, rep, f, v["n"], r, loc(f, v), ofs, True)
    # members
    for cls, rec in sorted(prog.records.items()):
        if cls.startswith("T:"):
            continue
        for fl in rec.get("fields", []):
            if not STREAM.search(fl.get("t", "")):
                continue
            ofs = "basic_ofstream" in fl["t"]
            done = set()
            if not any(f.get("cls") == cls for f in unique(prog, scope)):
                continue
            for f in unique(prog):      # constructors are often called out of sight (make_unique)
                if f.get("cls") != cls or f["qn"] in done:
                    continue
                r = StreamRun(prog, f, lambda root, fl=fl: stream_path(dict(k="mem", n=fl["n"], f=fl["n"], b=dict(k="this")), root, prog), ofs)
                if not r.opened:
                    if not ofs:
                        r = StreamRun(prog, f, lambda root, fl=fl: stream_path(dict(k="mem", n=fl["n"], f=fl["n"], b=dict(k="this")), root, prog), ofs, entry="C")
                        if any(nd.kind == "br" and nd.n is not None and r.line_read(nd.n, nd.fr) for nd in r.g.nodes):
                            done.add(f["qn"])
                            rep.inst("read", "%s:%d %s in %s" % (f["file"], f["l"], fl["n"], f["qn"]))
                            if "E" in r.sim.states(r.g.exit):
                                rep.viol("read", "%s:%s" % (f["qn"], fl["n"]), "%s:%d" % (f["file"], f["l"]),
                                         "%s takes a failure to read from %s for the end of the file" % (f["qn"], fl["n"]))
                    continue
                done.add(f["qn"])
                if ofs:
                    # written by other methods or background steps: take it as written from the moment it is usable
                    r = StreamRun(prog, f, lambda root, fl=fl: stream_path(dict(k="mem", n=fl["n"], f=fl["n"], b=dict(k="this")), root, prog), ofs, dirty=True)
                judge(prog, rep, f, fl["n"], r, r.opened[0].loc(), ofs, False)


def judge(prog, rep, f, name, r, where, ofs, local):
    if not r.opened:
        return
    if local and not r.used:
        return                  # only asks whether the file exists
    what = "%s in %s" % (name, f["qn"])
    rep.inst("open", "%s %s" % (where, what))
    for nd in r.used_untested:
        rep.viol("open", "%s:%s" % (f["qn"], name), nd.loc(), "%s is used in %s although nobody has tested that the file could be opened" % (name, f["qn"]))
        break
    for nd in r.used_failed:
        rep.viol("open", "%s:%s:failed" % (f["qn"], name), nd.loc(), "%s is used in %s after the test that it could be opened has failed" % (name, f["qn"]))
        break
    end = r.sim.states(r.g.exit)
    if "O" in end and not local:
        rep.viol("open", "%s:%s:end" % (f["qn"], name), where, "nobody tests in %s that the file of %s could be opened" % (f["qn"], name))
    if "F" in end:
        rep.viol("open", "%s:%s:ignored" % (f["qn"], name), where, "%s goes on without an error when the file of %s cannot be opened or written" % (f["qn"], name))
    if any(nd.kind == "br" and nd.n is not None and r.line_read(nd.n, nd.fr) for nd in r.g.nodes):
        rep.inst("read", "%s %s" % (where, what))
        if "E" in end:
            rep.viol("read", "%s:%s" % (f["qn"], name), where, "%s takes a failure to read from %s for the end of the file" % (f["qn"], name))
    if ofs:
        rep.inst("written", "%s %s" % (where, what))
        if end & {"W", "L"}:
            rep.viol("written", "%s:%s" % (f["qn"], name), where, "%s is left without a test that everything written to %s has reached the file" % (f["qn"], name))


# ---------------------------------------------------------------- system calls
# name -> values of the result that mean failure; "n": fewer than asked for; "null"; "failed": MAP_FAILED
CALLS = {"fopen": ["null"], "fread": ["n"], "fgets": ["null"], "fwrite": ["n"], "fclose": [-1], "pread": [-1, 0], "mmap": ["failed"], "mremap": ["failed"],
         "truncate": [-1], "ftruncate": [-1], "rename": [-1], "ftello": [-1]}


def compare(op, a, b):
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}.get(op)


class CallRun:
    """Follows one failed result of a library call; state N before the call, B after it has failed."""

    def __init__(self, prog, f, call, val):
        self.prog, self.f, self.call, self.val = prog, f, call, val
        self.holders = {}
        for n in walk(f["body"]):
            if n["k"] == "var" and n.get("init") is not None and self.is_val(n["init"]):
                self.holders[("v", n["id"])] = 1
            if n["k"] == "bin" and n["op"] == "=" and self.is_val(n["y"]):
                x = strip(n["x"])
                if x["k"] == "ref" and "id" in x:
                    self.holders[("v", x["id"])] = 1
                elif x["k"] == "mem":
                    self.holders[("f", x["n"])] = 1
        self.g = Graph(prog, f, inline=lambda h, c, fr: h.get("cls") == f.get("cls") and len(h.get("body", {}).get("s", [])) <= 1, lambdas=lambda c: "skip", max_depth=2)
        self.sim = Sim(self.g, "N", self.step, None, lambda nd: False, refine=self.refine)

    def is_val(self, e):
        e = strip(e)
        if e is self.call:
            return True
        if e["k"] == "bin" and e["op"] == "=":
            return self.is_val(e["y"])
        return e["k"] == "ref" and ("v", e.get("id")) in self.holders or e["k"] == "mem" and ("f", e["n"]) in self.holders

    def step(self, nd, s):
        if nd.kind == "ev" and nd.n is not None:
            if nd.n is self.call:
                return ["N", "B"]
            if ends_program(nd.n):
                return []
        return [s]

    def truth(self, e):
        """Value of a condition under the failed result; None unknown."""
        e = strip(e)
        if e["k"] == "un" and e["op"] == "!":
            t = self.truth(e["x"])
            return None if t is None else not t
        if self.is_val(e):
            return {"null": False, "failed": True, "n": None}.get(self.val, bool(self.val) if isinstance(self.val, int) else None)
        if e["k"] == "call" and short(e) == "ferror":
            return True
        if e["k"] != "bin":
            return None
        op, x, y = e["op"], strip(e["x"]), strip(e["y"])
        if op in ("&&", "||"):
            a, b = self.truth(x), self.truth(y)
            if op == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if self.is_val(y) and not self.is_val(x):
            x, y = y, x
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not self.is_val(x):
            return None
        c = const_int(y)
        if self.val == "n":
            asked = [show(a) for a in self.call["a"][1:3]]
            if show(y) in asked or y["k"] == "bin" and all(show(strip(z)) in asked for z in (y["x"], y["y"])):
                return {"==": False, "!=": True, "<": True, ">=": False}.get(op)
            return None
        if self.val == "null":
            if y["k"] == "null" or c == 0:
                return {"==": True, "!=": False}.get(op)
            return None
        if self.val == "failed":
            if c == -1 or y["k"] == "cast" or any(const_int(z) == -1 for z in walk(y)):
                return {"==": True, "!=": False}.get(op)
            return None
        return None if c is None else compare(op, self.val, c)

    def refine(self, nd, lab, s):
        if nd.kind == "br" and nd.n is not None and s == "B":
            t = self.truth(nd.n)
            if t is not None and t != bool(lab):
                return None
        return s


def calls(prog, rep):
    for f in unique(prog):
        if f["file"].startswith(("src/util/Socket", "src/engine/")):
            continue
        for n in walk(f["body"]):
            if n["k"] != "call" or n.get("o") is not None:
                continue
            name = re.sub(r"^(std)?::", "", n.get("fn", ""))
            if name not in CALLS:
                continue
            rep.inst("result", "%s %s in %s" % (loc(f, n), name, f["qn"]))
            for val in CALLS[name]:
                r = CallRun(prog, f, n, val)
                if val == 0 and any(nd.n is n and "B" in r.sim.states(nd) for nd in r.g.nodes if nd.kind == "ev"):
                    rep.viol("result", "%s:%s:again" % (f["qn"], name), loc(f, n), "%s tries again without end when %s meets the end of the file" % (f["qn"], name))
                if "B" in r.sim.states(r.g.exit):
                    text = {"null": "cannot open the file", "n": "writes less than asked for", "failed": "cannot map the file", 0: "meets the end of the file"}.get(val, "fails")
                    rep.viol("result", "%s:%s:%s" % (f["qn"], name, val), loc(f, n), "%s returns normally when %s %s" % (f["qn"], name, text))


# ---------------------------------------------------------------- handlers
BROAD = ("...", "std::exception", "std::runtime_error", "ad_semsearch::Exception")


def ends_badly(body, in_main):
    """Every way through a handler throws, exits or (in main) returns an error status."""
    def stmt(s):
        # 'go': may continue behind s; 'ok': a normal return
        k = s["k"]
        if k == "blk":
            out = set()
            for x in s["s"]:
                r = stmt(x)
                out |= r - {"go"}
                if "go" not in r:
                    return out
            return out | {"go"}
        if k == "if":
            a = stmt(s["x"])
            return a | (stmt(s["y"]) if s.get("y") else {"go"})
        if k == "ret":
            return set() if in_main and s.get("e") is not None and const_int(s["e"]) != 0 else {"ok"}
        if k == "throw" or ends_program(s):
            return set()
        if k == "try":
            return stmt(s["body"])
        if k in ("for", "while", "rfor", "do", "switch"):
            return {"go"}
        if k == "call" and short(s) in ("rethrow_exception", "throw_with_nested"):
            return set()
        return {"go"}
    return not stmt(body)


def handlers(prog, rep, scope):
    mains = [f for f in unique(prog) if f["n"] == "main" and not f["file"].startswith("test")]
    for f in list(unique(prog, scope)) + [m for m in mains if m["key"] not in scope]:
        for n in walk(f["body"]):
            if n["k"] != "try":
                continue
            for h in n["h"]:
                t = re.sub(r"const |&", "", h.get("t", "...")).strip()
                if t not in BROAD:
                    continue
                rep.inst("status", "%s catch (%s) in %s" % (loc(f, n), t, f["qn"]))
                if not ends_badly(h["body"], f["n"] == "main"):
                    rep.viol("status", "%s:%s:%s" % (f["file"], f["qn"], t), loc(f, h["body"]),
                             "after an error %s goes on or ends the program without an error status (catch %s)" % (f["qn"], t))


def check(prog, rep):
    rep.rule("open", "a file stream used while building or opening an index is used only after a test that it could be opened, and a failed test stops the program", 12)
    rep.rule("written", "a file stream that was written is flushed or closed and then tested, and a failure stops the program", 6)
    rep.rule("read", "when no further line can be read from a file stream it is tested whether that is the end of the file or an error", 5)
    rep.rule("result", "a library call that reports a failure to open, read, write, map or rename a file has this result tested and does not go on", 8)
    rep.rule("status", "an error caught in the builder, the server start or a main program leads to an error status", 5)
    cg = CallGraph(prog)
    roots = [f["key"] for f in prog.all_fns() if f["n"] == "main" and re.search(r"IndexBuilder|CreatePatterns", f["file"])]
    roots += [f["key"] for f in prog.fns("Server::initialize")]
    if len(roots) < 3:
        raise AnalysisError("entry points of the index builder or the server are missing")
    scope = set(cg.reach(roots)) | set(roots)
    rep.extra["functions_in_scope"] = len(scope)
    rep.part(streams, prog, rep, scope)
    rep.part(calls, prog, rep)
    rep.part(handlers, prog, rep, scope)


run("C15", check, level="other", explanation="Typestate of every file stream (opened, tested, written, flushed, tested) and of every failing "
    "library call on the control-flow graph of its function, and the ways out of every handler of errors.")
