"""Call graph of the extracted program and the exceptions that can leave a function."""
import re
from base import walk, children, short, strip, const_int
from facts import AnalysisError

STD_BASE = {
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
    "std::bad_cast": "std::exception", "std::bad_typeid": "std::exception", "std::bad_function_call": "std::exception",
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::future_error": "std::logic_error", "std::range_error": "std::runtime_error",
    "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error", "std::regex_error": "std::runtime_error",
    "std::system_error": "std::runtime_error", "std::ios_base::failure": "std::system_error",
    "std::filesystem::filesystem_error": "std::system_error", "std::bad_variant_access": "std::exception",
    "std::bad_optional_access": "std::exception", "std::bad_any_cast": "std::bad_cast", "std::bad_weak_ptr": "std::exception",
    "nlohmann::detail::exception": "std::exception", "nlohmann::detail::type_error": "nlohmann::detail::exception",
    "nlohmann::detail::parse_error": "nlohmann::detail::exception", "nlohmann::detail::out_of_range": "nlohmann::detail::exception",
}
SPAWN = ("std::thread", "std::jthread", "std::async", "std::packaged_task")


def type_name(t):
    return re.sub(r"\b(const|volatile|class|struct)\b|[&*]", "", t or "").strip()


def derives(prog, t, base):
    """Is exception type t equal to or derived from base?"""
    t, base = type_name(t), type_name(base)
    seen = [t]
    for x in seen:
        if x == base:
            return True
        if x in STD_BASE:
            seen.append(STD_BASE[x])
        r = prog.records.get(x)
        if r:
            seen += [b for b in r["bases"] if b not in seen]
    return False


def library_throw(c):
    """Exception type a call of a library function documents for bad argument values, or None."""
    fn, nm = c.get("fn", ""), short(c)
    if fn.startswith("std::"):
        if "basic_string" in fn and (nm == "at" or nm == "substr" and const_int(c["a"][0]) != 0 if c["a"] else False):
            return "std::out_of_range"
        if nm == "at" and re.search(r"vector|array|map|deque", fn):
            return "std::out_of_range"
        if re.match(r"sto(i|l|ul|ll|ull|f|d|ld)$", nm):
            return "std::invalid_argument"
        if fn == "std::get" and "variant" in str(c.get("fk", "")):
            return "std::bad_variant_access"
        if nm == "value" and "optional" in fn:
            return "std::bad_optional_access"
        if nm == "any_cast":
            return "std::bad_any_cast"
    if fn.startswith("nlohmann::"):
        if nm == "dump":
            h = [strip(a) for a in c["a"]]
            if any(a.get("k") == "ref" and a.get("n") in ("replace", "ignore") for a in h):
                return None
            return "nlohmann::detail::type_error"
        if nm in ("parse", "at", "get", "operator>>"):
            return "nlohmann::detail::exception"
    return None


class CallGraph:
    def __init__(self, prog, library=library_throw, spawned=True):
        self.prog = prog
        self.library = library
        self.follow_spawned = spawned
        self._out = {}
        self._dtor = {}
        self._esc = {}

    # ------------------------------------------------------------ edges
    def dtor_of(self, t):
        """Key of the destructor definition of class type t, if the code base defines one."""
        t = type_name(t)
        if t in self._dtor:
            return self._dtor[t]
        r = self.prog.records.get(t)
        k = None
        if r:
            for m in r["methods"]:
                if m["n"].startswith("~"):
                    k = m["fk"] if m["fk"] in self.prog.raw["F"] else None
        self._dtor[t] = k
        return k

    def spawned_lambdas(self, n):
        """Lambda nodes handed to a thread / async call below n (they run elsewhere)."""
        r = set()
        for c in walk(n):
            if c["k"] in ("call", "ctor") and (c.get("fn", "").startswith(SPAWN) or
                                               (short(c) in ("emplace_back", "push_back") and "std::thread" in (c.get("fk") or ""))):
                for a in c["a"]:
                    a = strip(a)
                    if a["k"] == "lambda":
                        r.add(id(a))
        return r

    def bodies(self, f):
        for i in f.get("inits", []):
            if i.get("e"):
                yield i["e"]
        if f.get("body"):
            yield f["body"]

    def out(self, key):
        """[(call node, target key)] of function key."""
        r = self._out.get(key)
        if r is not None:
            return r
        r = []
        f = self.prog.fn(key)
        if f:
            for b in self.bodies(f):
                for n in walk(b):
                    k = n["k"]
                    if k in ("call", "ctor"):
                        for t in self.prog.targets(n):
                            r.append((n, t))
                        if k == "call" and not n.get("fk") and n.get("fn"):
                            pass
                    elif k == "ref" and n.get("dk") == "fn" and n.get("fk") in self.prog.raw["F"]:
                        r.append((n, n["fk"]))
                    elif k == "var":
                        d = self.dtor_of(n.get("t", ""))
                        if d and "&" not in n.get("t", ""):
                            r.append((n, d))
                    elif k == "new" and n.get("fk") in self.prog.raw["F"]:
                        r.append((n, n["fk"]))
        self._out[key] = r
        return r

    def reach(self, roots, stop=lambda k: False):
        """{key: (caller key, node)} of everything reachable from the keys in roots."""
        seen = {k: None for k in roots}
        st = list(roots)
        while st:
            k = st.pop()
            if stop(k):
                continue
            for n, t in self.out(k):
                if t not in seen:
                    seen[t] = (k, n)
                    st.append(t)
        return seen

    def chain(self, seen, key):
        r = []
        while key is not None:
            f = self.prog.fn(key)
            r.append(f["qn"])
            key = seen[key][0] if seen[key] else None
        return list(reversed(r))

    # ------------------------------------------------------------ exceptions
    def escapes(self, key):
        """{type: (file:line, text)} of exceptions that may leave function key (to a fixpoint over the call graph)."""
        if key in self._esc:
            return self._esc[key]
        todo = list(self.reach([key]))
        esc = {k: self._esc.get(k, {}) for k in todo}
        done = set(self._esc)
        callers = {}
        for k in todo:
            for _, t in self.out(k):
                callers.setdefault(t, set()).add(k)
        work = [k for k in todo if k not in done]
        pend = set(work)
        while work:
            k = work.pop()
            pend.discard(k)
            new = self._local(self.prog.fn(k), esc)
            if set(new) - set(esc[k]):
                new.update({t: w for t, w in esc[k].items()})
                esc[k] = new
                for c in callers.get(k, ()):
                    if c not in pend and c not in done:
                        pend.add(c)
                        work.append(c)
        self._esc.update(esc)
        return esc[key]

    def _local(self, f, esc):
        res = {}
        for b in self.bodies(f):
            res.update(self.node_escapes(b, f, esc))
        return res

    def node_escapes(self, n, f, esc=None, caught=None):
        """Exceptions that may leave statement / expression n of function f."""
        res = {}
        st = [n]
        spawned = None
        while st:
            x = st.pop()
            k = x.get("k")
            if k == "try":
                inner = self.node_escapes(x["body"], f, esc, caught)
                left = dict(inner)
                for h in x["h"]:
                    if h.get("all") or "t" not in h:
                        mine, left = left, {}
                    else:
                        mine = {t: w for t, w in left.items() if derives(self.prog, t, h["t"])}
                        left = {t: w for t, w in left.items() if t not in mine}
                        # a handler for a derived type may get some of a base type
                    res.update(self.node_escapes(h["body"], f, esc, mine))
                res.update(left)
                continue
            if k == "throw":
                if x.get("e") is None:
                    res.update(caught or {})
                else:
                    res.setdefault(type_name(x.get("t", "?")), ("%s:%d" % (f["file"], x.get("l", f["l"])), "throw"))
            elif k == "lambda":
                if spawned is None:
                    spawned = self.spawned_lambdas(n)
                if id(x) in spawned:
                    st += [c for c in children({"caps": x.get("caps", [])})]
                    continue
            elif k in ("call", "ctor"):
                lt = self.library(x) if self.library and k == "call" else None
                if lt:
                    res.setdefault(lt, ("%s:%d" % (f["file"], x.get("l", f["l"])), short(x)))
                for t in self.prog.targets(x):
                    g = self.prog.fn(t)
                    if g is None:
                        continue
                    es = esc.get(t) if esc is not None else self.escapes(t)
                    for ty, w in (es or {}).items():
                        res.setdefault(ty, w)
            elif k == "var":
                pass
            elif k == "log":
                continue
            st.extend(children(x))
        return res
