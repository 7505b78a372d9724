"""Common parts of all checks: AST walking, reporting, evidence."""
import json, os, sys, time, traceback
from facts import VERIF, REPO, AnalysisError, program

EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


# ---------------------------------------------------------------- walking
def children(n):
    """Direct child nodes (dicts with a kind) in source order."""
    for key, v in n.items():
        if isinstance(v, dict):
            if "k" in v:
                yield v
            else:
                yield from children(v)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    if "k" in x:
                        yield x
                    else:
                        yield from children(x)


def walk(n, into_lambdas=True):
    """All nodes below n (n included), pre-order."""
    st = [n]
    while st:
        x = st.pop()
        if "k" in x:
            yield x
            if x["k"] == "lambda" and not into_lambdas and x is not n:
                continue
        st.extend(reversed(list(children(x))))


def calls(n, name=None, into_lambdas=True):
    for x in walk(n, into_lambdas):
        if x["k"] in ("call", "ctor"):
            if name is None or callee(x) == name or short(x) == name:
                yield x


def callee(c):
    """qualified name of the callee ('' if not resolved)"""
    return c.get("fn", "")


def short(c):
    f = c.get("fn", "")
    if not f and c.get("ce"):
        f = c["ce"].get("n", "")
    return f.rsplit("::", 1)[-1]


def strip(e):
    """Drops casts, moves, default-argument wrappers and address/deref pairs."""
    while e is not None:
        k = e["k"]
        if k == "cast":
            e = e["e"]
        elif k == "defarg":
            e = e["e"]
        elif k == "call" and e.get("fn") in ("std::move", "std::forward", "std::as_const") and len(e["a"]) == 1:
            e = e["a"][0]
        elif k == "ctor" and len(e["a"]) == 1 and e.get("cm2"):
            e = e["a"][0]
        elif k == "list" and len(e["a"]) == 1:
            e = e["a"][0]
        else:
            break
    return e


def const_int(e):
    e = strip(e) if e else e
    if e is None:
        return None
    if "v" in e and isinstance(e["v"], (int,)) and e["k"] in ("int", "char", "bool", "ref", "sizeof", "gen"):
        return e["v"]
    if e["k"] == "un" and e["op"] == "-":
        v = const_int(e["x"])
        return None if v is None else -v
    if e["k"] == "bin":
        a, b = const_int(e["x"]), const_int(e["y"])
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b,
                    "/": lambda: a // b if b else None, "|": lambda: a | b, "&": lambda: a & b,
                    "==": lambda: int(a == b), "!=": lambda: int(a != b)}[e["op"]]()
        except KeyError:
            return None
    return None


def show(e, depth=0):
    """Short textual rendering of an expression for reports."""
    if e is None:
        return ""
    if depth > 6:
        return "..."
    k = e["k"]
    s = lambda x: show(x, depth + 1)
    if k == "ref":
        return e.get("n", "?")
    if k == "mem":
        b = e.get("b")
        if not b or b["k"] == "this":
            return e["n"]
        return s(b) + ("->" if e.get("arrow") else ".") + e["n"]
    if k == "this":
        return "this"
    if k in ("int", "char", "bool", "flt"):
        return str(e.get("v"))
    if k == "str":
        return json.dumps(e.get("v", ""))
    if k == "call":
        if "op" in e:
            a = e["a"]
            if e["op"] == "[]" and len(a) == 2:
                return "%s[%s]" % (s(a[0]), s(a[1]))
            if e["op"] == "()":
                return "%s(%s)" % (s(a[0]), ", ".join(map(s, a[1:])))
            if len(a) == 2:
                return "%s %s %s" % (s(a[0]), e["op"], s(a[1]))
            if len(a) == 1:
                return "%s%s" % (e["op"], s(a[0]))
        nm = short(e) or "?"
        o = e.get("o")
        pre = ""
        if o is not None and o["k"] != "this":
            pre = s(o) + ("->" if e.get("arrow") else ".")
        return "%s%s(%s)" % (pre, nm, ", ".join(s(x) for x in e["a"] if x["k"] != "defarg"))
    if k == "ctor":
        if e.get("cm2") and len(e["a"]) == 1:
            return s(e["a"][0])
        return "%s{%s}" % (e.get("t", "").split("<")[0].split("::")[-1], ", ".join(s(x) for x in e["a"] if x["k"] != "defarg"))
    if k == "bin":
        return "%s %s %s" % (s(e["x"]), e["op"], s(e["y"]))
    if k == "un":
        if e["op"].startswith("p"):
            return s(e["x"]) + e["op"][1:]
        return e["op"] + s(e["x"])
    if k == "cond":
        return "%s ? %s : %s" % (s(e["c"]), s(e["x"]), s(e["y"]))
    if k == "cast":
        return s(e["e"])
    if k == "sub":
        return "%s[%s]" % (s(e["b"]), s(e["i"]))
    if k == "list":
        return "{%s}" % ", ".join(map(s, e["a"]))
    if k == "sizeof":
        return "sizeof(%s)" % e.get("st", "")
    if k == "lambda":
        return "[lambda]"
    if k == "defarg":
        return s(e["e"])
    if k == "new":
        return "new " + e.get("t", "")
    if k == "null":
        return "nullptr"
    return k


def is_log(n):
    """Is this a statement of the LOG macro (its output is not a result)?"""
    for c in walk(n):
        if c["k"] == "call" and c.get("fn", "").startswith("ad_utility::Log::getLog"):
            return True
    return False


def loc(fn, n=None):
    return "%s:%d" % (fn["file"], (n or fn).get("l", fn["l"]))


# ---------------------------------------------------------------- reporting
class Reporter:
    def __init__(self, pid, level="other", explanation="", technique_rule="", assumptions=()):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.found = []          # (key, text)
        self.instances = {}      # rule -> list of instance strings
        self.mins = {}           # rule -> minimum
        self.explanation = explanation
        self.rules = {}
        self.assumptions = list(assumptions)
        self.extra = {}
        self.errors = []         # what could not be analysed

    def rule(self, rid, text, minimum=1):
        """Declares a rule; fewer than `minimum` instances is an analysis error."""
        self.rules[rid] = text
        self.mins[rid] = minimum
        self.instances.setdefault(rid, [])

    def inst(self, rid, what):
        self.instances.setdefault(rid, []).append(what)

    def viol(self, rid, key, where, msg):
        """key: stable identity of the construct (no line numbers)."""
        self.found.append((rid, key, where, msg))

    def finish(self):
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.rstrip("\n")
                if line.startswith("finding: property=%s " % self.pid):
                    rest = line.split(" ", 2)[2]
                    k, _, what = rest.partition(" -- ")
                    known[k.strip()] = what
        for rid, m in self.mins.items():
            if len(self.instances.get(rid, [])) < m:
                self.errors.append("rule %s (%s): only %d instances found, at least %d confirmed by reading; "
                                   "the anchor of the rule has moved" % (rid, self.rules[rid], len(self.instances.get(rid, [])), m))
        new, old = [], []
        seen = set()
        for v in self.found:
            if (v[0], v[1]) in seen:
                continue
            seen.add((v[0], v[1]))
            (old if "%s:%s" % (v[0], v[1]) in known else new).append(v)
        os.makedirs(EVID, exist_ok=True)
        p = program()
        cov = dict(explanation=self.explanation,
                   translation_units=p.info["units"],
                   functions_available=sum(1 for _ in p.all_keys()),
                   rules=[dict(id=r, rule=t, instances=len(self.instances.get(r, []))) for r, t in self.rules.items()],
                   obligations=sum(len(v) for v in self.instances.values()),
                   discharged=sum(len(v) for v in self.instances.values()) - len(seen),
                   samples={r: v[:8] for r, v in self.instances.items()},
                   known_findings=["%s:%s" % (v[0], v[1]) for v in old],
                   parse_diagnostics=sorted(set(p.info["diagnostics"]))[:10])
        cov.update(self.extra)
        tier = os.environ.get("VERIF_TIER", "quick")
        ev = dict(property=self.pid, tier=tier if tier in ("quick", "thorough") else "quick",
                  seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 3), violations=len(new), assumptions=self.assumptions)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rep = os.path.join(EVID, self.pid + ".violations.txt")
        with open(rep, "w") as f:
            for rid, key, where, msg in new:
                f.write("%s: [%s] %s\n    rule: %s\n    construct: %s\n" % (where, rid, msg, self.rules.get(rid, ""), key))
        print("%s: %d translation units, %d obligations over %d rules, %d violated, %d known" %
              (self.pid, p.info["units"], cov["obligations"], len(self.rules), len(new), len(old)))
        for r in self.rules:
            print("  rule %s: %d instances - %s" % (r, len(self.instances.get(r, [])), self.rules[r]))
        for v in old:
            print("KNOWN-FINDING: property=%s %s (%s) %s" % (self.pid, "%s:%s" % (v[0], v[1]), v[2], v[3]))
        for rid, key, where, msg in new:
            print("%s: [%s] %s {%s}" % (where, rid, msg, key))
        for e in self.errors:
            print("ANALYSIS-ERROR %s: %s" % (self.pid, e))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        return 2 if self.errors else 0

    def part(self, fn, *args):
        """Runs one part of a check; if it cannot be analysed the other parts still report what they find."""
        try:
            return fn(*args)
        except AnalysisError as e:
            self.errors.append(str(e))
        except Exception:
            traceback.print_exc()
            self.errors.append("internal error in " + getattr(fn, "__name__", "?"))


def run(pid, fn, **kw):
    """Entry point of a check script."""
    try:
        r = Reporter(pid, **kw)
        r.part(fn, program(), r)
        sys.exit(r.finish())
    except AnalysisError as e:
        print("ANALYSIS-ERROR %s: %s" % (pid, e))
        sys.exit(2)
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR %s: internal error" % pid)
        sys.exit(3)
