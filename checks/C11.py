"""C11: concurrent queries do not disturb each other through shared state."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from base import run, walk, strip, short, show, loc, AnalysisError
from cg import CallGraph, SPAWN
from effects import Effects, text, norm, pointee, bare

# State behind these types is changed under its own synchronisation (C02, C05 and C09 decide that).
SYNC = re.compile(r"^(std::(atomic|mutex|shared_mutex|timed_mutex|recursive_mutex|condition_variable|once_flag)|ad_utility::(Synchronized|LockPtr|ConcurrentCacheDetail::ResultInProgress))\b")
# The system itself serialises the use of a listening socket.
SYSTEM = re.compile(r"^ad_utility::Socket$")
# Library functions that change state of the whole process.
PROCESS = {"setlocale", "strtok", "chdir", "fchdir", "setenv", "putenv", "unsetenv", "umask", "srand", "srandom", "rand", "random", "setrlimit", "signal", "sigaction", "tzset",
           "nice", "exit", "abort", "_exit", "quick_exit", "sync_with_stdio", "imbue", "locale::global", "set_terminate", "dup2", "setvbuf"}
LOCAL_STREAM = re.compile(r"stringstream|fstream")
FATAL = {"exit", "abort", "_exit", "quick_exit"}     # decided by C03


def types_in(t):
    """Class names mentioned in a type (template arguments included)."""
    return set(re.findall(r"[A-Za-z_][\w:]*", t))


def shared_classes(prog, roots):
    """Classes whose objects the server owns while it runs: fields, owned pointers, elements and base classes of the server."""
    by = {}
    for k, r in prog.records.items():
        by.setdefault(norm(k), k)
    out, why = {}, [(r, "the server") for r in roots]
    while why:
        k, w = why.pop()
        if k in out:
            continue
        out[k] = w
        r = prog.records[k]
        for b in r["bases"]:
            why.append((b, w)) if b in prog.records else None
        for f in r["fields"]:
            t = f["t"]
            if re.match(r"(const )?std::shared_ptr<", t) and SYNC.match(pointee(t)):
                continue
            if SYNC.match(bare(t)) or SYSTEM.match(bare(t)):
                continue
            for c in nested(t, by):
                why.append((c, "%s::%s" % (k.split("<")[0], f["n"])))
    return out


def nested(t, by):
    """Records named in a type, outermost first."""
    n = norm(t)
    if SYNC.match(n):
        return []
    if n in by:
        return [by[n]]
    m = re.match(r"^([\w:]+)<(.*)>", n)
    if not m:
        return []
    args, d, cur = [], 0, ""
    for c in m.group(2):
        if c in "<(":
            d += 1
        if c in ">)":
            d -= 1
        if c == "," and d == 0:
            args.append(cur)
            cur = ""
        else:
            cur += c
    args.append(cur)
    out = []
    for a in args:
        out += nested(a.strip(), by)
    return out


def workers(prog):
    """The functions the server's threads run."""
    out = []
    for k in prog.all_keys():
        raw = prog.raw["F"][k]
        if b"thread" not in raw or not k.startswith("Server::"):
            continue
        f = prog.fn(k)
        for n in walk(f["body"]):
            if n["k"] in ("call", "ctor") and (n.get("fn", "").startswith(SPAWN) or short(n) in ("emplace_back", "push_back") and "std::thread" in (n.get("fk") or "")):
                for a in n["a"]:
                    for x in walk(a):
                        if x["k"] == "ref" and x.get("dk") == "fn" and x.get("fk") in prog.raw["F"]:
                            out.append(x["fk"])
                        elif x["k"] == "call":
                            out += prog.targets(x)
    return list(dict.fromkeys(out))


def check(prog, rep):
    rep.rule("owned", "a request changes nothing in the objects the server owns and shares between requests (index, vocabularies, files, settings)", 25)
    rep.rule("file", "a request reads from an opened index file only at an explicit offset and leaves the read position of the file alone", 5)
    rep.rule("global", "a request changes no program-wide variable and no static local variable", 3)
    rep.rule("borrowed", "what a request only refers to is changed through its own synchronisation only", 3)
    rep.rule("process", "a request calls no function that changes the state of the whole process", 500)
    roots = workers(prog)
    if not roots:
        raise AnalysisError("no function is given to the threads of the server")
    cg = CallGraph(prog)
    E = Effects(prog, cg)
    keys = E.analyse(roots)
    rep.extra["request_functions"] = len(keys)
    cls = {prog.fn(k).get("cls") for k in roots}
    shared = shared_classes(prog, [c for c in cls if c in prog.records])
    names = {norm(k): k for k in shared}
    for k, w in sorted(shared.items()):
        rep.inst("owned", "%s (held by %s)" % (k.split("<")[0], w))
    # classes that hold references into the server for the time of a request
    borrow = {}
    for k, r in prog.records.items():
        for f in r["fields"]:
            t = f["t"].strip()
            if (t.endswith("&") or re.search(r"\*\s*(const)?$", t)) and norm(pointee(t)) in names and k not in shared:
                borrow[k] = 1
    fields = {}
    for k in borrow:
        if not any(x for x in prog.records[k]["fields"] if norm(pointee(x["t"])) == "Index"):
            continue
        for f in prog.records[k]["fields"]:
            t = f["t"].strip()
            if t.endswith("&") or re.search(r"\*\s*(const)?$", t):
                fields["%s::%s" % (k, f["n"])] = t
                rep.inst("borrowed", "%s::%s (%s)" % (k, f["n"], t.split("<")[0]))
    sync_fields = {"%s::%s" % (k, f["n"]) for k, r in prog.records.items() for f in r["fields"]
                   if SYNC.match(bare(f["t"])) or SYSTEM.match(bare(f["t"])) and k in shared}
    glob_types = {}
    for g in prog.raw["G"]:
        x = prog.global_(g)
        if x and x.get("file", "").startswith("src/"):
            glob_types[g] = x
    for g, x in sorted(glob_types.items()):
        if not const_var(x):
            rep.inst("global", "%s (%s)" % (g, x.get("file")))
    for k in keys:
        f = prog.fn(k)
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] == "var" and n.get("static") and not const_var(n):
                    rep.inst("global", "%s::%s (%s)" % (f["qn"], n["n"], loc(f, n)))
    seen = set()
    for k in roots:
        for (root, path), (where, what) in sorted(E.eff[k].items(), key=str):
            if any(s in sync_fields for s in path) or any(isinstance(s, str) and SYNC.match(s) for s in path):
                continue
            if root[0] == "g":
                x = glob_types.get(root[1])
                if root[1].startswith(("std::", "::std")) or x is None and not any(root[1] in q for q in prog.raw["G"]):
                    continue
                if x and (x.get("tls") or SYNC.match(bare(x.get("t", "")))):
                    continue
                rep.viol("global", root[1], where, f"handling a request changes the program-wide variable {root[1]}: {what}")
            elif root[0] == "s":
                v = static_var(prog, keys, root[1])
                if v is not None and (v.get("tls") or SYNC.match(bare(v.get("t", "")))):
                    continue
                rep.viol("global", root[1], where, f"handling a request changes the static variable {root[1]}: {what}")
            elif root == ("this",) or root[0] == "t" and root[1] in names:
                if root[0] == "t" and root[2].startswith("local:"):
                    continue
                if root[0] == "t" and SYNC.match(root[1]):
                    continue
                pl = text((root, path))
                rid = "file" if path and any("File::" in s for s in path) or root[0] == "t" and root[1].endswith("::File") else "owned"
                if (rid, pl) in seen:
                    continue
                seen.add((rid, pl))
                if rid == "file":
                    rep.viol(rid, pl.replace("this", "Server", 1), where, f"handling a request moves or changes an opened file shared between requests ({pl}): {what}")
                else:
                    rep.viol(rid, pl.replace("this", "Server", 1), where, f"handling a request changes {pl.replace('this', 'the server', 1)}, which is shared between requests: {what}")
            else:
                hit = [i for i, s in enumerate(path) if s in fields and path[i + 1:i + 2] == ("*",)] or (root[0] == "t" and root[2] in fields)
                if hit and not SYNC.match(norm(pointee(fields[root[2]])) if root[0] == "t" and root[2] in fields else ""):
                    rep.viol("borrowed", text((root, path)), where, f"handling a request changes {text((root, path))} without synchronisation: {what}")
    # accesses to opened files
    for k in keys:
        f = prog.fn(k)
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] == "call" and n.get("fn", "").startswith("ad_utility::File::"):
                    rep.inst("file", "%s %s" % (loc(f, n), show(n)))
    # library functions with state of the process
    for k in keys:
        f = prog.fn(k)
        if not f["file"].startswith("src/"):
            continue
        rep.inst("process", f["qn"])
        for b in cg.bodies(f):
            for n in walk(b):
                if n["k"] != "call" or prog.targets(n):
                    continue
                fn, nm = n.get("fn", ""), short(n)
                if nm in PROCESS - FATAL and (fn.startswith(("std::", "::")) or "::" not in fn) or fn == "std::locale::global":
                    if n.get("o") is not None and (nm != "imbue" or not global_stream(n["o"])):
                        continue
                    rep.viol("process", "%s:%s" % (f["qn"], nm), loc(f, n), f"handling a request calls {nm}, which acts on the whole process: {show(n)}")


def global_stream(o):
    o = strip(o)
    return o["k"] == "ref" and "id" not in o


def const_var(x):
    t = x.get("t", "")
    return bool(re.match(r"^const\b", t) and not t.rstrip().endswith("*")) or t.rstrip().endswith("const") or bool(x.get("constexpr"))


def static_var(prog, keys, name):
    fn, _, v = name.rpartition("::")
    for k in keys:
        f = prog.fn(k)
        if f["qn"] == fn:
            for n in walk(f["body"]):
                if n["k"] == "var" and n["n"] == v:
                    return n
    return None


run("C11", check, level="checked-over-all-paths", explanation="Interprocedural write-effect analysis of everything the server's threads can reach: every assignment, non-const library "
    "call and call by reference is traced back, through aliases, calls and returned references, to the object it changes; objects owned by the server, opened files, program-wide and static variables must not be among them.")
