"""Extraction of the resolved program from /repo and access to it.

The extractor (tools/extract) is run on every translation unit of /repo/src
that the build uses.  The facts of a unit are reused only if the contents of
every file the unit read under /repo are byte-identical to those of the
earlier extraction.
"""
import concurrent.futures, hashlib, json, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
BUILD = os.path.join(VERIF, ".build")
FLAGS = ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-DLOGLEVEL=3",
         "-I" + os.path.join(VERIF, "tools", "include"),
         "-I{R}/third_party/googletest/googletest/include", "-I{R}/third_party/json",
         "-I{R}/third_party/ctre/include", "-I{R}/third_party/abseil-cpp",
         "-isystem", "{R}/third_party/re2", "-w", "-include", "cstdint", "-include", "utility",
         "-fopenmp", "-O3", "-DNDEBUG", "-std=gnu++20"]


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (exit code 2)."""


def flags():
    return [f.replace("{R}", REPO) for f in FLAGS]


def translation_units():
    """All .cpp files below src that some CMakeLists.txt names."""
    named = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        if "CMakeLists.txt" in fs:
            txt = open(os.path.join(d, "CMakeLists.txt"), errors="replace").read()
            for m in re.findall(r"[\w./-]+\.cpp", txt):
                named.add(os.path.normpath(os.path.join(d, m)))
    txt = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    for m in re.findall(r"[\w./-]+\.cpp", txt):
        named.add(os.path.normpath(os.path.join(REPO, m)))
    res = sorted(p for p in named if os.path.exists(p) and "/src/" in p)
    if len(res) < 40:
        raise AnalysisError("found only %d translation units below %s/src" % (len(res), REPO))
    return res


def _hash_files(paths, memo):
    h = hashlib.sha256()
    for p in paths:
        if p not in memo:
            try:
                with open(os.path.join(REPO, p), "rb") as f:
                    memo[p] = hashlib.sha256(f.read()).hexdigest()
            except OSError:
                memo[p] = "missing"
        h.update((p + "\0" + memo[p] + "\n").encode())
    return h.hexdigest()


def _tool_hash():
    h = hashlib.sha256(" ".join(FLAGS).encode())
    inc = os.path.join(VERIF, "tools")
    for d, ds, fs in sorted(os.walk(inc)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".py", ".pyc", ".sh")):
                continue
            h.update(f.encode())
            h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def ensure_tool():
    r = subprocess.run(["bash", os.path.join(VERIF, "tools", "build.sh")], capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])


def _extract_one(args):
    src, base, key = args
    tmp = base + ".tmp%d" % os.getpid()
    cmd = [os.path.join(BUILD, "extract"), REPO, tmp + ".jsonl", tmp + ".dep", src, "--"] + flags()
    r = subprocess.run(cmd, capture_output=True, text=True)
    errs = [l for l in r.stderr.splitlines() if " error: " in l]
    fatal = "fatal error:" in r.stderr or not os.path.exists(tmp + ".dep") or os.path.getsize(tmp + ".dep") == 0
    if fatal:
        return src, None, r.stderr[-3000:]
    os.replace(tmp + ".jsonl", base + ".jsonl")
    os.replace(tmp + ".dep", base + ".dep")
    return src, errs, ""


def extract_all(verbose=False):
    """Returns (list of fact files, info dict)."""
    ensure_tool()
    os.makedirs(CACHE, exist_ok=True)
    tool = _tool_hash()
    tus = translation_units()
    memo = {}
    todo, files, info = [], [], {"units": len(tus), "reused": 0, "diagnostics": []}
    metas = {}
    for t in tus:
        rel = os.path.relpath(t, REPO)
        base = os.path.join(CACHE, rel.replace("/", "_"))
        files.append(base + ".jsonl")
        ok = False
        try:
            meta = json.load(open(base + ".meta"))
            deps = open(base + ".dep").read().split("\n")[:-1]
            if meta["tool"] == tool and os.path.exists(base + ".jsonl") and \
                    meta["hash"] == _hash_files(deps, memo):
                ok = True
                info["reused"] += 1
                info["diagnostics"] += meta["errs"]
        except (OSError, ValueError, KeyError):
            pass
        if not ok:
            try:
                os.remove(base + ".meta")
            except OSError:
                pass
            todo.append((t, base, tool))
    # big units first
    todo.sort(key=lambda x: -os.path.getsize(x[0]))
    if todo:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for src, errs, msg in ex.map(_extract_one, todo):
                if errs is None:
                    raise AnalysisError("cannot parse %s: %s" % (src, msg))
                base = os.path.join(CACHE, os.path.relpath(src, REPO).replace("/", "_"))
                deps = open(base + ".dep").read().split("\n")[:-1]
                json.dump({"tool": tool, "hash": _hash_files(deps, memo), "errs": errs}, open(base + ".meta.tmp", "w"))
                os.replace(base + ".meta.tmp", base + ".meta")
                info["diagnostics"] += errs
    return files, info


def set_lines(node, line):
    """Propagates line numbers to all nodes."""
    stack = [(node, line)]
    while stack:
        n, l = stack.pop()
        if isinstance(n, dict):
            l = n.setdefault("l", l) if "k" in n else l
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append((v, l))
        else:
            for v in n:
                if isinstance(v, (dict, list)):
                    stack.append((v, l))


class Program:
    def __init__(self):
        self.raw = {"F": {}, "R": {}, "E": {}, "G": {}}
        self._parsed = {}
        files, self.info = extract_all()
        for f in files:
            with open(f, "rb") as fh:
                data = fh.read()
            pos = 0
            n = len(data)
            while pos < n:
                e = data.find(b"\n", pos)
                if e < 0:
                    e = n
                kind = chr(data[pos])
                t = data.find(b"\t", pos + 2)
                key = data[pos + 2:t].decode("utf-8", "replace")
                d = self.raw[kind]
                if key not in d:
                    d[key] = data[t + 1:e]
                elif kind in "FG" and "::" not in key.split("(")[0].lstrip(":"):
                    # programs have their own main, options, ...
                    m = re.search(rb'"file":"([^"]*)"', data[t + 1:min(e, t + 600)])
                    h = re.search(rb'"file":"([^"]*)"', d[key][:600])
                    if m and h and m.group(1) != h.group(1) and m.group(1).endswith(b".cpp"):
                        d.setdefault("%s@%s" % (key, m.group(1).decode()), data[t + 1:e])
                pos = e + 1
        # class hierarchy and overrides
        self.enums = {k: json.loads(v) for k, v in self.raw["E"].items()}
        self.records = {}
        for k, v in self.raw["R"].items():
            r = json.loads(v)
            r["key"] = k
            self.records[k] = r
        self.derived = {}
        for k, r in self.records.items():
            for b in r["bases"]:
                self.derived.setdefault(b, []).append(k)
        self._byname = None
        self._overriders = None

    # -- functions
    def fn(self, key):
        f = self._parsed.get(key)
        if f is None:
            raw = self.raw["F"].get(key)
            if raw is None:
                return None
            f = json.loads(raw)
            f["key"] = key
            set_lines(f, f["l"])
            fold_logs(f)
            self._parsed[key] = f
        return f

    def all_keys(self, templates=False):
        for k in self.raw["F"]:
            if templates or not k.startswith("T:"):
                yield k

    def all_fns(self, templates=False):
        for k in list(self.all_keys(templates)):
            yield self.fn(k)

    def global_(self, key):
        g = self._parsed.get("G:" + key)
        if g is None:
            raw = self.raw["G"].get(key)
            if raw is None:
                return None
            g = json.loads(raw)
            g["key"] = key
            set_lines(g, g["l"])
            self._parsed["G:" + key] = g
        return g

    def _index(self):
        if self._byname is None:
            self._byname = {}
            for k in self.raw["F"]:
                m = re.search(rb'"qn":"([^"]*)"', self.raw["F"][k][:600])
                self._byname.setdefault(m.group(1).decode() if m else "", []).append(k)
        return self._byname

    def fns(self, qn, templates=False):
        """All definitions with this qualified name (template args ignored)."""
        return [self.fn(k) for k in self._index().get(qn, []) if templates or not k.startswith("T:")]

    def the_fn(self, qn, **kw):
        r = self.fns(qn, **kw)
        if not r:
            raise AnalysisError("anchor vanished: no definition of function %s found" % qn)
        return r[0]

    def fn_names(self):
        return self._index().keys()

    def overriders(self, key):
        """Definitions that (transitively) override method `key`."""
        if self._overriders is None:
            self._overriders = {}
            for k in self.all_keys():
                raw = self.raw["F"][k]
                if b'"ov":[' in raw[:6000]:
                    f = self.fn(k)
                    for b in f.get("ov", []):
                        self._overriders.setdefault(b, []).append(k)
        res, st = [], [key]
        while st:
            for o in self._overriders.get(st.pop(), []):
                if o not in res:
                    res.append(o)
                    st.append(o)
        return res

    def targets(self, call):
        """Definitions a call node may reach (virtual calls: all overriders)."""
        fk = call.get("fk")
        if not fk:
            return []
        res = []
        if self.raw["F"].get(fk) is not None:
            res.append(fk)
        if call.get("virt") and not call.get("qual"):
            res += self.overriders(fk)
        return res

    # -- records
    def record(self, key):
        r = self.records.get(key)
        if r is None:
            raise AnalysisError("anchor vanished: class %s not found" % key)
        return r

    def subclasses(self, key):
        res, st = [], [key]
        while st:
            for d in self.derived.get(st.pop(), []):
                if d not in res and not d.startswith("T:"):
                    res.append(d)
                    st.append(d)
        return sorted(res)

    def bases(self, key):
        res, st = [], [key]
        while st:
            r = self.records.get(st.pop())
            for b in (r or {}).get("bases", []):
                if b not in res:
                    res.append(b)
                    st.append(b)
        return res

    def method(self, cls, name, inherited=True):
        """The definition(s) of method `name` of record `cls`."""
        st = [cls]
        while st:
            c = st.pop(0)
            r = self.records.get(c)
            if not r:
                continue
            ks = [m["fk"] for m in r["methods"] if m["n"] == name]
            if ks:
                return [self.fn(k) for k in ks if k in self.raw["F"]]
            if not inherited:
                break
            st += r["bases"]
        return []

    def enum(self, qn):
        e = self.enums.get(qn)
        if e is None:
            raise AnalysisError("anchor vanished: enum %s not found" % qn)
        return e


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


def fold_logs(node):
    """Turns the statements the LOG macro expands to into nodes of kind 'log'."""
    def root(e):
        while isinstance(e, dict) and e.get("k") == "call" and e.get("op") == "<<" and e["a"]:
            e = e["a"][0]
        return e
    st = [node]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if n.get("k") == "if" and n.get("x", {}).get("k") == "nop" and "y" in n:
                r = root(n["y"])
                if r.get("k") == "call" and r.get("fn", "") == "ad_utility::Log::getLog":
                    e, l = n["y"], n["l"]
                    n.clear()
                    n.update({"k": "log", "l": l, "e": e})
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))
        else:
            st.extend(v for v in n if isinstance(v, (dict, list)))
