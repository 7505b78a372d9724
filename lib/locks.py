"""Recognition of lock acquisition and release on graph nodes."""
import re
from base import strip, short
from cfg import canon

GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")


def is_guard_type(t):
    t = t.replace("const ", "")
    return t.startswith(GUARDS) or "LockPtr<" in t.split("(")[0] and t.lstrip().startswith(("ad_utility::LockPtr<", "LockPtr<"))


def raii(t):
    return is_guard_type(t)


def lock_targets(e, fr, prog):
    """Paths of the mutexes / Synchronized objects a guard expression acquires."""
    e = strip(e)
    if e["k"] == "call" and short(e) in ("wlock", "rlock"):
        return [canon(e.get("o"), fr, prog)]
    if e["k"] == "ctor" and is_guard_type(e.get("t", "")):
        if any("defer_lock" in a.get("t", "") or "defer_lock" in a.get("n", "") for a in map(strip, e["a"])):
            return []
        return [canon(a, fr, prog) for a in e["a"] if "_lock_t" not in a.get("t", "")]
    if e["k"] in ("call", "cond") and is_guard_type(e.get("t", "")):
        return [(("guard", e.get("t", "")),)]
    return []


def acquires(n, prog):
    """Lock paths acquired by graph node n."""
    if n.kind not in ("ev", "leave") or n.n is None:
        return []
    e = n.n
    if e["k"] == "call" and short(e) in ("wlock", "rlock") and "Synchronized" in e.get("fn", ""):
        return [canon(e.get("o"), n.fr, prog)]
    if e["k"] == "ctor" and is_guard_type(e.get("t", "")) and not e.get("cm2"):
        return lock_targets(e, n.fr, prog)
    if e["k"] == "call" and short(e) in ("lock", "lock_shared") and re.search(r"mutex|unique_lock|shared_lock|SpinLock", e.get("fn", "")):
        o = strip(e.get("o"))
        if o["k"] == "ref" and is_guard_type(o.get("t", "")):
            d = n.fr.owner(o["id"]).vars.get(o["id"])
            if d and d.get("init"):
                i = strip(d["init"])
                return [canon(i["a"][0], n.fr.owner(o["id"]), prog)] if i["k"] == "ctor" and i["a"] else []
        return [canon(e.get("o"), n.fr, prog)]
    return []


def releases(n, prog):
    """Lock paths released by graph node n."""
    if n.n is None:
        return []
    if n.kind == "dtor":
        e = n.n
        if e["k"] == "var":
            if is_guard_type(e.get("t", "")) and e.get("init"):
                i = strip(e["init"])
                if i["k"] == "ctor" and i["a"]:
                    return [canon(a, n.fr, prog) for a in i["a"] if "_lock_t" not in a.get("t", "")]
                return lock_targets(i, n.fr, prog)
            return []
        if is_guard_type(e.get("t", "")):
            return lock_targets(e, n.fr, prog)
        return []
    if n.kind == "ev" and n.n["k"] == "call" and short(n.n) in ("unlock", "unlock_shared") and \
            re.search(r"mutex|unique_lock|shared_lock|SpinLock", n.n.get("fn", "")):
        o = strip(n.n.get("o"))
        if o["k"] == "ref" and is_guard_type(o.get("t", "")):
            fr = n.fr.owner(o["id"])
            d = fr.vars.get(o["id"])
            if d and d.get("init"):
                i = strip(d["init"])
                return [canon(i["a"][0], fr, prog)] if i["k"] == "ctor" and i["a"] else []
        return [canon(n.n.get("o"), n.fr, prog)]
    return []
