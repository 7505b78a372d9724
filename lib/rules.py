"""Rules shared by several checks."""
from base import walk, loc
from cfg import Graph, Sim
from cg import derives


def normal_end(prog, f, body):
    """Can control reach the end of body without an exception?"""
    g = Graph(prog, dict(f, body=body, inits=[]), inline=lambda h, c, fr: False)
    sim = Sim(g, 0, lambda nd, s: [s], None, lambda nd: nd.n["k"] == "throw")
    return bool(sim.at.get(g.exit.i))


def swallow(prog, rep, cg, rule, types, what):
    """No handler below the computation of a result catches an exception of the given types and ends normally."""
    virt = [m["fk"] for m in prog.record("Operation")["methods"] if m["n"] == "computeResult"][0]
    roots = [k for k in prog.overriders(virt)] + [f["key"] for f in prog.fns("Operation::getResult")]
    seen = cg.reach(roots)
    for k in sorted(seen):
        f = prog.fn(k)
        if not f or not f.get("body") or not f["file"].startswith("src/"):
            continue
        for n in walk(f["body"]):
            if n["k"] != "try":
                continue
            left = dict(cg.node_escapes(n["body"], f))
            for h in n["h"]:
                mine = [t for t in left if h.get("all") or "t" not in h or derives(prog, t, h["t"])]
                left = {t: w for t, w in left.items() if t not in mine}
                hit = [t for t in mine if t in types]
                rep.inst(rule, "%s: handler for %s at %s (%s)" % (f["qn"], h.get("t", "anything"), loc(f, h), ", ".join(hit) or "no such error"))
                if hit and normal_end(prog, f, h["body"]):
                    rep.viol(rule, "%s %s" % (f["qn"], h.get("t", "...")), loc(f, h), what % (f["qn"], ", ".join(hit)))
