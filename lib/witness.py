"""Compile-time witnesses: small sources whose static assertions are decided by the compiler against the current tree."""
import os, re, subprocess
from facts import VERIF, REPO, AnalysisError, flags


def check(rep, rule, name):
    """Compiles witness/<name>.cpp; a failing assertion marked WITNESS is a violation, anything else an analysis error."""
    src = os.path.join(VERIF, "witness", name + ".cpp")
    text = open(src).read()
    asserts = re.findall(r'"WITNESS ([^"]*)"', text)
    for a in asserts:
        rep.inst(rule, "static_assert: not (%s)" % a)
    r = subprocess.run(["clang++-18", "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics"] + flags() + ["-I", REPO, src],
                       capture_output=True, text=True)
    if r.returncode == 0:
        return
    errs = [l for l in r.stderr.splitlines() if " error: " in l]
    hits = [m.group(1) for l in errs for m in [re.search(r"WITNESS (.*)$", l)] if m]
    for h in hits:
        rep.viol(rule, h.strip('"'), "%s (compiled against the headers of the current tree)" % os.path.relpath(src, VERIF), h.strip('"'))
    if not hits:
        raise AnalysisError("the witness %s does not compile: %s" % (name, "; ".join(errs[:3])))
