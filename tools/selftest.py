#!/usr/bin/env python3
"""Runs the checks against small edits of /repo: selftest/<id>.py lists BUGS (must be reported) and SAFE (must stay
quiet) as (name, file, old text, new text) or (name, [(file, old, new), ...]).  Edits are undone afterwards.
usage: selftest.py [ID ...] [-k NAME] [--all]   (--all: run every check on the SAFE edits, not only ID)"""
import glob, shutil, importlib.util, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/tmp/selftest-%d/repo" % os.getpid()


def load(pid):
    spec = importlib.util.spec_from_file_location("st_" + pid, os.path.join(V, "selftest", pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run(pid):
    p = subprocess.run([sys.executable, os.path.join(V, "checks", pid + ".py")], capture_output=True, text=True, cwd=V,
                       env=dict(os.environ, VERIF_REPO=REPO, VERIF_CACHE=REPO + "-cache", VERIF_EVIDENCE=REPO + "-evidence"))
    return p.returncode, p.stdout + p.stderr


def revert():
    subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])


def main():
    args = sys.argv[1:]
    only = args[args.index("-k") + 1] if "-k" in args else None
    every = "--all" in args
    ids = [a for a in args if not a.startswith("-") and a != only]
    allids = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, "checks", "C*.py")))
    ids = ids or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, "selftest", "C*.py")))
    os.makedirs(os.path.dirname(REPO))
    subprocess.check_call(["git", "clone", "-q", "/repo", REPO])
    for m in glob.glob("/repo/third_party/*"):
        subprocess.check_call(["cp", "-a", m, os.path.join(REPO, "third_party")])
    subprocess.check_call(["cp", "-a", os.path.join(V, ".cache"), REPO + "-cache"])
    try:
        work(ids, allids, only, every)
    finally:
        shutil.rmtree(os.path.dirname(REPO))


def work(ids, allids, only, every):
    assert not subprocess.check_output(["git", "-C", REPO, "status", "--porcelain", "-uno"]).strip(), "copy not clean"
    fails = 0
    for pid in ids:
        m = load(pid)
        for kind in ("BUGS", "SAFE"):
            for item in getattr(m, kind, []):
                name, edits = item[0], (item[1] if isinstance(item[1], list) else [item[1:4]])
                if only and only not in name:
                    continue
                try:
                    bad = None
                    for f, old, new in edits:
                        p = os.path.join(REPO, f)
                        s = open(p).read()
                        if s.count(old) < 1:
                            bad = "text not found in %s: %s" % (f, old[:60])
                            break
                        open(p, "w").write(s.replace(old, new, 1))
                    if bad:
                        print("?? %s %s: %s" % (pid, name, bad), flush=True)
                        fails += 1
                        continue
                    for q in ([pid] if kind == "BUGS" or not every else allids):
                        rc, out = run(q)
                        want = 1 if kind == "BUGS" else 0
                        if rc != want:
                            fails += 1
                        lines = [l for l in out.split("\n") if "[" in l and "{" in l and not l.startswith("KNOWN")]
                        msg = (lines[0][:150] if lines else out.strip().split("\n")[-1][:200]) if (rc != 0) else ""
                        print("%s %s %s %s (%s) rc=%d %s" % ("ok  " if rc == want else "FAIL", q, kind, name, pid, rc, msg), flush=True)
                finally:
                    revert()
    print("failures:", fails)
    sys.exit(1 if fails else 0)


main()
