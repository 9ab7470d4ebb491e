#!/usr/bin/env python3
"""Runs the checks on single-site variants of the source and reports which ones
notice.  Usage: mutate.py [ID...]; variants are listed in variants.py as
(property, file, old, new, nth occurrence or None for the only one, 'bug'|'same').
'bug' variants must be reported, 'same' ones (behaviour kept) must not."""
import os, sys, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)


def one(v):
    pid, f, old, new, nth, kind = v
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("_build", ".git"))
        p = os.path.join(d, "r", f)
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (nth is None and n != 1):
            return v, "STALE (%d matches)" % n, ""
        if nth is None:
            nth = 0
        parts = s.split(old)
        s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, "w").write(s)
        env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d)
        r = subprocess.run([sys.executable, VERIF + "/checks/run.py", pid], capture_output=True, text=True, env=env, timeout=900)
        out = r.stdout
        return v, {0: "quiet", 1: "VIOLATION" if "VIOLATION property" in out else "exit1"}.get(r.returncode, "error %d" % r.returncode), out + r.stderr[-1500:]
    finally:
        shutil.rmtree(d)


def main():
    from variants import V
    vs = [v for v in V if not sys.argv[1:] or v[0] in sys.argv[1:]]
    bad = 0
    with cf.ThreadPoolExecutor(7) as ex:
        for v, r, out in ex.map(one, vs):
            ok = (r == "VIOLATION") == (v[5] == "bug") and not r.startswith(("STALE", "exit1")) and (v[5] == "bug" or r == "quiet")
            bad += not ok
            print("%s %-5s %-4s %-9s %s: %s -> %s" % ("ok  " if ok else "MISS", v[0], v[5], r, v[1], v[2].strip().replace("\n", "|")[:60], v[3].strip().replace("\n", "|")[:70]))
            if "-v" in os.environ.get("MUTV", "") or (not ok and r.startswith("error")):
                print(out[-1200:])
    print("%d of %d as expected" % (len(vs) - bad, len(vs)))


main()
