#!/usr/bin/env python3
"""Runs every check on variants listed in a file (as in variants.py): which
check notices a defect, and whether any is disturbed by a rewrite.
Usage: campaign.py FILE [number...]"""
import os, sys, subprocess, shutil, tempfile, json, importlib.util, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
# Sources which only the later checks read
LEAF = ["lube/" + x + ".cpp" for x in "json xmlfile utf8 string stream txtfile inifile gedfile path config curl sndfile module dft-mkl gnuplot graph".split()]


def check(d, pid):
    env = dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev", VERIF_DEBUG="1")
    r = subprocess.run([sys.executable, VERIF + "/checks/run.py", pid], capture_output=True, text=True, env=env, timeout=900)
    return pid, r.returncode, r.stdout + r.stderr[-1500:]


def one(k, v):
    pid, f, old, new, nth, kind = v
    d = tempfile.mkdtemp(prefix="cam", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns("_build", ".git"))
        edits = [(f, old, new, nth)] if isinstance(old, str) else old
        for f, o, n, nth in edits:
            p = os.path.join(d, "r", f)
            s = open(p).read()
            c = s.count(o)
            if c == 0 or (nth is None and c != 1):
                return k, v, "STALE (%d matches)" % c, [], ""
            parts = s.split(o)
            i = nth or 0
            open(p, "w").write(o.join(parts[:i + 1]) + n + o.join(parts[i + 1:]))
        res = []
        ids = [i for i in IDS if i >= "C15"] if kind == "same" and all(e[0] in LEAF for e in edits) else IDS if kind == "same" else [i for i in IDS if i == pid] + [i for i in IDS if i != pid]
        for i in ids:
            r = check(d, i)
            res.append(r)
            if kind != "same" and r[1] == 1:
                break
        return k, v, "", res, ""
    finally:
        shutil.rmtree(d)


def main():
    sp = importlib.util.spec_from_file_location("x", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    ks = [int(x) for x in sys.argv[2:]] or range(len(m.V))
    with cf.ThreadPoolExecutor(7) as ex:
        for k, v, st, res, _ in ex.map(lambda k: one(k, m.V[k]), ks):
            if st:
                print("%3d %s %s" % (k, v[0], st), str(v[2])[:60])
                continue
            hit = [i for i, c, o in res if c == 1]
            err = [i for i, c, o in res if c not in (0, 1)]
            tag = "ok" if (bool(hit) == (v[5] != "same")) and not err and (v[5] == "same" or hit[0] == v[0]) else \
                "OTHER" if v[5] != "same" and hit else "ERR" if err else "MISS" if v[5] != "same" else "ALARM"
            print("%3d %-5s %s %s hit=%s err=%s %s" % (k, tag, v[0], v[5], hit, err, "" if tag == "ok" else str(v[3]).strip().replace("\n", "|")[:90]))
            sys.stdout.flush()
            if tag != "ok" and os.environ.get("V"):
                for i, c, o in res:
                    if c or i == v[0]:
                        print("\n".join(x[:200] for x in o.splitlines()[:8]))


main() if __name__ == "__main__" else None
