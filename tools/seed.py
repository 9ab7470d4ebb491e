#!/usr/bin/env python3
"""Creates and validates planted bugs.  seed.py SPEC.py: SPEC defines a list S of
dicts id, prop, edits [(file, old, new[, nth])], demo (C++ main body file text),
needs, breaks, [libs].  Everything happens in a scratch copy of /repo."""
import os, sys, subprocess, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seedscr"

SH = '''#!/bin/bash
# run in the repository's root after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'cd /; rm -rf "$t"' EXIT
g++ -g -std=c++17 -I"$PWD" "$here/demo.cpp" -o "$t/demo" -L"$PWD/_build/lube" -lube -Wl,-rpath,"$PWD/_build/lube" %(libs)s >"$t/log" 2>&1 || { cat "$t/log"; exit 98; }
export SRC="$PWD" LD_LIBRARY_PATH="$PWD/_build/lube" MKL_CBWR=COMPATIBLE MKL_NUM_THREADS=1
cd "$t" && mkdir w && cd w && timeout 60 ../demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def scratch():
    """a built copy of /repo with its own build directory"""
    if not os.path.exists(SCR + "/_build/build.ninja"):
        shutil.rmtree(SCR, ignore_errors=True)
        shutil.copytree("/repo", SCR, ignore=shutil.ignore_patterns("_build"), symlinks=True)
        for f in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + f).read().replace("/repo", SCR).replace("/opt/vp/build.sh", SCR + "-build.sh")
            open(SCR + "-" + f, "w").write(s)
    sh("cd %s && git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % SCR)
    return sh("bash %s-build.sh" % SCR)


def tests():
    sh("bash %s-test.sh /tmp/seed.json" % SCR)
    return json.load(open("/tmp/seed.json"))


def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    r = scratch()
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
    print("scratch build", r.returncode)
    base = set(tests()["passed"])
    print("baseline", len(base))
    for s in m.S:
        if only and s["id"] not in only:
            continue
        d = V + "/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(s.get("sh", SH) % {"libs": s.get("libs", "")} if "sh" not in s else s["sh"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd=SCR)
        for e in s["edits"]:
            f, old, new = e[:3]
            p = SCR + "/" + f
            t = open(p).read()
            n = t.count(old)
            k = e[3] if len(e) > 3 else 0
            if n == 0 or (len(e) < 4 and n != 1):
                print("  STALE edit in", s["id"], f, n, old[:60])
            parts = t.split(old)
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = sh("git diff", cwd=SCR).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh("bash %s-build.sh" % SCR)
        if b.returncode:
            print("  BUILD FAILS", s["id"], b.stdout[-600:])
        t1 = set(tests()["passed"])
        r1 = sh("bash %s/demo.sh" % d, cwd=SCR)
        env = dict(os.environ, VERIF_REPO=SCR, VERIF_EVIDENCE="/tmp/seedev")
        os.makedirs("/tmp/seedev", exist_ok=True)
        c = sh([sys.executable, V + "/checks/run.py", s["prop"]], env=env)
        # do the changed lines exist in the original repository?
        orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()
        orig = "53c28ba"
        mine = 0
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                b_ = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
                if b_.lstrip("^")[:7] != orig[:7]:
                    mine += 1
                    print("   NOT ORIGINAL:", b_.strip()[:100])
                ln += 1
            elif l.startswith(" "):
                ln += 1
        sh("git checkout -q -f .", cwd=SCR)
        ok = r0.returncode == 0 and r1.returncode != 0 and base <= t1 and b.returncode == 0
        print("%s %-28s %s demo %d->%d tests %s check %d%s" % ("OK " if ok else "BAD", s["id"], s["prop"], r0.returncode, r1.returncode,
              "ok" if base <= t1 else "LOST %s" % (base - t1), c.returncode, " CAUGHT" if "VIOLATION property=" + s["prop"] in c.stdout else " MISSED"))
        if r0.returncode or not r1.returncode:
            print("   before:", (r0.stdout + r0.stderr)[-300:], "\n   after:", (r1.stdout + r1.stderr)[-300:])
    sh("bash %s-build.sh" % SCR)


main()
