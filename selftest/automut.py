#!/usr/bin/env python3
"""Random small changes to the sources which the repository's tests do not
notice, and which checks notice them.
Usage: automut.py SEED FILE=COUNT... ; the log is on stdout."""
import os, re, sys, random, subprocess, shutil, json, hashlib, concurrent.futures as cf, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/selftest")
import campaign
W = "/tmp/am"
NW = int(os.environ.get("NW", "4"))
TYPES = "CHAR INT LONG FLOAT DOUBLE CFLOAT CDOUBLE VAR PAIR ARRAY".split()


def ops(l, rnd):
    """the changes of a line"""
    r = []

    def rep(pat, *new):
        for m in re.finditer(pat, l):
            if l[:m.start()].count('"') % 2:
                continue
            for n in new:
                r.append(l[:m.start()] + m.expand(n) + l[m.end():])
    rep(r"(?<= )<=(?= )", "<")
    rep(r"(?<= )<(?= )", "<=")
    rep(r"(?<=\w)<(?=\w+;)", "<=")
    rep(r"(?<= )>=(?= )", ">")
    rep(r"(?<= )>(?= )", ">=")
    rep(r"==", "!=")
    rep(r"!=", "==")
    rep(r"&&", "||")
    rep(r"\|\|", "&&")
    rep(r"(?<=[\w)] )\+(?= [\w(])", "-")
    rep(r"(?<=[\w)] )-(?= [\w(])", "+")
    rep(r"(?<=[\w)])\+1\b", "", "+2")
    rep(r"(?<=[\w)])-1\b", "", "-2")
    rep(r"(?<=[\w)])\*(?=[\w(])", "+")
    rep(r"(?<=[ (=\[])0(?=[;),\]])", "1")
    rep(r"(?<=[ (=\[])1(?=[;),\]])", "0", "2")
    rep(r"\btrue\b", "false")
    rep(r"\bfalse\b", "true")
    rep(r"(?<=\()!(?=[\w(])", "")
    rep(r"\biA\b", "iB")
    rep(r"\biB\b", "iA")
    rep(r"\bTYPE_(%s)\b" % "|".join(TYPES), "TYPE_" + rnd.choice(TYPES))
    rep(r"\bcontinue;", "break;")
    rep(r"\bbreak;", ";")
    if re.match(r"\s+[\w.>*()\[\]-]+( [+*/-]?= .*|\(.*\)|\+\+|--);$", l) and not re.match(r"\s+(return|throw)\b", l):
        r.append(re.match(r"\s*", l).group(0) + ";")
    return [x for x in r if x != l]


def mutants(f, n, rnd):
    s = open("/repo/" + f).read()
    ls = s.split("\n")
    c, comment = [], False
    for i, l in enumerate(ls):
        t = l.strip()
        if t.startswith("/*"):
            comment = True
        skip = comment or t.startswith(("//", "#", "assert", "VDEBUG", "*", "template", "using", "class", "extern"))
        if "*/" in t:
            comment = False
        if skip:
            continue
        for x in ops(l, rnd):
            c.append((f, i, l, x))
    rnd.shuffle(c)
    return c[:n]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def prepare(w):
    d = "%s/%d" % (W, w)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("_build"), symlinks=True)
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", d).replace("/opt/vp/build.sh", d + "-build.sh")
        open(d + "-" + f, "w").write(s)
    sh("bash %s-build.sh" % d)
    sh("bash %s-test.sh %s-o.json" % (d, d))
    return d, set(json.load(open(d + "-o.json"))["passed"]), libs(d)


def libs(d):
    h = hashlib.sha1()
    for root, _, fs in sorted(os.walk(d + "/_build/lube")):
        for f in sorted(fs):
            if f.endswith(".so") and not os.path.islink(root + "/" + f):
                o = sh("cp {0} {1}-x.so && strip {1}-x.so && objcopy -O binary --only-section=.text --only-section=.rodata --only-section=.data.rel.ro {1}-x.so {1}-x.bin && sha1sum < {1}-x.bin".format(root + "/" + f, d)).stdout
                h.update(o.encode())
    return h.hexdigest()


def main():
    rnd = random.Random(int(sys.argv[1]))
    M = []
    for a in sys.argv[2:]:
        f, n = a.split("=")
        M += mutants(f, int(n), rnd)
    pool = list(range(NW))
    with cf.ThreadPoolExecutor(NW) as ex:
        S = list(ex.map(prepare, pool))
    lock = threading.Lock()

    def one(k):
        f, i, l, x = M[k]
        with lock:
            w = pool.pop()
        d, base, h0 = S[w]
        try:
            p = d + "/" + f
            s = open(p).read()
            ls = s.split("\n")
            ls[i] = x
            open(p, "w").write("\n".join(ls))
            try:
                b = sh("timeout 120 bash %s-build.sh" % d)
                if b.returncode:
                    return k, "build", ""
                if libs(d) == h0:
                    return k, "same", ""
                if os.path.exists(d + "-o.json"):
                    os.remove(d + "-o.json")
                try:
                    sh("bash %s-test.sh %s-o.json" % (d, d), timeout=60)
                    got = set(json.load(open(d + "-o.json"))["passed"])
                except Exception:
                    return k, "tests", ""
                if not base <= got:
                    return k, "tests", ""
                v = ("?", f, "\n".join(ls[max(0, i - 2):i]), None, None, "?")
                cd = "%s/c%d" % (W, k)
                os.makedirs(cd)
                try:
                    shutil.copytree(d, cd + "/r", ignore=shutil.ignore_patterns("_build", ".git"))
                    ids = [q for q in campaign.IDS if not (f in campaign.LEAF and q < "C15")]
                    for q in ids:
                        _, rc, out = campaign.check(cd, q)
                        if rc == 1:
                            return k, "CAUGHT " + q, ""
                        if rc != 0:
                            return k, "ERR " + q, out[-200:]
                finally:
                    shutil.rmtree(cd, ignore_errors=True)
                return k, "MISS", ""
            finally:
                open(p, "w").write(s)
        finally:
            with lock:
                pool.append(w)
    with cf.ThreadPoolExecutor(NW) as ex:
        for k, what, m in ex.map(one, range(len(M))):
            f, i, l, x = M[k]
            print("%-10s %s:%d  %s  =>  %s %s" % (what, f, i + 1, l.strip(), x.strip(), m.replace("\n", " ")), flush=True)
    for w in range(NW):
        shutil.rmtree("%s/%d" % (W, w), ignore_errors=True)


main()
