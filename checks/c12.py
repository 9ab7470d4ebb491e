"""C12: a map holds every key once, in order, and finds it"""
from seqm import *
from report import *
from loops import closed, all_loops
import c02
from c02 import Verdict
from c08 import V0, A1, HP, DEF
from c13 import value, possible, REL

MIN_DECIDED = 3
PAIRS = eq(m("atype", V0), C(TAG["pair"]))
ISMAP = [DEF, NOT(eq(HP, ZERO)), PAIRS]


def clr(t):
    return all(OKOPS.match(x.op) or x.op.startswith("h:") or x.op in ("kappa", "iv", "le0", "eq0", "elem", "nil") or x.op.startswith("m:") for x in subterms(t))


def unknown(r, o):
    return [e for e in walk(o.events()) if e.kind in ("call", "JOIN") and not e.name.startswith("std::")] + list(r.E.warn)


def search_of(o):
    """the places the search yielded"""
    return [e.res for e in walk(o.events()) if e.kind == "read" and e.name == "binary" and e.args[-1] is A1]


def relation(f, ix):
    """what the comparisons made leave open: is the key at ix equal to what is looked for (True), greater (False), or
    may it be either ("both"); None when that is not clear, "value" when the value was compared instead of the key"""
    ok = {}
    rel = [x for x in f.all() if any(y.op in ("m:<", "m:==") for y in subterms(x))]
    for x in rel:
        for t in subterms(x):
            if t.op in ("m:<", "m:=="):
                if A1 not in t.a[:2]:
                    return None
                k = t.a[0] if t.a[1] is A1 else t.a[1]
                if k.op == "h:at" and k.a[1] is ix or k.op == "elem" and k.a[0] is V0 and k.a[1] is ix:
                    return "value"
                if not (k.op == "v0" and k.a[0].op == "h:key" and k.a[0].a[0] is HP and k.a[0].a[1] is ix):
                    return None
    for w in ("eq", "gt"):
        def W(t):
            if t.op in ("m:<", "m:==") and A1 in t.a[:2]:
                x, y = REL[w]
                if t.a[1] is not A1:
                    x, y = y, x
                return x < y if t.op == "m:<" else x == y
            return None
        ok[w] = possible(rel, W) if rel else True
    if None in ok.values():
        return None
    return True if ok["eq"] and not ok["gt"] else False if ok["gt"] and not ok["eq"] else "both" if ok["eq"] else None


def indexing(R, prog):
    f = var_fn(prog, "operator[]", pred=lambda s: len(s) == 1 and s[0].startswith("libube::var"))
    KEY = mk("bool", m("defined", A1))
    for name, facts in (("map", ISMAP + [KEY]), ("new", [NOT(DEF), KEY])):
        k = "operator[]{key,%s}" % name
        with R.guard(k, "index"):
            r = SeqRun(R, prog, f, setup=lambda r: facts)
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                odd = unknown(r, o)
                ev = list(walk(o.events()))
                if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                    V.put(False if not odd else None, "a key is refused")
                if o.kind != "ret":
                    continue
                if name == "new":
                    hc = [e for e in ev if e.kind == "hctor"]
                    at = [e for e in ev if e.name == "attach" and e.kind == "var"]
                    ok = len(hc) == 1 and hc[0].args[1] is ZERO and hc[0].args[2] is C(TAG["pair"]) and at and at[0].args[0] is V0
                    V.put(True if ok else None if odd or not hc else False if len(hc) == 1 and clr(hc[0].args[1]) and clr(hc[0].args[2]) else None,
                          "an undefined value becomes an array of type %s" % (show(hc[0].args[2]) if hc else "?"))
                s = search_of(o)
                if not s:
                    V.put(None, "no search")
                    continue
                ix = s[-1]
                size = [x for x in {y for t in o.facts.all() for y in subterms(t)} if x.op == "m:size" and x.a[0] is V0]
                found = relation(o.facts, ix)
                beyond = any(o.facts.entails_le(sub(x, ix)) for x in size)
                if found == "value" and not odd:
                    V.put(False, "the value is compared with the key looked for")
                    continue
                ins = [e for e in ev if e.kind == "var" and e.name == "insert"]
                other = [e for e in changes(o.events()) if e not in ins and e.name not in ("attach", "assign") and e.kind == "var"] + \
                    [e for e in changes(o.events()) if e.kind == "heap"]
                if beyond:
                    found = False
                if found is True:
                    V.put(True if not ins else False, "a key that is there is inserted again")
                elif found == "both":
                    V.put(False if not odd and not other else None, "a key is %sinserted whether it is there or not" % ("" if ins else "not "))
                elif found is False:
                    V.put(True if len(ins) == 1 else False if not ins and not odd and not other else None, "a key that is not there is not inserted")
                else:
                    V.put(None, "whether the key is there is not tested")
                for e in ins:
                    V.put(True if e.args[0] is V0 and e.args[1] is A1 and e.args[2] is ix else False if clr(e.args[2]) and clr(e.args[1]) else None,
                          "%s is inserted at %s, not where it belongs" % (show(e.args[1]), show(e.args[2])))
                if other:
                    V.put(None, "something else is changed")
                ret = r.pol.content(r.E, o.st, r.sret)
                ref = ret.op == "m:reference" and ret.a[0] is V0 and ret.a[1] is ix or ret.op == "elem" and ret.a[0] is V0 and ret.a[1] is ix
                V.put(True if ref else False if ret.op in ("m:reference", "elem", "nil", "v0") and clr(ret) else None, "it refers to %s" % show(ret))
            c02.done(R, r, k, V, "index")
    k = "operator[]{nothing}"
    with R.guard(k, "index"):
        r = SeqRun(R, prog, f, setup=lambda r: ISMAP + [NOT(KEY)])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            ch = [e for e in changes(o.events()) if not (e.kind == "life" and e.args[0] is r.sret)]
            V.put(True if not ch else False if not unknown(r, o) else None, "asking for nothing changes the map: %s" % (ch and ch[0].name))
        c02.done(R, r, k, V, "index")
    k = "operator[]{not a map}"
    with R.guard(k, "index"):
        r = SeqRun(R, prog, f, setup=lambda r: [DEF, NOT(eq(HP, ZERO)), NOT(PAIRS)])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            ret = r.pol.content(r.E, o.st, r.sret)
            want = mk("elem", V0, m("cast", A1, mk("T", mk("k", "int"))))
            ok = ret.op == "elem" and ret.a[0] is V0 and ret.a[1].op == "m:cast" and ret.a[1].a[0] is A1
            V.put(True if ok else False if ret.op in ("elem", "nil", "v0", "m:reference") and clr(ret) else None, "it refers to %s" % show(ret))
        c02.done(R, r, k, V, "index")


def lookup(R, prog):
    KINDS = ("at", "index")
    for nm in KINDS:
        for tag, facts in (("map", ISMAP),):
            k = "%s{%s}" % (nm, tag)
            with R.guard(k, "lookup"):
                f = var_fn(prog, nm, pred=lambda s: len(s) == 1 and s[0].startswith("libube::var"))
                r = SeqRun(R, prog, f, setup=lambda r: facts)
                V = Verdict(bool(r.rets()))
                for o in r.outs:
                    odd = unknown(r, o)
                    ev = list(walk(o.events()))
                    if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                        V.put(False if not odd else None, "looking for a key is refused")
                    if o.kind != "ret":
                        continue
                    ch = [e for e in changes(o.events()) if not (e.kind == "life" and e.args[0] is r.sret) and e.kind in ("var", "heap") and e.args[0] in (V0, HP)]
                    V.put(True if not ch else False if not odd else None, "looking for a key changes the map: %s" % (ch and ch[0].name))
                    s = search_of(o)
                    if not s:
                        V.put(None, "no search")
                        continue
                    ix = s[-1]
                    size = [x for x in {y for t in o.facts.all() for y in subterms(t)} if x.op == "m:size" and x.a[0] is V0]
                    found = relation(o.facts, ix)
                    beyond = any(o.facts.entails_le(sub(x, ix)) for x in size)
                    if nm == "at":
                        ret = r.pol.content(r.E, o.st, r.sret)
                        there = ret.op in ("m:reference", "elem") and ret.a[0] is V0 and ret.a[1] is ix
                        none = ret.op == "nil"
                        fine = ret.op in ("m:reference", "elem", "nil", "v0") and clr(ret)
                    else:
                        ret = o.val
                        there = ret is ix or o.facts.decide(eq(ret, ix)) is True
                        none = is_c(ret) and ret.a[0] in (-1, 0xffffffff, 0xffffffffffffffff) or o.facts.entails_le(add(ret, ONE))
                        fine = clr(ret)
                    if found == "value" and not odd:
                        V.put(False, "the value is compared with the key looked for")
                    elif found == "both" and not beyond:
                        V.put(False if not odd and (there or none) else None, "whether the key is there or not, it gives %s" % show(ret))
                    elif found is True and not beyond:
                        inside = any(o.facts.entails_le(add(sub(ix, x), ONE)) for x in size)
                        if not inside and size and all(x.op in ("le0", "eq0", "ne0", "not") or ix not in subterms(x) or any(y.op == "m:==" for y in subterms(x)) for x in o.facts.all()):
                            g = o.facts.assume(eq(ix, size[0]))
                            if g is not None and not odd:
                                V.put(False, "the key at the end is read")
                                continue
                        V.put(True if there else False if fine else None, "a key that is there gives %s" % show(ret))
                        V.put(True if inside else None if odd or size else False, "the place may be beyond the end")
                    elif found is False or beyond:
                        V.put(True if none else False if fine else None, "a key that is not there gives %s" % show(ret))
                    else:
                        V.put(None, "whether the key is there is not tested")
                c02.done(R, r, k, V, "lookup")


# ------------------------------------------------ search
def halves(f):
    """what is known of quotients and shifts by one"""
    out = []
    for t in {y for x in f for y in subterms(x)}:
        if t.op in ("sdiv", "udiv") and t.a[1] is C(2):
            out.append((t, t.a[0]))
        elif t.op in ("ashr", "lshr") and t.a[1] is ONE:
            out.append((t, t.a[0]))
    return out


def ent(g, t):
    """t <= 0, for whole numbers"""
    return g.entails_le(t) or g.entails_le(sub(scale(t, 2), ONE))


def with_halves(f, terms):
    for q, x in halves(list(terms) + list(f.all())):
        bs = [le(scale(q, 2), x), le(sub(x, ONE), scale(q, 2))]
        if f.entails_le(sub(ONE, x)):
            bs += [le(ZERO, q), le(add(q, ONE), x)]
        elif f.entails_le(sub(ZERO, x)):
            bs += [le(ZERO, q), le(q, x)]
        for b in bs:
            g = f.assume(b)
            if g is not None:
                f = g
    return f


def probe_of(t, kind):
    """index of the element or key compared with what is looked for"""
    if kind == "key" and t.op == "v0" and t.a[0].op == "h:key" and t.a[0].a[0] is HP:
        return t.a[0].a[1]
    if kind == "at" and t.op == "elem" and t.a[0] is V0:
        return t.a[1]
    return None


def search(R, prog):
    try:
        f = var_fn(prog, "binary", nargs=1)
    except Vanished:
        R.ob("search", None, "the search is no longer a function of its own", "", "search")
        return
    S = m("size", V0)
    for kind, facts in (("key", ISMAP), ("at", [DEF, NOT(eq(HP, ZERO)), NOT(PAIRS)])):
        k = "search{%s}" % {"key": "map", "at": "array"}[kind]
        with R.guard(k, "search"):
            r = SeqRun(R, prog, f, setup=lambda r: facts + [le(ONE, S)])
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                odd = unknown(r, o)
                if o.kind == "unw" and any(e.kind == "throw" for e in walk(o.events())):
                    V.put(None, "refused")
                if o.kind != "ret":
                    continue
                ls = list(all_loops(o.events()))
                if len(ls) != 1:
                    V.put(None, "not a single loop")
                    continue
                bisect(o, ls[0], S, kind, V, odd)
            c02.done(R, r, k, V, "search")
    with R.guard("search{empty}", "search"):
        r = SeqRun(R, prog, f, setup=lambda r: [eq(S, ZERO)])
        V = Verdict(bool(r.rets()))
        for o in r.outs:
            if o.kind == "ret":
                v = o.val is ZERO or o.facts.decide(eq(o.val, ZERO)) is True
                V.put(True if v else False if clr(o.val) and not any(x.op == "iv" for x in subterms(o.val)) else None, "in nothing, the place is %s" % show(o.val))
        c02.done(R, r, "search{empty}", V, "search")


def bisect(o, L, S, kind, V, odd):
    ivs = list(L.ivs.items())
    los = [(t, t, ns) for t, (i0, ns) in ivs if i0 is ZERO]
    best = None
    for lo, _, lns in los:
        for t, (i0, ns) in ivs:
            if t is lo:
                continue
            c = sub(S, i0)
            if is_c(c):
                for base, cn in ((add(t, c), [add(n, c) for n in ns]), (add(add(t, c), lo), [add(add(n, c), ln) for n, ln in zip(ns, lns)])):
                    v = bisect1(o, L, lo, lns, base, cn, S, kind, odd)
                    if best is None or {True: 2, None: 1, False: 0}[v.v] > {True: 2, None: 1, False: 0}[best.v]:
                        best = v
    if best is None:
        V.put(None, "the bounds of the search are not recognised")
    else:
        V.put(best.v, best.msg)


def bisect1(o, L, lo, lns, hi, hns, S, kind, odd):
    V = Verdict()
    ind = [x for x in subterms(hi) if x in L.ivs]
    if len(L.bodies) != len(lns):
        V.put(None, "paths and values differ")
        return V
    for (f, b), ln, hn in zip(L.bodies, lns, hns):
        g = f.assume(le(lo, hi))
        if g is None:
            continue
        if g.decide(eq(lo, hi)) is False or f.decide(eq(lo, hi)) is False:
            g = g.assume(lt(lo, hi)) or g
        tests = []
        for t in {y for x in f.all() for y in subterms(x)}:
            if t.op in ("m:<", "m:==") and A1 in t.a[:2]:
                e = t.a[0] if t.a[1] is A1 else t.a[1]
                p = probe_of(e, kind)
                other = probe_of(e, "at" if kind == "key" else "key")
                if p is None and other is not None:
                    V.put(False if not odd else None, "%s are searched" % ("values instead of keys" if kind == "key" else "keys instead of elements"))
                    return V
                if p is None:
                    V.put(None, "%s is compared" % show(e))
                    return V
                tests.append((t, p))
        if not tests:
            V.put(None, "nothing is compared")
            return V
        ps = {p for t, p in tests}
        if len(ps) != 1:
            V.put(None, "several elements are compared")
            return V
        p = ps.pop()
        g = with_halves(g, [p, ln, hn])
        fine = clr2(p) and not odd
        V.put(True if ent(g, sub(lo, p)) else False if fine and ent(g, add(sub(p, lo), ONE)) else None, "place %s may be before the range" % show(p))
        V.put(True if ent(g, add(sub(p, hi), ONE)) else False if fine and ent(g, sub(hi, p)) else None, "place %s may be after the range" % show(p))
        for w in ("lt", "eq", "gt"):
            def W(t):
                if t.op in ("m:<", "m:==") and A1 in t.a[:2]:
                    x, y = REL[w]
                    if t.a[1] is not A1:
                        x, y = y, x
                    return x < y if t.op == "m:<" else x == y
                return None
            rel = [x for x in f.all() if any(y.op in ("m:<", "m:==") for y in subterms(x))]
            q = possible(rel, W)
            if q is False:
                continue
            # lt: the element is less than what is looked for
            if w == "lt":
                good = ln is add(p, ONE) and hn is hi
                what = "after an element that is less"
            else:
                good = ln is lo and hn is p
                what = "before an element that is not less"
            okk = clr2(ln) and clr2(hn) and not odd and q is True
            V.put(True if good else False if okk else None, "the search goes on from %s to %s, not %s" % (show(ln), show(hn), what))
    # ways out
    f = o.facts
    inner = []
    for t in {y for x in f.all() for y in subterms(x)}:
        if t.op == "m:==" and A1 in t.a[:2] and f.decide(mk("bool", t)) is True:
            e = t.a[0] if t.a[1] is A1 else t.a[1]
            p = probe_of(e, kind)
            if p is not None:
                inner.append(p)
    if inner:
        V.put(True if o.val in inner else False if clr2(o.val) and not odd else None, "found at %s, the place is %s" % (show(inner[0]), show(o.val)))
        return V
    g = f.assume(le(lo, hi)) or f
    done_ = g.decide(eq(lo, hi)) is True or g.entails_le(sub(hi, lo))
    if not done_:
        # an end that leaves elements unseen
        h = g
        for b in (eq(lo, ZERO), eq(hi, ONE), eq(S, ONE)):
            h = h.assume(b) if h is not None else None
        seen = any(A1 in subterms(x) for x in f.all())
        V.put(None if h is None or odd or seen or not clr2(o.val) else False, "the search ends early")
        return V
    v = o.val
    same = v is lo or v is hi or g.decide(eq(v, lo)) is True
    V.put(True if same else False if clr2(v) and not odd else None, "the place is %s" % show(v))
    return V


def clr2(t):
    return all(x.op in ("iv", "aff", "c", "sdiv", "udiv", "ashr", "lshr", "mul") or x.op == "m:size" or x in subterms(V0) for x in subterms(t))


def ordered(R, prog):
    f = var_fn(prog, "sort", nargs=0)
    S = m("size", V0)
    with R.guard("sort", "sort"):
        r = SeqRun(R, prog, f)
        V = Verdict(bool(r.rets()))
        for o in r.outs:
            odd = unknown(r, o)
            if o.kind != "ret":
                continue
            ls = list(all_loops(o.events()))
            if len(ls) != 1:
                V.put(None, "not a single loop")
                continue
            c = closed(ls[0], o.facts)
            if c is None:
                V.put(None, "a loop is not counted")
                continue
            V.put(True if c.n is S else False if clr(c.n) and not odd else None, "%s of %s elements are sorted" % (show(c.n), show(S)))
            for f_, b in ls[0].bodies:
                ins = [e for e in walk(b) if e.kind == "var" and e.name == "insert"]
                if len(ins) != 1:
                    V.put(False if not ins and not odd and not [e for e in walk(b) if e.kind == "var" and e.name in WRITERS] else None, "an element is left out")
                    continue
                x, p = ins[0].args[1], ins[0].args[2]
                xi = x.a[1] if x.op == "elem" and x.a[0] is V0 else None
                if xi is None:
                    V.put(None, "%s is inserted" % show(x))
                    continue
                i = c.at(xi)
                V.put(True if i is c.k or i is sub(sub(c.n, ONE), c.k) else False if clr(i) and not odd else None, "in round %s element %s is inserted" % (show(c.k), show(i)))
                sr = [e for e in walk(b) if e.kind == "read" and e.name == "binary"]
                if len(sr) != 1:
                    V.put(None if sr or odd else None, "the place is found in another way")
                    continue
                e = sr[0]
                same = e.res is p or f_.decide(eq(e.res, p)) is True
                known = clr(p) and ("m:binary" in {y.op for y in subterms(p)} or is_c(p) and not any(e.res in subterms(x) for x in f_.all()))
                V.put(True if same else False if known and not odd else None, "the element goes to %s, its place is %s" % (show(p), show(e.res)))
                V.put(True if e.args[1] is x else False if e.args[1].op == "elem" and clr(e.args[1]) else None, "%s is put where %s belongs" % (show(x), show(e.args[1])))
                V.put(True if e.args[0] is not V0 else False, "the place is looked for in the original")
        c02.done(R, r, "sort", V, "sort")


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.rule("index", "indexing by key searches, inserts the key there exactly if it is not there, and refers to it")
    R.rule("lookup", "at() and index() of a key give the pair the search finds, nothing if it is not there, and change nothing")
    R.rule("search", "the search yields the first place whose key is not less: the range shrinks at every step and keeps that place")
    R.rule("sort", "every element is inserted once, at the place the search yields in what is sorted already")
    R.parallel([lambda R: indexing(R, prog), lambda R: search(R, prog), lambda R: ordered(R, prog), lambda R: lookup(R, prog)])
    return R.finish(MIN_DECIDED)
