"""C18: the text functions of var return the text they are documented to return

Changing case, stripping, splitting, joining, reading lines and counting
characters are interpreted on every path.  Loops over characters are brought to
closed form; the decisions made on a character are tabulated for all 256 of
them."""
import os
from bytem import *
from fcheck import *
from functor import *
from report import Vanished

UNIT = "lube/string.cpp"
MIN_DECIDED = 8
PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "probe", "text.cpp")
LEADS = {1: set(range(0, 128)), 2: set(range(0xC0, 0xE0)), 3: set(range(0xE0, 0xF0)), 4: set(range(0xF0, 0xF8))}
CONT = set(range(0x80, 0xC0))


def cls(n):
    return "N6libube%d%sE" % (len(n), n)


def fn_of(P, name, nargs):
    for n, f in sorted(P.defs.items()):
        d = P.dem(n)
        if short(d) == name and nparams(sig_args(d)) == nargs:
            return f
    raise Vanished("no function %s with %d arguments" % (name, nargs))


def loops_of(events):
    return [e for e in events if isinstance(e, Loop)]


def ptrof(c):
    return mk("m:ptr", c, mk("T", "char"), ZERO)


def base_off(addr):
    """(content, offset) of an address inside the text of a var"""
    c, d = lin(addr)
    k = [x for x in d if x.op == "m:ptr" and d[x] == 1]
    if len(k) != 1:
        return None, None
    return k[0].a[0], sub(addr, k[0])


def src_of(b):
    """(content, offset) a byte load reads from"""
    if b.op != "ld" or b.a[2] != 1:
        return None, None
    o = b.a[1] if isinstance(b.a[1], T) else C(b.a[1])
    return base_off(add(b.a[0], o))


def same(o, a, b):
    return a is b or o.facts.decide(eq(a, b))


def fresh(t, src):
    """the copy made by alloc() has the text of what it is a copy of"""
    m = {x: src for x in subterms(t) if x.op == "m:alloc" and x.a[-1] is src or x.op == "m:copy" and x.a[0] is src}
    return subst(t, m) if m else t


def contents_size(o, c, src, prog=None):
    """number of bytes of text a content has"""
    rz = [e for e in o.events() if not isinstance(e, Loop) and e.kind == "var" and e.name == "resize" and e.args[0] is c]
    if rz:
        return fresh(rz[-1].args[-1], src)
    if c.op == "mut" and c.a[0].a[0] == "resize" and len(c.a) == 4:
        return fresh(c.a[3], src)
    c = fresh(c, src)
    if c.op == "str" and c.a[0].op == "global":
        x = cstring(prog, c.a[0]) if prog is not None else None
        return C(len(x)) if x is not None else None
    if c.op == "m:ctor" and len(c.a) >= 3 and show(c.a[0]) == "k(int,libube::var)":
        return fresh(c.a[1], src)
    if c.op == "strn":
        return fresh(c.a[0], src)
    if c.op == "m:ctor" or c.op == "mut" and c.a[0].a[0] not in ("resize",):
        return None
    return mk("m:size", c, ZERO)


def root_of(c):
    """the content that a resized content was"""
    while c.op == "mut" and c.a[0].a[0] == "resize":
        c = c.a[1]
    return c


def stale(r, o, dst, place):
    """a result that is another var is made a text before it is written"""
    if place != "out" or len(r.c) < 2:
        return None
    was = r.c[1]
    if was is r.c[0] or root_of(dst) is not was:
        return None
    if any(x.op in ("m:atype", "m:type") and x.a[0] is was for b in o.facts.all() for x in subterms(b)):
        return None
    return "the characters are written into whatever the result was before"


# ---------------------------------------------------------------- case
def case(R, P):
    for n, want in (("ToUpper", upper), ("ToLower", lower)):
        for place in ("out", "in", "ret"):
            key = "case.%s.%s" % (n, place)
            with R.guard(key, "case"):
                r = Run(R, P, cls(n), None, 0, lambda q: q.kind(0, "char", "array") + (distinct(q, 0, 1) if place == "out" else []) +
                        ([mk("bool", mk("m:is", q.c[0], q.c[0], ZERO))] if place == "in" else []),
                        alias={1: 0} if place == "in" else None, policy=ResPolicy,
                        fn=fn_of(P, "libube::StringFunctor::operator()", 1 if place == "ret" else 2))
                verdict(R, key, r, lambda o: delegated(r, o) or case_path(r, o, want, place), "case")


def verdict(R, key, r, f, rule):
    """all returning paths satisfy f"""
    bad = und = None
    ok = 0
    for o in r.outs:
        if o.kind != "ret" or not possible(r, o):
            continue
        v, t = f(o)
        if v is True:
            ok += 1
        elif v is False:
            bad = bad or t
        else:
            und = und or t
    if bad:
        return R.ob(key, False, bad, r.dem, rule)
    if und or not ok:
        return R.ob(key, None, und or "no path returns", r.dem, rule)
    return R.ob(key, True, "%d paths" % ok, r.dem, rule)


def delegated(r, o):
    """the operation is left to the form which is told where to put the result"""
    evs = o.events()
    d = [e for e in walk(evs) if e.kind == "functor"]
    if not d:
        return None
    e = d[0]
    if len(d) == 1 and e.name == "libube::StringFunctor::operator()" and len(e.args) == 3 and r.sret is not None and e.args[1] is r.c[0] \
            and e.args[2].op == "m:alloc" and e.args[2].a[-1] is r.c[0] and not any(x.kind in ("store", "memmove", "memcpy") for x in walk(evs)):
        return True, ""
    return None, "left to %s" % e.name


def possible(r, o):
    """a copy is another array of the same size"""
    fs = o.facts
    for x in {x for y in fs.all() for x in subterms(y) if x.op == "m:alloc"}:
        for src in r.c:
            if x.a[-1] is src:
                for b in (eq(mk("m:size", x, ZERO), mk("m:size", src, ZERO)), NOT(mk("bool", mk("m:is", src, x, ZERO))), NOT(mk("bool", mk("m:is", x, src, ZERO)))):
                    if fs is not None:
                        fs = fs.assume(b)
    return fs is not None


def result_of(r, o, place):
    if place == "ret":
        return r.pol.content(r.E, o.st, r.sret)
    return r.pol.content(r.E, o.st, r.formals[1])


def warned(r):
    return bool(r.E.warn)


def case_path(r, o, want, place):
    src = r.c[0]
    n = mk("m:size", src, ZERO)
    dst = result_of(r, o, place)
    evs = o.events()
    put = [(L, f, b, e) for L in loops_of(evs) for f, b in L.bodies for e in walk(b) if e.kind == "store"]
    loose = [e for e in evs if not isinstance(e, Loop) and e.kind == "store"]
    if loose or any(e.kind == "JOIN" for e in walk(evs)):
        return None, "stores outside a loop"
    old = stale(r, o, dst, place)
    if old:
        return False, old
    size = contents_size(o, dst, src, r.prog)
    if size is None:
        return None, "size of the result"
    s = same(o, size, n)
    if s is not True:
        if s is False or clear(size) and not has_free(size):
            return False, "the result has %s characters" % show(size)
        return None, "size of the result"
    ls = {id(L): L for L, f, b, e in put}
    if not ls:
        if loops_of(evs) and o.facts.entails_le(n):
            return True, ""
        return None, "no loop that writes"
    if len(ls) != 1:
        return None, "more than one loop"
    L = list(ls.values())[0]
    cl = closed(L, o.facts)
    if cl is None:
        if o.facts.entails_le(n):
            return True, ""
        return None, "loop is not counted"
    if same(o, cl.n, n) is not True:
        if clear(cl.n):
            return False, "%s of %s characters are converted" % (show(cl.n), show(n))
        return None, "trip count"
    seen = set()
    for f, b in L.bodies:
        st = [e for e in walk(b) if e.kind == "store"]
        bs = {y for e in st for y in chars(e.args[2])} | {y for x in f.all() for y in chars(x) if not known_before(y, o, r, L)}
        if len(bs) > 1:
            return None, "more than one character"
        if not st:
            if not bs:
                return None, "no character"
            x = list(bs)[0]
            c, off = src_of(x)
            t, sure = table(about(f, [x]), x)
            wrong = {v for v in t if want(v) != v}
            if wrong and sure and place == "in":
                return False, "%s is left as it is" % some(wrong)
            if t - {0} and sure and place != "in" and dst.op == "mut":
                return False, "nothing is written for %s" % some(t - {0})
            if wrong or place != "in":
                return None, "a character that is not written"
            seen |= t
            continue
        if len(st) != 1:
            return None, "several writes"
        e = st[0]
        c, off = base_off(e.args[0])
        if c is None:
            return None, "write elsewhere"
        if c is not dst:
            if c is src and place != "in":
                return False, "the characters are written to the argument"
            return None, "write to other text"
        off = cl.at(off)
        if not bs:
            return None, "constant"
        x = list(bs)[0]
        sc, so = src_of(x)
        if sc is None:
            return None, "character of something else"
        if sc is not src and not (place == "ret" and sc.op == "m:alloc"):
            if sc is dst and place == "out":
                return False, "the characters are taken from the output"
            return None, "character of something else"
        so = cl.at(so)
        if same(o, so, off) is not True:
            if clear(so) and clear(off):
                return False, "character %s of the result is made from character %s" % (show(off), show(so))
            return None, "index"
        if not (same(o, off, cl.k) is True or same(o, off, sub(sub(n, ONE), cl.k)) is True):
            if clear(off):
                return False, "character %s is converted in step %s of %s" % (show(off), show(cl.k), show(n))
            return None, "index"
        t, sure = table(about(f, [x]), x)
        wrong, und = set(), False
        for v in t:
            g = bval(e.args[2], {x: v})
            if g is None:
                und = True
            elif g % 256 != want(v):
                wrong.add(v)
        if wrong and sure:
            return False, "%s becomes %s" % (some(wrong), nm(bval(e.args[2], {x: min(wrong, key=lambda v: (not 32 < v < 127, v))}) % 256))
        if und or wrong:
            return None, "value"
        seen |= t
    return (True, "") if len(seen) == 256 else (None, "some characters")


def known_before(y, o, r, L):
    return not any(x in L.ivs for x in subterms(y))


def has_free(t):
    return any(x.op in ("iv", "ivm", "ivv", "ivx", "ioval", "call", "unk") for x in subterms(t))


# ---------------------------------------------------------------- strip
def strip(R, P):
    for place in ("out", "in", "ret"):
        key = "strip.%s" % place
        with R.guard(key, "strip"):
            r = Run(R, P, cls("Strip"), None, 0, lambda q: q.kind(0, "char", "array") + (distinct(q, 0, 1) if place == "out" else []) +
                    ([mk("bool", mk("m:is", q.c[0], q.c[0], ZERO))] if place == "in" else []),
                    alias={1: 0} if place == "in" else None, policy=ResPolicy,
                    fn=fn_of(P, "libube::StringFunctor::operator()", 1 if place == "ret" else 2))
            verdict(R, key, r, lambda o: delegated(r, o) or strip_path(r, o, place), "strip")


def spaces(o, evs, src):
    """loops that run over space: [(first index, step, index after the last)]"""
    res = []
    for L in loops_of(evs):
        if any(e.kind == "store" for f, b in L.bodies for e in walk(b)):
            continue
        for t, (i0, ns) in L.ivs.items():
            d = {sub(x, t) for x in ns}
            if len(d) != 1 or list(d)[0] not in (ONE, C(-1)):
                continue
            s = list(d)[0].a[0]
            got = []
            for f, b in L.bodies:
                xs = [x for y in f.all() for x in chars(y) if t in subterms(x)]
                g = None
                for x in set(xs):
                    c, off = src_of(x)
                    if c is not src and not (c is not None and c.op == "m:alloc"):
                        continue
                    tb, sure = table(about(f, [x]), x)
                    a = lin(off)[1].get(t)
                    if a in (1, -1):
                        g = (off, a, tb, sure)
                got.append(g)
            if None in got or not got or len({g[0] for g in got}) != 1:
                continue
            off, a = got[0][0], got[0][1]
            tb = set().union(*[g[2] for g in got])
            sure = all(g[3] for g in got)
            res.append((subst(off, {t: i0}), a * s, off, tb, sure))
    return res


def strip_path(r, o, place):
    src = r.c[0]
    n = mk("m:size", src, ZERO)
    dst = result_of(r, o, place)
    evs = o.events()
    if any(e.kind == "JOIN" for e in walk(evs)):
        return None, "join"
    old = stale(r, o, dst, place)
    if old:
        return False, old
    F = contents_size(o, dst, src, r.prog)
    if F is None:
        return None, "size of the result"
    if not o.facts.entails_le(neg(F)):
        if o.facts.entails_le(add(F, ONE)):
            return False, "the result is given a size below zero, %s" % show(F)
        return None, "size of the result"
    empty = o.facts.entails_le(F)
    sp = spaces(o, evs, src)
    for a, s, b, tb, sure in sp:
        if not sure:
            return None, "what is skipped"
        if tb - WS:
            return False, "%s is taken for space" % some(tb - WS)
    # where the result comes from
    S = None
    for e in evs:
        if isinstance(e, Loop) or e.kind not in ("memmove", "memcpy", "store"):
            continue
        if e.kind == "store":
            return None, "single store"
        c, off = base_off(e.args[0])
        sc, so = base_off(e.args[1])
        if c is None or sc is None or S is not None:
            return None, "copy"
        if same(o, off, ZERO) is not True:
            return None, "copy to the middle"
        if same(o, e.args[2], F) is not True:
            lt_ = o.facts.entails_le(add(sub(e.args[2], F), ONE))
            if lt_:
                return False, "%s of %s characters are copied" % (show(e.args[2]), show(F))
            if not o.facts.entails_le(sub(F, e.args[2])):
                return None, "copied size"
        S = so
    for L in loops_of(evs):
        st = [e for f, b in L.bodies for e in walk(b) if e.kind == "store"]
        if not st:
            continue
        if len(st) != 1 or len(L.bodies) != 1 or S is not None:
            return None, "several writes"
        cl = closed(L, o.facts)
        if cl is None:
            return None, "copy loop is not counted"
        e = st[0]
        c, off = base_off(e.args[0])
        if c is None:
            return None, "write elsewhere"
        if c is not dst and dst.op == "mut" and c is not src:
            was = r.c[1] if place == "out" and len(r.c) > 1 else None
            if c is was and root_of(dst) is not was or place == "ret" and c.op == "m:alloc" and root_of(dst) is not c:
                return False, "the characters are written to the text the result had before"
            return None, "write to other text"
        x = e.args[2]
        while x.op in ("trunc8", "sext8", "zext8"):
            x = x.a[0]
        sc, so = src_of(x)
        if sc is None:
            return None, "value"
        off, so = cl.at(off), cl.at(so)
        if same(o, off, cl.k) is not True:
            return None, "index"
        q = same(o, cl.n, F)
        if q is not True:
            if clear(cl.n):
                return False, "%s of %s characters are copied" % (show(cl.n), show(F))
            return None, "trip count"
        S = sub(so, cl.k)
        if kappa(L) in subterms(S):
            return None, "index"
    S = fresh(S, src) if S is not None else None
    if S is None:
        if dst is src or dst.op == "m:alloc" or dst.op == "mut" and dst.a[1] is src or place == "ret" and dst.op == "mut" and dst.a[1].op == "m:alloc":
            S = ZERO            # characters stay where they are
        elif not empty:
            return None, "the result is not written"
    lead = [b for a, s, b, tb, su in sp if s == 1 and same(o, a, ZERO) is True]
    trail = [b for a, s, b, tb, su in sp if s == -1 and same(o, a, sub(n, ONE)) is True]
    if any(o.facts.entails_le(sub(n, b)) for b in lead) and o.facts.entails_le(sub(ONE, F)) and not o.facts.entails_le(n):
        return False, "text of space only gives %s characters" % show(F)
    if empty:
        # all of it must be space: one loop ran to where the other end is
        for x in lead + [ZERO]:
            for y in trail + [sub(n, ONE)]:
                if o.facts.entails_le(add(sub(y, x), ONE)):
                    return True, ""
        return None, "why nothing is left"
    if S is None:
        return None, "where the result comes from"
    E = sub(add(S, F), ONE)
    for at, ends, w in ((S, lead, "starts"), (E, trail, "ends")):
        if len(ends) == 1 and at is not ends[0] and clear_i(at) and clear_i(ends[0]) and len(sp) == 2:
            q = o.facts.assume(NOT(eq(at, ends[0])))
            if q is not None and not_space(o, evs, src, ends[0], "")[0] is True:
                return False, "the result %s at character %s, the text at %s" % (w, show(at), show(ends[0]))
    # before S all space
    if same(o, S, ZERO) is not True:
        if not any(s == 1 and same(o, a, ZERO) is True and same(o, b, S) is True for a, s, b, tb, su in sp):
            return None, "what is before the result"
    if same(o, E, sub(n, ONE)) is not True:
        if not any(s == -1 and same(o, a, sub(n, ONE)) is True and same(o, b, E) is True for a, s, b, tb, su in sp):
            return None, "what is after the result"
    for at, w in ((S, "first"), (E, "last")):
        v, t = not_space(o, evs, src, at, w)
        if v is not True:
            return v, t
    return True, ""


def clear_i(t):
    return all(x.op in ("c", "aff", "iv", "m:size", "v0", "arg", "iarg") for x in subterms(t) if isinstance(x, T))


def not_space(o, evs, src, at, w):
    """the path knows that the character there is not space"""
    xs = {x for y in o.facts.all() for x in chars(y)}
    hit = False
    for x in xs:
        c, off = src_of(x)
        if c is None or c is not src and c.op != "m:alloc":
            continue
        if same(o, off, at) is not True:
            continue
        tb, sure = table(about(o.facts, [x]), x)
        if not sure:
            continue
        hit = True
        if not tb & WS:
            return True, ""
        left = tb & WS
    if hit:
        return False, "the %s character of the result may be %s" % (w, some(left))
    return False if not any(e.kind == "call" for e in walk(evs)) and not xs else None, "the %s character may be space" % w


# ---------------------------------------------------------------- other arrays
def others(R, P, Q):
    for n, meth in (("ToUpper", "toupper"), ("ToLower", "tolower"), ("Strip", "strip")):
        key = "elements.%s" % n
        with R.guard(key, "elements"):
            f = P.defs.get(impl(P, cls(n), "broadcast", 2))
            r = Run(R, P, None, None, 0, lambda q: q.kind(0, "var", "array") + distinct(q, 0, 1), policy=ResPolicy, fn=f)
            verdict(R, key, r, lambda o: each(r, o), "elements")
        key = "whole.%s" % n
        with R.guard(key, "elements"):
            r = Run(R, P, cls(n), None, 0, lambda q: q.kind(0, "var", "array"), policy=ResPolicy, fn=fn_of(P, "libube::StringFunctor::operator()", 1))
            verdict(R, key, r, lambda o: whole(r, o), "elements")
        key = "alloc.%s" % n
        with R.guard(key, "elements"):
            r = Run(R, P, cls(n), "alloc", 1, lambda q: q.kind(0, "var", "array"), policy=ResPolicy)
            verdict(R, key, r, lambda o: copied(r, o), "elements")
        key = "method.%s" % meth
        with R.guard(key, "elements"):
            try:
                f = fn_of(Q, "libube::var::" + meth, 0)
            except Vanished:
                f = fn_of(P, "libube::var::" + meth, 0)
            r = Run(R, Q, None, None, 0, policy=ResPolicy, fn=f)
            verdict(R, key, r, lambda o: method(r, o, meth), "elements")


def copied(r, o):
    """what the functor works on is a copy, not the argument: all levels of it"""
    c = r.pol.content(r.E, o.st, r.sret)
    if c.op == "m:copy" and c.a[0] is r.c[0]:
        d = c.a[1] if c.a[1].op != "b2i" else c.a[1].a[0]
        d = o.facts.decide(d) if d.op in BOOLS else None
        if c.a[1] in (ZERO, FALSE) or d is False:
            return False, "the elements of the argument are changed"
        return (True, "") if c.a[1] in (ONE, TRUE) or d is True else (None, "depth")
    if c is r.c[0]:
        return False, "the argument itself is changed"
    return None, "result"


def method(r, o, meth):
    g = [e for e in walk(o.events()) if e.kind == "functor"]
    if len(g) != 1 or g[0].args[0].op != "global":
        return None, "not one functor"
    e = g[0]
    nme = re.search(r"6libube\d+(toupper|tolower|strip)E$", e.args[0].a[0])
    if not nme:
        return None, "other functor"
    if nme.group(1) != meth:
        return False, "applies %s" % nme.group(1)
    if len(e.args) != 3:
        return None, "arguments"
    if e.args[1] is not r.this or e.args[2] is not r.this:
        return None, "arguments"
    return True, ""


def each(r, o):
    src, dst = r.c[0], r.c[1]
    evs = o.events()
    ls = [L for L in loops_of(evs) if any(e.kind in ("functor", "method") for f, b in L.bodies for e in walk(b))]
    n = mk("m:size", src, ZERO)
    if not ls:
        if any(e.kind in ("functor", "method") for e in walk(evs)):
            return None, "no loop"
        return (True, "") if o.facts.entails_le(n) else (None, "no loop")
    if len(ls) != 1:
        return None, "loops"
    L = ls[0]
    cl = closed(L, o.facts)
    if cl is None:
        return None, "loop is not counted"
    if same(o, cl.n, n) is not True:
        if clear(cl.n):
            return False, "applied to %s of %s elements" % (show(cl.n), show(n))
        return None, "trip count"
    for f, b in L.bodies:
        g = [e for e in walk(b) if e.kind in ("functor", "method")]
        if len(g) != 1 or len(g[0].args) != 3:
            return None, "calls"
        _, a, d = g[0].args
        if a.op != "elem" or d.op not in ("elem",):
            return None, "arguments"
        ia, idd = cl.at(a.a[1]), cl.at(d.a[1])
        if a.a[0] is not src or d.a[0] is not dst:
            if clear(a.a[0]) and clear(d.a[0]) and {a.a[0], d.a[0]} <= {src, dst}:
                return False, "applied to the wrong array"
            return None, "arguments"
        if same(o, ia, idd) is not True:
            if clear(ia) and clear(idd):
                return False, "element %s of the result is made from element %s" % (show(idd), show(ia))
            return None, "index"
        if not (same(o, ia, cl.k) is True or same(o, ia, sub(sub(n, ONE), cl.k)) is True):
            return None, "index"
    return True, ""


def whole(r, o):
    g = [e for e in walk(o.events()) if e.kind in ("functor", "method", "var")]
    al = [e for e in g if e.name.endswith("::alloc")]
    br = [e for e in g if e.name.endswith("::broadcast")]
    res = r.pol.content(r.E, o.st, r.sret)
    if len(br) != 1:
        return None, "broadcast"
    if len(br[0].args) != 3 or br[0].args[1] is not r.c[0]:
        return None, "broadcast"
    out = br[0].args[2]
    if out is r.c[0]:
        return False, "the argument is changed"
    if res is not out and not (res.op == "vx" or res.op == "mut"):
        return None, "result"
    return True, ""


# ---------------------------------------------------------------- getline
def getline(R, P):
    f = fn_of(P, "libube::var::getline", 1)
    key = "getline"
    with R.guard(key, "getline"):
        r = Run(R, P, None, None, 0, policy=ResPolicy, fn=f)
        verdict(R, key + ".line", r, lambda o: line(r, o), "getline")
        verdict(R, key + ".end", r, lambda o: ended(r, o), "getline")


def reads(evs):
    return [e for e in walk(evs) if e.kind == "io" and e.name in ("read", "getline")]


def is_get(t, strm):
    return t.op == "ioval" and t.a[0].a[0] == "get"


def gets(f):
    return {x for y in f.all() for x in subterms(y) if x.op == "ioval" and x.a[0].op == "k" and x.a[0].a[0] in ("get", "sbumpc")}


def ended(r, o):
    """nil exactly when there is nothing to read"""
    evs = o.events()
    c = r.pol.content(r.E, o.st, r.args[0])
    ls = [L for L in loops_of(evs) if reads([e for f, b in L.bodies for e in b])]
    if c.op == "nil":
        if not reads(evs):
            return None, "nothing read"
        e = reads(evs)[0]
        if ls or len(reads(evs)) != 1:
            return None, "more is read"
        ok = o.facts.decide(mk("bool", mk("sgood", e.args[0], e.args[1])))
        ef = o.facts.decide(mk("bool", mk("seof", e.args[0], e.args[1])))
        fl = o.facts.decide(mk("bool", mk("sfail", e.args[0], e.args[1])))
        if ok is False or ef is True or fl is True:
            return True, ""
        if ok is True:
            return False, "nil although there is a line"
        return None, "condition"
    if not reads(evs):
        return False, "nothing is read and the var is not nil" if not warned(r) else None
    e = reads(evs)[0]
    ok = o.facts.decide(mk("bool", mk("sgood", e.args[0], e.args[1])))
    if ok is False:
        return False, "not nil at the end of the stream"
    if ok is True:
        return True, ""
    ef = o.facts.decide(mk("bool", mk("seof", e.args[0], e.args[1])))
    if ef is False:
        return True, ""
    q = {x.op for y in o.facts.all() for x in subterms(y)
         if x.op in ("sgood", "seof", "sfail", "srdstate") and e.args[1] in x.a or x.op == "ioval" and x.a[0].a[0] == "peek"}
    if not q:
        return False, "whether there is anything to read is not asked"
    return None, "condition"


def line(r, o):
    evs = o.events()
    c = r.pol.content(r.E, o.st, r.args[0])
    if c.op == "nil":
        return True, ""
    ls = [L for L in loops_of(evs) if any(e.kind == "store" for f, b in L.bodies for e in walk(b))]
    if len(ls) != 1:
        return None, "no single loop that stores"
    L = ls[0]
    pos = limit = None
    for f, b in L.bodies:
        st = [e for e in walk(b) if e.kind == "store" and base_off(e.args[0])[0] is not None]
        rd = [e for e in walk(b) if e.kind == "io" and e.name == "read"]
        gs = {x for x in gets(f)} | {x for e in st for x in subterms(e.args[2]) if x.op == "ioval"}
        if len(rd) != 1 or any(isinstance(e, Loop) for e in b):
            return None, "reads in the loop"
        if not st:
            # a character read and not kept
            if len(gs) == 1 and b_clear(f):
                x = list(gs)[0]
                t, sure = table_n(f, x)
                if t and sure:
                    return False, "%s is dropped" % some({v for v in t})
            return None, "character not kept"
        if len(st) != 1:
            return None, "stores"
        e = st[0]
        v = e.args[2]
        x = v.a[0] if v.op == "trunc8" else v
        if x.op != "ioval":
            return None, "stored value"
        cc, off = base_off(e.args[0])
        if off not in L.ivs:
            # stored after the count moved on
            return None, "position"
        i0, ns = L.ivs[off]
        if same(o, i0, ZERO) is not True:
            return (False if clear(i0) else None), "the line starts at %s" % show(i0)
        k = L.bodies.index((f, b))
        if len(ns) != len(L.bodies):
            if any(sub(y, off) is not ONE for y in ns):
                return None, "position"
        elif sub(ns[k], off) is not ONE:
            return (False if clear(ns[k]) else None), "position %s after %s" % (show(ns[k]), show(off))
        pos = off
        t, sure = table_n(f, x)
        if not sure:
            return None, "conditions on the character"
        if 10 in t:
            return False, "the end of the line is kept"
        if -1 in t:
            return False, "the end of the stream is kept as a character"
        miss = set(range(256)) - {10} - t
        if miss and len(L.bodies) == 1:
            # the others leave the loop: judged at its end
            pass
        # there is room
        lim = [y for y in L.ivs if y is not off and y.op == "iv" and any(
            q.kind == "var" and q.name == "resize" and q.args[-1] is L.ivs[y][0] for q in evs if not isinstance(q, Loop))]
        if len(lim) == 1:
            y = limit = lim[0]
            s0, ss = L.ivs[y]
            if grows_first(L, o, off, y):
                continue
            if o.facts.decide(lt(i0, s0)) is False:
                return False, "the first character is stored beyond the end"
            g = f.assume(lt(off, y))
            nx = ss[k] if len(ss) == len(L.bodies) else None
            if g is not None and nx is not None:
                if not g.entails_le(sub(add(add(off, ONE), ONE), nx)):
                    if nx is y and g.assume(eq(add(off, ONE), y)) is not None:
                        return False, "the text does not grow when it is full"
                    if not add_ok(g, nx, y):
                        return None, "room"
                rz = [q for q in walk(b) if q.kind == "var" and q.name == "resize"]
                if nx is not y and not (rz and rz[-1].args[-1] is nx):
                    return (False if not rz and not warned(r) else None), "the text does not grow although its limit does"
    # memory may move when the size changes: the pointer is asked for again
    def isresize(q):
        return q.kind == "var" and q.name == "resize"

    def isptr(q):
        return q.kind == "read" and q.name == "ptr"
    pre = [q for q in evs[:evs.index(L)] if not isinstance(q, Loop) and (isresize(q) or isptr(q))]
    each_ = all(any(isptr(q) for q in b[:[i for i, e in enumerate(b) if not isinstance(e, Loop) and e.kind == "store"][0]] if not isinstance(q, Loop))
                for f, b in L.bodies if any(not isinstance(e, Loop) and e.kind == "store" for e in b))
    if not each_ and not warned(r):
        if pre and isresize(pre[-1]):
            return False, "written to memory of before the size was changed"
        for f, b in L.bodies:
            k = [q for q in b if not isinstance(q, Loop) and (isresize(q) or isptr(q))]
            if k and isresize(k[-1]):
                return False, "after the size is changed, written to the memory of before"
    # the end
    last = [x for x in gets(o.facts)]
    rz = [q for q in evs if not isinstance(q, Loop) and q.kind == "var" and q.name == "resize"]
    after = [q for q in rz if evs.index(q) > evs.index(L)]
    if not after:
        if limit is None or warned(r):
            return None, "final size"
        if same(o, pos, limit) is True:
            return True, ""
        return False, "the text is not cut to what was read"
    if same(o, after[-1].args[-1], pos) is not True:
        if clear(after[-1].args[-1]):
            return False, "the line is given %s characters, %s were read" % (show(after[-1].args[-1]), show(pos))
        return None, "final size"
    eofs = [a for a in o.facts.all() if a.op == "bool" and a.a[0].op in ("seof", "sfail")] + \
           [a for a in o.facts.all() if a.op == "not" and a.a[0].op == "bool" and a.a[0].a[0].op == "sgood"]
    out = {x for x in last if any(e.kind == "io" for e in evs[evs.index(L) + 1:] if not isinstance(e, Loop))}
    for x in out:
        t, sure = table_n(o.facts, x)
        if not sure:
            return None, "conditions on the last character"
        if t - {10, -1} and not eofs:
            return False, "the line ends at %s" % some(t - {10, -1})
    if not out and not eofs:
        if not warned(r) and not any(x.op in ("ioval", "ld", "unk", "iovx") for y in o.facts.all() for x in subterms(y)):
            return False, "the line ends whatever comes next"
        return None, "why the line ends"
    return True, ""


def grows_first(L, o, off, y):
    """the text may be full at the start of a step, and grows before the character is stored"""
    i0, ns = L.ivs[off]
    s0, ss = L.ivs[y]
    if len(ns) != len(L.bodies) or len(ss) != len(L.bodies) or not o.facts.entails_le(sub(i0, s0)):
        return False
    for k, (f, b) in enumerate(L.bodies):
        g = f.assume(le(off, y))
        if g is None:
            continue
        if any(isinstance(e, Loop) for e in b):
            return False
        size = y
        for e in b:
            if e.kind == "var" and e.name == "resize":
                size = e.args[-1]
            elif e.kind == "store" and not g.entails_le(sub(add(off, ONE), size)):
                return False
        if size is not ss[k] and size is not y or not g.entails_le(sub(ns[k], ss[k])) or not g.entails_le(sub(ss[k], size)):
            return False
    return True


def add_ok(g, nx, y):
    return g.entails_le(sub(add(y, ONE), nx)) and True


def b_clear(f):
    return True


def table_n(f, x):
    """as table, for values of get(): -1..255"""
    fs = about(f, [x])
    r, sure = set(), True
    for v in range(-1, 256):
        ok = True
        for q in fs:
            z = bval(q, {x: v})
            if z is None:
                sure = False
            elif not z:
                ok = False
                break
        if ok:
            r.add(v)
    return r, sure


# ---------------------------------------------------------------- split, join
def split(R, P):
    f = [fn for n, fn in sorted(P.defs.items()) if short(P.dem(n)) == "libube::var::split"]
    seps = [x for x in f if sig_args(P.dem(x.name))[0].strip() == "char const*"]
    sps = [x for x in f if sig_args(P.dem(x.name))[0].strip() == "int"]
    if not seps or not sps:
        raise Vanished("no var::split")
    with R.guard("split.text", "split"):
        r = Run(R, P, None, None, 0, policy=ResPolicy, fn=seps[0])
        r.sep, r.max = r.c[0], r.c[1]
        verdict(R, "split.text", r, lambda o: sep_path(r, o), "split")
    with R.guard("split.empty", "split"):
        def setup(q):
            return [eq(mk("call", "strlen", ONE, iarg(1)), ZERO)]
        v = None
        for o in r.rets():
            k = [x for y in o.facts.all() for x in subterms(y) if x.op == "call" and x.a[0] == "strlen" and x.a[-1] is r.sep]
            fin = [x for x in set(k) if o.facts.decide(eq(x, ZERO)) is False]
            ch = [x for y in o.facts.all() for x in chars(y) if x.a[0] is r.sep and o.facts.decide(eq(x, ZERO)) is False]
            loop = any(e.kind == "call" and e.name == "strstr" for e in walk(o.events()))
            if loop and not fin and not ch:
                v = False if k or not warned(r) else None
                break
        else:
            v = True
        R.ob("split.empty", v, "an empty separator is searched for" if v is False else "", r.dem, "split")
    with R.guard("split.space", "split"):
        r2 = Run(R, P, None, None, 0, policy=ResPolicy, fn=sps[0])
        r2.max = r2.c[0]
        verdict(R, "split.space", r2, lambda o: space_path(r2, o), "split")


SPL = re.compile(r"^(c|aff|iv|ivm|ivv|ivx|m:str|call|k|v0|arg|iarg|m:size|vx|ver|strn|str|mul|sext32|zext32|trunc32)$")


def clear_s(t):
    return all(SPL.match(x.op) and (x.op != "call" or x.a[0] in ("strlen", "strstr")) for x in subterms(t) if isinstance(x, T))


def found(t, sep):
    return t.op == "call" and t.a[0] == "strstr" and t.a[3] is sep if len(t.a) == 4 else False


def seplen(t, sep):
    return t.op == "call" and t.a[0] == "strlen" and t.a[-1] is sep


def pushes(b):
    return [e for e in walk(b) if e.kind == "var" and e.name in ("push", "append", "insert")]


def one_piece(r, f, e, cur):
    """(verdict, text, what follows) for a piece pushed when the text from cur is left"""
    v = e.args[-1] if e.name == "push" else None
    if v is None or v.op not in ("strn", "str"):
        return None, "what is pushed", None
    if v.op == "str":
        return None, "rest", v.a[0]
    n, b = v.a[0], v.a[1]
    p = add(n, b)
    fs = [x for x in lin(p)[1] if found(x, r.sep)]
    if not (clear_s(n) and clear_s(b)) or len(fs) != 1:
        return None, "piece", None
    s = fs[0]
    if s.a[2] is not cur:
        return (False, "the separator is searched for from %s, the text starts at %s" % (show(s.a[2]), show(cur)), None) if clear_s(s.a[2]) and cur_ok(s.a[2], cur) else (None, "search", None)
    if b is not cur:
        return False, "the piece starts at %s instead of %s" % (show(b), show(cur)), None
    if p is not s:
        return False, "the piece ends at %s instead of %s" % (show(p), show(s)), None
    if f.decide(eq(s, ZERO)) is not False:
        return None, "separator may be missing", None
    return True, "", s


def cur_ok(a, b):
    return set(lin(a)[1]) == set(lin(b)[1])


def follows(r, s, nxt):
    """what is left starts after the separator"""
    d = sub(nxt, s)
    if d.op == "call" and seplen(d, r.sep):
        return True, ""
    if clear_s(nxt):
        return False, "the text goes on at %s after a separator at %s" % (show(nxt), show(s))
    return None, "rest"


def sep_path(r, o):
    evs = o.events()
    text = [e for e in evs if not isinstance(e, Loop) and e.kind == "read" and e.name == "str"]
    start = mk("m:str", r.this)
    if any(e.kind == "JOIN" for e in walk(evs)) or warned(r):
        return None, "join"
    ls = loops_of(evs)
    if len(ls) > 1:
        return None, "loops"
    tail = pushes([e for e in evs if not isinstance(e, Loop)])
    cur = start
    if ls:
        L = ls[0]
        ivs = [t for t, (i0, ns) in L.ivs.items() if i0 is start]
        if len(ivs) != 1:
            return None, "position in the text"
        cur = ivs[0]
        ns = L.ivs[cur][1]
        for k, (f, b) in enumerate(L.bodies):
            ps = pushes(b)
            if len(ps) != 1:
                if not ps and any(found(x, r.sep) and f.decide(eq(x, ZERO)) is False for y in f.all() for x in subterms(y)):
                    return False, "a piece is dropped"
                return None, "pieces in a step"
            v, t, s = one_piece(r, f, ps[0], cur)
            if v is not True:
                return v, t
            for nx in ([ns[k]] if len(ns) == len(L.bodies) else ns):
                v, t = follows(r, s, nx)
                if v is not True:
                    return v, t
            # it goes on only while there may be more pieces than one
            sz = [x for y in f.all() for x in subterms(y) if x.op == "m:size" and x.a[0].op in ("vx", "mut")]
            if f.decide(eq(r.max, ZERO)) is not True:
                if not sz:
                    return None, "limit"
                if not any(f.entails_le(add(sub(x, r.max), C(2))) for x in sz):
                    if any(f.entails_le(add(sub(x, r.max), ONE)) or f.entails_le(sub(x, r.max)) for x in sz):
                        return False, "more than the number of pieces asked for"
                    return None, "limit"
    if not tail:
        return (False if clear_path(o) else None), "the rest of the text is not returned"
    for e in tail[:-1]:
        v, t, s = one_piece(r, o.facts, e, cur)
        if v is not True:
            return v, t
        cur = add(s, sep_len(r, o))
    e = tail[-1]
    v = e.args[-1] if e.name == "push" else None
    if v is None or v.op != "str":
        return None, "last piece"
    if v.a[0] is not cur:
        if clear_s(v.a[0]):
            return False, "the last piece starts at %s instead of %s" % (show(v.a[0]), show(cur))
        return None, "last piece"
    # why it stops here
    st = [x for y in o.facts.all() for x in subterms(y) if found(x, r.sep) and x.a[2] is cur]
    if any(o.facts.decide(eq(x, ZERO)) is True for x in st):
        return True, ""
    if o.facts.decide(eq(r.max, ONE)) is True:
        return True, ""
    sz = [x for y in o.facts.all() for x in subterms(y) if x.op == "m:size" and x.a[0].op in ("vx", "mut")]
    if o.facts.decide(eq(r.max, ZERO)) is False and any(o.facts.entails_le(sub(sub(r.max, ONE), x)) for x in sz):
        return True, ""
    if o.facts.decide(eq(r.max, ZERO)) is True:
        return False, "splitting stops although there is no limit"
    if not ls and not any(e.kind == "call" and e.name != "strlen" for e in walk(evs)) and o.facts.assume(eq(r.max, ZERO)) is not None:
        return False, "nothing is split although there may be no limit"
    for x in sz:
        if o.facts.entails_le(sub(sub(r.max, C(2)), x)) or o.facts.entails_le(sub(sub(r.max, C(3)), x)):
            return False, "fewer pieces than asked for"
    return None, "why it stops"


def sep_len(r, o):
    k = [x for y in o.facts.all() for x in subterms(y) if seplen(x, r.sep)]
    k += [x for e in walk(o.events()) for a in list(e.args) + [e.res] if isinstance(a, T) for x in subterms(a) if seplen(x, r.sep)]
    return k[0] if k else mk("call", "strlen", ONE, r.sep)


def clear_path(o):
    return not any(e.kind in ("unknown", "?") for e in walk(o.events()))


# splitting at space
def scans(evs, facts):
    """loops that only move a pointer: {result: (start, set of characters passed, certain)}"""
    res = {}
    for L in loops_of(evs):
        if pushes([e for f, b in L.bodies for e in b]) or len(L.ivs) != 1:
            continue
        t = list(L.ivs)[0]
        i0, ns = L.ivs[t]
        if any(sub(x, t) is not ONE for x in ns):
            continue
        tb, sure = set(), True
        for f, b in L.bodies:
            xs = {x for y in f.all() for x in chars(y) if addr_of(x) is t}
            ok = None
            for x in xs:
                ok, s = table(about(f, [x]), x)
                sure = sure and s
            tb |= ok if ok is not None else set(range(256))
            sure = sure and len(xs) == 1
        res[t] = (i0, tb, sure)
    return res


def addr_of(x):
    return add(x.a[0], x.a[1] if isinstance(x.a[1], T) else C(x.a[1]))


def stops_at(facts, t):
    """characters that may be at t"""
    for x in {x for y in facts.all() for x in chars(y)}:
        if addr_of(x) is t:
            tb, sure = table(about(facts, [x]), x)
            if sure:
                return tb
    return None


ALL = set(range(256))


def space_path(r, o):
    evs = o.events()
    if any(e.kind == "JOIN" for e in walk(evs)) or warned(r):
        return None, "join"
    sc = scans(evs, o.facts)
    start = mk("m:str", r.this)
    big = [L for L in loops_of(evs) if any(isinstance(e, Loop) for f, b in L.bodies for e in b)]
    if len(big) != 1:
        return None, "loops"
    L = big[0]
    ivs = [t for t, (i0, ns) in L.ivs.items() if i0 is start or i0 in sc and sc[i0][0] is start]
    if len(ivs) != 1:
        return None, "position"
    cur = ivs[0]
    i0, ns = L.ivs[cur]
    if i0 in sc:
        a, tb, sure = sc[i0]
        if sure and tb - WS:
            return False, "%s is skipped at the start" % some(tb - WS)
        st = stops_at(o.facts, i0)
        if not sure or st is None:
            return None, "leading space"
        if st & WS:
            return False, "leading %s is not skipped" % some(st & WS)
    else:
        return None, "leading space"
    und = None
    for k, (f, b) in enumerate(L.bodies):
        v, t, nx = word(r, f, b, cur)
        if v is False:
            return v, t
        if v is None:
            und = t
            continue
        for y in [ns[k]] if len(ns) == len(L.bodies) else ns:
            if y is not nx:
                if clear_s(y):
                    return False, "the text goes on at %s after %s" % (show(y), show(nx))
                return None, "next"
        mx = f.decide(eq(r.max, ZERO))
        if mx is not True:
            sz = [x for y in f.all() for x in subterms(y) if x.op == "m:size" and x.a[0].op in ("vx", "mut")]
            z = stops_at(f, nx)
            if z != {0} and not any(f.entails_le(add(sub(x, r.max), C(2))) for x in sz):
                und = "limit"
    if und:
        return None, und
    # how it ends
    i = evs.index(L)
    rest = evs[i + 1:]
    z = stops_at(o.facts, cur)
    if not rest or not any(isinstance(e, Loop) for e in rest) and not pushes(rest):
        if z is None:
            return None, "end"
        if z != {0}:
            return False, "it ends at %s" % some(z - {0})
        return True, ""
    v, t, nx = word(r, o.facts, [e for e in rest if not (e.kind == "var" and e is pushes(rest)[-1])] if pushes(rest) else rest, cur)
    if v is not True:
        return (None, t)
    ps = pushes(rest)
    last = ps[-1].args[-1] if ps else None
    z = stops_at(o.facts, nx)
    if last is not None and last.op == "str":
        if last.a[0] is not nx:
            return (False, "the rest starts at %s instead of %s" % (show(last.a[0]), show(nx))) if clear_s(last.a[0]) else (None, "rest")
        if o.facts.decide(eq(r.max, ZERO)) is True:
            return False, "splitting stops although there is no limit"
        return True, ""
    return None, "end"


def word(r, f, b, cur):
    """a word starts at cur: it is pushed, and the space after it skipped"""
    sc = scans(b, f)
    w = [t for t, (a, tb, s) in sc.items() if a is cur]
    if len(w) != 1:
        return None, "word", None
    w = w[0]
    a, tb, sure = sc[w]
    if not sure:
        return None, "word", None
    if tb & WS:
        return False, "%s is taken for part of a word" % some(tb & WS), None
    st = stops_at(f, w)
    if st is None:
        return None, "end of a word", None
    if st - WS - {0}:
        return False, "a word ends at %s" % some(st - WS - {0}), None
    nx = [t for t, (a, tb, s) in sc.items() if a is w]
    if len(nx) != 1:
        return None, "space after a word", None
    nx = nx[0]
    a, tb, sure = sc[nx]
    if not sure:
        return None, "space after a word", None
    if tb - WS:
        return False, "%s is skipped after a word" % some(tb - WS), None
    st = stops_at(f, nx)
    if st is None:
        return None, "space after a word", None
    if st & WS:
        return False, "%s after a word is not skipped" % some(st & WS), None
    ps = pushes(b)
    n = sub(w, cur)
    if not ps:
        if f.entails_le(n):
            return True, "", nx
        return (False, "a word is dropped", None) if f.assume(le(ONE, n)) is not None else (None, "no word", None)
    if len(ps) != 1:
        return None, "pieces", None
    v = ps[0].args[-1]
    if ps[0].name != "push" or v.op != "strn":
        return None, "piece", None
    if v.a[0] is not n or v.a[1] is not cur:
        if clear_s(v.a[0]) and clear_s(v.a[1]):
            return False, "%s characters from %s are returned, the word has %s from %s" % (show(v.a[0]), show(v.a[1]), show(n), show(cur)), None
        return None, "piece", None
    return True, "", nx


def join(R, P):
    f = fn_of(P, "libube::var::join", 1)
    with R.guard("join.text", "join"):
        r = Run(R, P, None, None, 0, lambda q: [eq(mk("m:atype", q.this, ZERO), C(1))], policy=ResPolicy, fn=f)
        verdict(R, "join.text", r, lambda o: itself(r, o), "join")
    with R.guard("join.array", "join"):
        r2 = Run(R, P, None, None, 0, lambda q: [NOT(eq(mk("m:atype", q.this, ZERO), C(1)))], policy=ResPolicy, fn=f)
        verdict(R, "join.array", r2, lambda o: joined(r2, o), "join")


def itself(r, o):
    c = r.pol.content(r.E, o.st, r.sret)
    if c is r.this:
        return True, ""
    if c.op in ("nil", "str", "num"):
        return False, "returns %s" % show(c)
    return None, "result"


def piece(e, pos_ok):
    """('sep' | ('elem', index), at the end?) of an event that adds to the result"""
    v = e.args[1] if e.name == "insert" else e.args[-1]
    at = e.args[2] if e.name == "insert" and len(e.args) > 2 else None
    return v, at


def joined(r, o):
    evs = o.events()
    n = mk("m:size", r.this, ZERO)
    ls = loops_of(evs)
    sep = r.c[0]
    if any(e.kind == "JOIN" for e in walk(evs)) or warned(r):
        return None, "join"
    head = [e for e in evs if not isinstance(e, Loop) and e.kind == "var" and e.name in ("insert", "append", "push")]
    if len(ls) != 1:
        if not ls and o.facts.entails_le(n) and not head:
            return True, ""
        return None, "loops"
    L = ls[0]
    cl = closed(L, o.facts)
    if cl is None:
        return None, "loop is not counted"
    first = ZERO
    # what is before the loop: the first element
    done = 0
    i = evs.index(L)
    if any(evs.index(e) > i for e in head):
        return None, "something after the loop"
    for e in head:
        v, at = piece(e, None)
        if v.op == "elem" and v.a[0] is r.this and same(o, v.a[1], ZERO) is True and done == 0:
            done = 1
        else:
            return None, "before the loop"
    if same(o, cl.n, sub(n, C(done))) is not True:
        if o.facts.entails_le(cl.n) and o.facts.entails_le(sub(n, C(done))):
            pass
        elif clear(cl.n):
            return False, "%s of %s elements are joined" % (show(add(cl.n, C(done))), show(n))
        else:
            return None, "trip count"
    for f, b in L.bodies:
        es = [e for e in walk(b) if e.kind == "var" and e.name in ("insert", "append", "push")]
        seq = []
        for e in es:
            v, at = piece(e, None)
            if e.name == "push":
                return None, "push"
            if v.op == "str" and v.a[0] is sep:
                seq.append("sep")
            elif v.op == "elem" and v.a[0] is r.this:
                seq.append(v.a[1])
            else:
                return None, "what is added"
            tgt = e.args[0]
            if at is None or at is ZERO:
                # in front of everything
                if at is ZERO and not (f.decide(eq(mk("m:size", tgt, ZERO), ZERO)) is True):
                    first_ = len(seq) == 1 and seq[0] != "sep" and f.decide(eq(seq[0], ZERO)) is True
                    if not first_:
                        return False, "a piece is added in front"
                elif at is None and e.name == "insert":
                    first_ = len(seq) == 1 and seq[0] != "sep" and f.decide(eq(seq[0], ZERO)) is True
                    if not first_:
                        return None, "place"
            elif not (at.op == "m:size" and at.a[0] is tgt):
                if at.op == "aff" and any(x.op == "m:size" for x in lin(at)[1]):
                    return False, "a piece is added at %s" % show(at)
                return None, "place"
        idx = [x for x in seq if x != "sep"]
        if len(idx) != 1:
            if not idx and not [e for e in walk(b) if e.kind not in ("read",)]:
                return False, "an element is left out"
            return None, "elements in a step"
        ix = cl.at(idx[0])
        if same(o, ix, add(cl.k, C(done))) is not True:
            if f.decide(eq(idx[0], ZERO)) is True or idx[0] is ZERO:
                zz = [t for t in L.ivs if f.decide(eq(t, ZERO)) is True]
                if not zz:
                    return False, "element 0 is added in every step"
            elif clear(ix):
                return False, "element %s is added in step %s" % (show(ix), show(cl.k))
            else:
                return None, "index"
        zero = done == 0 and (f.decide(eq(idx[0], ZERO)) is True)
        nz = done == 1 or f.decide(eq(idx[0], ZERO)) is False
        if not zero and not nz:
            if seq.count("sep") and done == 0:
                return False, "there is a separator before the first element" if seq[0] == "sep" else "a separator follows the last element"
            if "sep" not in seq and any(x.op == "m:size" and x.a[0].op == "vx" for y in f.all() for x in subterms(y)):
                return False, "there is no separator after elements that are empty"
            return None, "first element"
        if zero and "sep" in seq:
            return False, "there is a separator next to the first element only"
        if nz and seq != ["sep", idx[0]]:
            return False, ("a separator is missing" if "sep" not in seq else "the order of separator and element is wrong")
    return True, ""


# ---------------------------------------------------------------- characters
def chars_of(R, U):
    f = fn_of(U, "libube::var::len", 0)
    with R.guard("len.text", "len"):
        r = Run(R, U, None, None, 0, lambda q: [eq(mk("m:atype", q.this, ZERO), C(1))], policy=ResPolicy, fn=f)
        verdict(R, "len.text", r, lambda o: counted(r, o), "len")
    with R.guard("len.array", "len"):
        r2 = Run(R, U, None, None, 0, lambda q: [NOT(eq(mk("m:atype", q.this, ZERO), C(1)))], policy=ResPolicy, fn=f)

        def arr(o):
            if o.val is mk("m:size", r2.this, ZERO):
                return True, ""
            return (False if clear(o.val) and not has_free(o.val) else None), "returns %s" % show(o.val)
        verdict(R, "len.array", r2, arr, "len")


def byte_sets(f, evs, base, pos):
    """what is known of the bytes from pos on: {offset: set}, and from loops over them"""
    r = {}
    for x in {x for y in f.all() for x in chars(y)}:
        c, off = src_of(x)
        if c is None:
            continue
        d = sub(off, pos)
        if is_c(d):
            t, sure = table(about(f, [x]), x)
            if not sure:
                return None
            r[d.a[0]] = r.get(d.a[0], ALL) & t
    for L in loops_of(evs):
        # a loop that ran over following bytes
        for t, (i0, ns) in L.ivs.items():
            if len({sub(y, t) for y in ns}) != 1 or not is_c(i0):
                return None
            s = sub(ns[0], t)
            if s not in (ONE, C(-1)):
                return None
            ends = [v for v in range(-1, 9) if f.decide(eq(t, C(v))) is True]
            if len(ends) != 1:
                return None
            for bf, b in L.bodies:
                for x in {x for y in bf.all() for x in chars(y) if t in subterms(y)}:
                    c, off = src_of(x)
                    if c is None or t not in subterms(off):
                        continue
                    tb, sure = table(about(bf, [x]), x)
                    d = sub(sub(off, pos), t)
                    if not sure or not is_c(d):
                        return None
                    for j in range(i0.a[0], ends[0], s.a[0]):
                        r[j + d.a[0]] = r.get(j + d.a[0], ALL) & tb
    return r


def counted(r, o):
    evs = o.events()
    ls = loops_of(evs)
    n = mk("m:size", r.this, ZERO)
    if any(e.kind == "JOIN" for e in walk(evs)) or warned(r):
        return None, "join"
    if not ls:
        return None, "no loop"
    L = ls[0]
    val = o.val
    zero = [t for t, (i0, ns) in L.ivs.items() if i0 is ZERO]
    cnt = [t for t in zero if all(sub(y, t) is ONE for y in L.ivs[t][1])]
    pos = [t for t in zero if any(src_of(x)[1] is t for f, b in L.bodies for y in f.all() for x in chars(y))]
    if len(pos) != 1:
        return None, "position"
    pos = pos[0]
    if val in zero:
        if val not in cnt:
            d = {show(sub(y, val)) for y in L.ivs[val][1]}
            return (False, "a character counts as %s" % ", ".join(sorted(d))) if all(is_c(sub(y, val)) for y in L.ivs[val][1]) else (None, "count")
        if same(o, pos, n) is not True:
            if not o.facts.decide(eq(pos, n)) and o.facts.entails_le(sub(n, pos)) and o.facts.assume(eq(pos, add(n, ONE))) is not None:
                return False, "text that ends inside a character is counted"
            return None, "end"
    elif val is not C(-1):
        return (False if is_c(val) else None), "returns %s" % show(val)
    ns = L.ivs[pos][1]
    if len(ns) != len(L.bodies):
        return None, "steps"
    seen = set()
    for k, (f, b) in enumerate(L.bodies):
        d = sub(ns[k], pos)
        if not is_c(d):
            return None, "step"
        d = d.a[0]
        bs = byte_sets(f, b, r.this, pos)
        if bs is None or 0 not in bs:
            return None, "bytes"
        if d not in LEADS:
            return False, "a character of %d bytes" % d
        if bs[0] - LEADS[d]:
            return False, "a first byte of %s is taken for a character of %d bytes" % (hexs(bs[0] - LEADS[d]), d)
        for j in range(1, d):
            t = bs.get(j, ALL)
            if t - CONT:
                return False, "byte %d of a character of %d bytes may be %s" % (j + 1, d, hexs(t - CONT))
            if CONT - t:
                return False, "byte %d of a character of %d bytes may not be %s" % (j + 1, d, hexs(CONT - t))
        seen |= bs[0]
    miss = set().union(*LEADS.values()) - seen
    if miss:
        return False, "no character starts with %s" % hexs(miss)
    return True, ""


def hexs(s):
    s = sorted(s)
    return ", ".join("0x%02X" % v for v in s[:3]) + (" and %d more" % (len(s) - 3) if len(s) > 3 else "")


def run(R):
    R.rule("case", "changing case writes every character once, in place or in a result of the same length, and maps exactly the letters a-z / A-Z")
    R.rule("strip", "what is cut is space (as isspace has it) and only at the two ends; what is left starts and ends with something else; its size is never below zero")
    R.rule("elements", "for other arrays the function is applied to every element and its counterpart; the methods of var apply the functor of the same name in place")
    R.rule("getline", "every character up to the end of the line is kept in order, the line is cut to what was read, the var is nil only at the end of the stream")
    R.rule("split", "pieces are the texts between separators, none is lost, the limit is kept, an empty separator is refused")
    R.rule("join", "every element is added at the end once, in order, with a separator between two of them")
    R.rule("len", "the number of characters is that of UTF-8: 1 to 4 bytes by the first, the others 10xxxxxx; text which is not UTF-8 gives -1")
    P = R.program(UNIT)
    Q = R.program(PROBE)
    U = R.program("lube/utf8.cpp")

    def t(f, *a):
        return lambda R: f(R, *a)
    R.parallel([t(case, P), t(strip, P), t(others, P, Q), t(getline, P), t(split, P), t(join, P), t(chars_of, U)])
    return MIN_DECIDED
