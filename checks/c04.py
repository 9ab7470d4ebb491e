"""C04: broadcasting applies an operation to the sub-arrays the shapes define"""
from fcheck import *
from loops import *

MIN_DECIDED = 10


def m(n, c, *a):
    return mk("m:" + n, c, *(list(a) + [ZERO]))


def dim(c):
    return m("dim", c)


def size(c):
    return m("size", c)


def protocol_loops(o):
    """[(Counted or None, facts of the body, method event)], other effects"""
    calls, other = [], []

    def rec(evs, outer, facts):
        for e in evs:
            if isinstance(e, Loop):
                eff = [x for x in walk([e]) if x.kind in ("method", "store", "blas", "functor", "call") or (
                    x.kind == "var" and not x.name.startswith("elem."))]
                if not eff:
                    continue
                q = closed(e, facts)
                for f, b in e.bodies:
                    rec(b, outer + [q], f)
            elif e.kind == "JOIN":
                for f, b in e.x:
                    rec(b, outer, f)
            elif e.kind == "method":
                calls.append((outer, e))
            elif e.kind in ("store", "blas", "functor", "call") or (e.kind == "var" and not e.name.startswith("elem.")):
                other.append(e)
    rec(o.events(), [], o.facts)
    return calls, other


CLEAR = re.compile(r"^(c|aff|mul|k|v0|elem|m:(dim|size|shape|stride|subview|atype)|kappa|sdiv|T|arg|iarg|ld|ver|nil|num)$")


def clr(t):
    return all(CLEAR.match(x.op) for x in subterms(t))


def prep(t):
    return neg_shape(t)


def same(a, b, facts):
    a, b = prep(a), prep(b)
    if a is b:
        return True
    if a.op == "elem" and b.op == "elem" or a.op == b.op == "m:subview":
        rs = [same(x, y, facts) for x, y in zip(a.a, b.a)]
        return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    d = facts.decide(eq(a, b))
    if d is not None:
        return d
    if a.op == "v0" and b.op == "v0" and (a.a[0].op == "arg") and (b.a[0].op == "arg"):
        return False
    if clr(a) and clr(b):
        return False
    return None


def one_loop(o, meth, args, n, vanish=()):
    """the run calls meth(args(kappa)) for every kappa in 0..n-1, nothing else"""
    calls, other = protocol_loops(o)
    if other:
        return None, "other effects: %s" % [str(x)[:100] for x in other[:2]]
    if not calls:
        # nothing to do for an empty array
        for v in vanish:
            if o.facts.decide(eq(prep(v), ZERO)) is True or o.facts.decide(eq(v, ZERO)) is True or o.facts.entails_le(prep(v)) or \
                    o.facts.entails_le(v):
                return True, "empty"
        if n is not None and o.facts.entails_le(prep(n)):
            return True, "empty"
        return False, "the operation is not applied"
    if len(calls) != 1:
        return None, "%d call sites" % len(calls)
    loops, e = calls[0]
    if e.name.split("::")[-1] != meth:
        return None, "calls %s" % e.name
    if not loops:
        k = ZERO
        cnt = ONE
    elif len(loops) == 1 and loops[0] is not None:
        k = loops[0].k
        cnt = loops[0].n
    else:
        return None, "loop at %s is not a counted loop" % e.where()
    got = [loops[0].at(x) for x in e.args[1:]] if loops else [prep(x) for x in e.args[1:]]
    want = [x(k) if callable(x) else x for x in args]
    if len(got) != len(want):
        return None, "%s: arguments" % e.where()
    for g, w in zip(got, want):
        r = same(g, w, o.facts)
        if r is not True:
            return r, "%s: iteration k operates on %s, expected %s" % (e.where(), show(g), show(prep(w)))
    r = same(cnt, n, o.facts)
    if r is not True:
        return r, "%s: %s operations, expected %s" % (e.where(), show(cnt), show(prep(n)))
    return True, "%s(%s) for k < %s" % (e.name, ", ".join(show(x)[:40] for x in got), show(cnt))


def vd(R, key, r, f, rule, throws=None):
    """every return satisfies f; throwing paths satisfy `throws` (None: none allowed)"""
    outs = [o for o in r.outs if o.kind in ("ret", "unw")]
    rets = [o for o in outs if o.kind == "ret"]
    if not rets:
        return R.ob(key, False if outs else None, "always throws" if outs else "no outcome", r.dem, rule)
    res = [f(o) for o in rets]
    for o in outs:
        if o.kind == "unw":
            res.append(throws(o) if throws else (None, "may throw"))
    for v, t in res:
        if v is False:
            return R.ob(key, False, t, r.dem, rule)
    for v, t in res:
        if v is None:
            return R.ob(key, None, t, r.dem, rule)
    return R.ob(key, True, res[-1][1] if rets else "", r.dem, rule)


def shapes_checked(c0, c1, pairs):
    """matcher: on return every pair of extents has been found equal"""
    def f(o):
        for x, y in pairs:
            if o.facts.decide(eq(x, y)) is True:
                continue
            x2, y2 = prep(x), prep(y)
            ok = False
            for q in o.facts.eqs:
                if prep(mk("eq0", q)) is eq(x2, y2):
                    ok = True
            if not ok:
                rd = [e for e in walk(o.events()) if e.kind == "read" and e.name in ("shape", "operator==", "operator!=")]
                return (False if not rd else None), "the extents are not compared"
        return True, "extents equal"
    return f


def conform_loop(c0, c1):
    """matcher: on return all the extents of c1 were compared with the trailing
    ones of c0"""
    def f(o):
        seen = False
        for L in all_loops(o.events()):
            q = closed(L, o.facts)
            rd = [e for e in walk([L]) if e.kind == "read" and e.name == "shape"]
            if not rd:
                continue
            seen = True
            if q is None or len(L.bodies) < 1:
                return None, "loop at %s" % L.where()
            x = add(add(dim(c0), q.k), sub(ZERO, dim(c1)))
            forms = [eq(m("shape", c0, sub(dim(c0), add(q.k, ONE))), m("shape", c1, sub(dim(c1), add(q.k, ONE)))),
                     eq(m("shape", c0, x), m("shape", c1, q.k))]
            got = []
            for bf, ev in L.bodies:
                g = None
                for b in bf.all():
                    if b.op == "eq0" and any(z.op == "m:shape" for z in subterms(b)):
                        t = q.at(b)
                        if t in forms:
                            g = True
                        elif g is None and clr(t.a[0]):
                            g = t
                got.append(g)
            if any(g is None for g in got):
                return None, "comparison at %s" % L.where()
            bad = [g for g in got if g is not True]
            if bad:
                d0 = o.facts.decide(eq(dim(c0), dim(c1)))
                return None, "%s: compares %s" % (L.where(), show(bad[0]))
            r = same(q.n, dim(c1), o.facts)
            return r, "%s: %s extents compared, expected %s" % (L.where(), show(q.n), show(dim(c1)))
        rd = [e for e in walk(o.events()) if e.kind == "read" and e.name in ("shape", "operator==", "operator!=")]
        if not seen and not rd:
            return False, "the extents are not compared"
        return None, "no comparison loop"
    return f


def both(*fs):
    def f(o):
        last = (True, "")
        for g in fs:
            v, t = g(o)
            if v is not True:
                return v, t
            last = (v, t)
        return last
    return f


def arithmetic(R, P):
    fn = method_of(P, "libube::ArithmeticFunctor::broadcast", 3)

    def go(setup, cls=None):
        return Run(R, P, cls, None, 0, fn=fn, setup=lambda q: setup(*q.c) + distinct(q, 0, 1, 2))
    key = "arithmetic.single"
    with R.guard(key, "broadcast"):
        r = go(lambda a, b, o: [eq(dim(b), ONE), eq(size(b), ONE)])
        a, b, o_ = r.c
        vd(R, key, r, lambda o: one_loop(o, "scalar", [lambda k: mk("elem", a, k), b, lambda k: mk("elem", o_, k)], size(a)), "broadcast")
    base = lambda a, b, o: [NOT(eq(size(b), ONE)), le(ONE, dim(b)), eq(m("atype", a), m("atype", b)), eq(dim(a), dim(o))]

    def mismatch(o):
        # a rejection must be due to a difference of extents
        for t in o.facts.all():
            if t.op == "not" and t.a[0].op == "eq0" and any(z.op == "m:shape" for z in subterms(t)):
                return True, "throws on different extents"
            if t.op in ("not", "bool") and any(z.op.startswith("m:") and ("==" in z.op or "cmp" in z.op) for z in subterms(t)):
                return None, "throws"
        return False, "throws although the shapes match"
    key = "arithmetic.inner"
    with R.guard(key, "broadcast"):
        r = go(lambda a, b, o: base(a, b, o) + [lt(dim(b), dim(a))])
        a, b, o_ = r.c
        s1 = m("stride", a, sub(sub(dim(a), dim(b)), ONE))
        so = m("stride", o_, sub(sub(dim(o_), dim(b)), ONE))
        vd(R, key, r, lambda o: one_loop(o, "vector", [a, lambda k: mul(s1, k), b, ZERO, o_, lambda k: mul(so, k)],
                                         mk("sdiv", size(a), s1), [s1, size(a)]), "broadcast", mismatch)
        vd(R, key + ".shapes", r, conform_loop(a, b), "shapes", lambda o: (True, ""))
    key = "arithmetic.same"
    with R.guard(key, "broadcast"):
        r = go(lambda a, b, o: base(a, b, o) + [eq(dim(b), dim(a))])
        a, b, o_ = r.c

        def f(o):
            # one operation over everything: offsets at iteration 0
            return one_loop(o, "vector", [a, lambda k: mul(size(a), k), b, ZERO, o_, lambda k: mul(size(o_), k)],
                            ONE, [size(a)])

        def g(o):
            v, t = f(o)
            if v is True:
                return v, t
            v2, t2 = one_loop(o, "vector", [a, ZERO, b, ZERO, o_, ZERO], ONE, [size(a)])
            return (v2, t2) if v2 is True else (v, t)
        vd(R, key, r, g, "broadcast", mismatch)
        vd(R, key + ".shapes", r, conform_loop(a, b), "shapes", lambda o: (True, ""))
    for nm, cond in (("larger", lambda a, b, o: [NOT(eq(size(b), ONE)), lt(dim(a), dim(b)), le(ONE, dim(a))]),
                     ("type", lambda a, b, o: [NOT(eq(size(b), ONE)), le(dim(b), dim(a)), le(ONE, dim(b)),
                                               NOT(eq(m("atype", a), m("atype", b)))])):
        key = "arithmetic.reject." + nm
        with R.guard(key, "reject"):
            r = go(cond)
            rejected(R, key, r)
    # products contract the last dimension with the first
    key = "dot.shapes"
    with R.guard(key, "shapes"):
        r = go(lambda a, b, o: base(a, b, o) + [le(dim(b), dim(a))], "N6libube3DotE")
        a, b, o_ = r.c
        vd(R, key, r, shapes_checked(a, b, [(m("shape", a, sub(dim(a), ONE)), m("shape", b, ZERO))]), "shapes", mismatch)
    # multiplication hands everything but scaling to the common broadcaster
    key = "mul.broadcast"
    with R.guard(key, "broadcast"):
        for nm, cond in (("size", lambda q: [NOT(eq(size(q.c[1]), ONE))]), ("dim", lambda q: [eq(size(q.c[1]), ONE), NOT(eq(dim(q.c[1]), ONE))])):
            r = Run(R, P, "N6libube3MulE", "broadcast", 3, lambda q: cond(q) + distinct(q, 0, 1, 2))
            verdict_all(R, key + "." + nm, r, lambda o: delegates(r, o, "broadcast", r.c), "broadcast")


def rejected(R, key, r):
    for o in r.outs:
        if o.kind == "ret":
            calls, other = protocol_loops(o)
            if other:
                return R.ob(key, None, "other effects", r.dem, "reject")
            return R.ob(key, False, "not rejected" + (": " + str(calls[0][1])[:160] if calls else ""), r.dem, "reject")
    for o in r.outs:
        if o.kind == "unw":
            calls, other = protocol_loops(o)
            if calls:
                return R.ob(key, None, "operates before rejecting", r.dem, "reject")
    R.ob(key, True if r.outs else None, "rejected", r.dem, "reject")


def D(this):
    return mk("ld", this, C(8), 4, ZERO)


def unary(R, P):
    fn = method_of(P, "libube::UnaryFunctor::broadcast", 2)

    def go(setup):
        return Run(R, P, None, None, 0, fn=fn, setup=lambda q: setup(D(q.args[0]), *q.c) + distinct(q, 0, 1))
    key = "unary.elementwise"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, o: [eq(d, ZERO)])
        a, o_ = r.c
        vd(R, key, r, lambda o: one_loop(o, "scalar", [lambda k: mk("elem", a, k), lambda k: mk("elem", o_, k)], size(a)), "broadcast")
    key = "unary.inner"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, o: [le(ONE, d), lt(d, dim(a)), eq(dim(a), dim(o))])
        a, o_ = r.c
        d = D(r.args[0])
        s1 = m("stride", a, sub(sub(dim(a), d), ONE))
        so = m("stride", o_, sub(sub(dim(o_), d), ONE))
        vd(R, key, r, lambda o: one_loop(o, "vector", [a, lambda k: mul(s1, k), o_, lambda k: mul(so, k)],
                                         mk("sdiv", size(a), s1), [s1, size(a)]), "broadcast")
    key = "unary.whole"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, o: [le(ONE, d), eq(d, dim(a)), eq(dim(a), dim(o))])
        a, o_ = r.c

        def g(o):
            v, t = one_loop(o, "vector", [a, lambda k: mul(size(a), k), o_, lambda k: mul(size(o_), k)], ONE, [size(a)])
            if v is True:
                return v, t
            v2, t2 = one_loop(o, "vector", [a, ZERO, o_, ZERO], ONE, [size(a)])
            return (v2, t2) if v2 is True else (v, t)
        vd(R, key, r, g, "broadcast")
    key = "unary.reject"
    with R.guard(key, "reject"):
        rejected(R, key, go(lambda d, a, o: [le(ONE, d), lt(dim(a), d)]))
    # the default vector form passes sub-views of the operation's dimensions
    key = "unary.subviews"
    with R.guard(key, "broadcast"):
        fv = method_of(P, "libube::UnaryFunctor::vector", 4)
        r = Run(R, P, None, None, 0, fn=fv, setup=lambda q: [eq(dim(q.c[0]), dim(q.c[2]))] + distinct(q, 0, 2))
        d = D(r.args[0])
        a, i, o_, j = r.c
        vd(R, key, r, lambda o: one_call(o, "vector", [mk("m:subview", a, d, i, ZERO), mk("m:subview", o_, d, j, ZERO)]), "broadcast")


def one_call(o, meth, args):
    calls, other = protocol_loops(o)
    other = [x for x in other if not (x.kind == "var" and x.name == "assign")]
    if not calls and not other:
        return False, "the operation is not applied"
    if other or len(calls) != 1 or calls[0][0]:
        return None, "effects"
    e = calls[0][1]
    if e.name.split("::")[-1] != meth or len(e.args) != len(args) + 1:
        return None, "calls %s" % e.name
    for g, w in zip(e.args[1:], args):
        g = dropver(g)
        w = dropver(w)
        r = same(g, w, o.facts)
        if r is not True:
            return r, "%s: operates on %s, expected %s" % (e.where(), show(g), show(w))
    return True, str(e)[:200]


def dropver(t):
    if t.op == "m:subview":
        return mk("m:subview", *t.a[:3])
    return t


def binary(R, P):
    fn = method_of(P, "libube::BinaryFunctor::broadcast", 3)

    def go(setup):
        return Run(R, P, None, None, 0, fn=fn, setup=lambda q: setup(D(q.args[0]), *q.c) + distinct(q, 0, 1, 2))
    base = lambda d, a, b, o: [eq(m("atype", a), m("atype", b)), eq(dim(a), dim(b)), eq(dim(a), dim(o)), le(ONE, d)]
    thr = lambda o: ((True, "throws on different extents") if any(
        t.op == "not" and t.a[0].op == "eq0" and any(z.op == "m:shape" for z in subterms(t)) for t in o.facts.all()) else (None, "throws"))
    key = "binary.inner"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, b, o: base(d, a, b, o) + [lt(d, dim(a))])
        a, b, o_ = r.c
        d = D(r.args[0])
        st = [m("stride", x, sub(sub(dim(a), d), ONE)) for x in (a, b, o_)]
        vd(R, key, r, lambda o: one_loop(o, "vector", [a, lambda k: mul(st[0], k), b, lambda k: mul(st[1], k), o_, lambda k: mul(st[2], k)],
                                         mk("sdiv", size(a), st[0]), [st[0], size(a)]), "broadcast", thr)
    key = "binary.whole"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, b, o: base(d, a, b, o) + [eq(d, dim(a))])
        a, b, o_ = r.c
        vd(R, key, r, lambda o: one_loop(o, "vector", [a, ZERO, b, ZERO, o_, ZERO], ONE, [size(a)]), "broadcast", thr)
    for nm, cond in (("small", lambda d, a, b, o: [lt(dim(a), d), le(ONE, d)]),
                     ("type", lambda d, a, b, o: [NOT(eq(m("atype", a), m("atype", b)))]),
                     ("dim", lambda d, a, b, o: [NOT(eq(dim(a), dim(b)))])):
        key = "binary.reject." + nm
        with R.guard(key, "reject"):
            rejected(R, key, go(cond))

    # the default vector form passes sub-views of the operation's dimensions, or the element where nothing is left
    fv = None
    with R.guard("binary.subviews", "broadcast"):
        fv = method_of(P, "libube::BinaryFunctor::vector", 6)
    if fv is None:
        return
    for nm, extra in (("subviews", lambda d, a, b, o: [eq(dim(a), dim(o))]), ("elements", lambda d, a, b, o: [eq(dim(o), sub(dim(a), d))])):
        key = "binary." + nm
        with R.guard(key, "broadcast"):
            r = Run(R, P, None, None, 0, fn=fv, setup=lambda q: [le(ONE, D(q.args[0])), eq(dim(q.c[0]), dim(q.c[2]))] +
                    extra(D(q.args[0]), q.c[0], q.c[2], q.c[4]) + distinct(q, 0, 2, 4))
            d = D(r.args[0])
            a, i, b, j, o_, k = r.c
            w = mk("m:subview", o_, d, k, ZERO) if nm == "subviews" else mk("elem", o_, k)
            vd(R, key, r, lambda o: one_call(o, "vector", [mk("m:subview", a, d, i, ZERO), mk("m:subview", b, d, j, ZERO), w]), "broadcast")


# the ways of calling a functor
CALLS = (("Unary", 1), ("Binary", 2), ("Nary", 1))


def applied(R, P):
    for cls, n in CALLS:
        q = "libube::%sFunctor::" % cls
        for nm, na in [("new", n), ("given", n + 1)] + ([("none", 0)] if cls == "Nary" else []):
            key = "%s.call.%s" % (cls.lower(), nm)
            with R.guard(key, "apply"):
                f = method_of(P, q + "operator()", na)
                r = Run(R, P, None, None, 0, fn=f, setup=lambda z: distinct(z, *range(na)))
                vd(R, key, r, lambda o: call_of(r, o, list(r.c[:n]) or [mk("nil")] * n, nm), "apply")
        key = "%s.scalar" % cls.lower()
        with R.guard(key, "apply"):
            f = method_of(P, q + "scalar", n + 1)
            r = Run(R, P, None, None, 0, fn=f, setup=lambda z: distinct(z, *range(n + 1)))
            vd(R, key, r, lambda o: one_call(o, "broadcast", list(r.c)) if list(walk(o.events())) else (False, "nothing is done"), "apply")


def call_of(r, o, args, nm):
    """alloc(args), scalar(args, that); or scalar(args, out)"""
    evs = [e for e in walk(o.events()) if e.kind in ("method", "call", "store", "blas", "functor") or e.kind == "var" and not e.name.startswith("elem.")]
    ms = [e for e in evs if e.kind == "method"]
    names = [e.name.split("::")[-1] for e in ms]
    if len(ms) != len(evs) or set(names) - {"alloc", "scalar"} or names.count("scalar") > 1 or names.count("alloc") > 1:
        return None, "effects %s" % [str(e)[:80] for e in evs[:3]]
    if "scalar" not in names:
        return False, "the operation is not applied"
    sc = list(ms[names.index("scalar")].args)
    ret = r.pol.content(r.E, o.st, r.sret) if r.sret is not None else None
    if nm == "given":
        want = r.c[-1]
    else:
        if "alloc" not in names:
            return None, "no result is allocated"
        al = list(ms[names.index("alloc")].args)
        if al[1:] != args:
            return (False if all(clr(x) for x in al[1:]) else None), "the result is allocated for %s" % [show(x) for x in al[1:]]
        want = mk("m:alloc", *al)
    if sc[1:] != args + [want]:
        return (False if all(clr(x) or x.op == "m:alloc" for x in sc[1:]) else None), "operates on %s" % [show(x) for x in sc[1:]]
    if ret is None:
        return None, "result"
    if ret is not want:
        return (False if clr(ret) or ret.op == "m:alloc" else None), "returns %s" % show(ret)
    return True, "scalar(%s)" % ", ".join(show(x) for x in sc[1:])


def nary(R, P):
    fn = method_of(P, "libube::NaryFunctor::broadcast", 2)

    def go(setup):
        return Run(R, P, None, None, 0, fn=fn, setup=lambda q: setup(D(q.args[0]), *q.c) + distinct(q, 0, 1))
    key = "nary.inner"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, o: [le(ONE, d), lt(d, dim(o))])
        vd(R, key, r, lambda o: nary_match(r, o, True), "broadcast", lambda o: nary_throw(r, o))
    key = "nary.whole"
    with R.guard(key, "broadcast"):
        r = go(lambda d, a, o: [le(ONE, d), eq(d, dim(o))])
        vd(R, key, r, lambda o: nary_match(r, o, False), "broadcast", lambda o: nary_throw(r, o))
    key = "nary.types"
    with R.guard(key, "shapes"):
        r = go(lambda d, a, o: [le(ONE, d), lt(d, dim(o))])
        vd(R, key, r, nary_types(r.c[0]), "shapes", lambda o: (True, ""))
    key = "nary.reject"
    with R.guard(key, "reject"):
        rejected(R, key, go(lambda d, a, o: [lt(dim(o), d)]))


def nary_throw(r, o):
    for t in o.facts.all():
        if any(z.op == "m:atype" for z in subterms(t)):
            return True, "throws on different types"
    return False, "throws"


def nary_types(a):
    """matcher: on return the types of all operands are equal"""
    ty = lambda i: m("atype", mk("elem", a, i))

    def f(o):
        for L in all_loops(o.events()):
            rd = [e for e in walk([L]) if e.kind == "read" and e.name == "atype"]
            if not rd:
                continue
            q = closed(L, o.facts)
            if q is None:
                return None, "loop at %s" % L.where()
            for bf, ev in L.bodies:
                g = None
                for b in bf.all():
                    if b.op == "eq0" and any(z.op == "m:atype" for z in subterms(b)):
                        t = q.at(b)
                        if t is eq(ty(ZERO), ty(add(q.k, ONE))) and same(q.n, sub(size(a), ONE), o.facts) is True:
                            g = True
                        elif t is eq(ty(ZERO), ty(q.k)) and same(q.n, size(a), o.facts) is True:
                            g = True
                        elif t is eq(ty(q.k), ty(add(q.k, ONE))) and same(q.n, sub(size(a), ONE), o.facts) is True:
                            g = True
                        elif clr(t.a[0]) and clr(q.n):
                            g = "%s: compares %s for k < %s" % (L.where(), show(t), show(q.n))
                if g is True:
                    return True, "types compared"
                return (False, g) if g else (None, "comparison")
            return None, "comparison"
        if not [e for e in walk(o.events()) if e.kind == "read" and e.name == "atype"]:
            return False, "the types are not compared"
        return None, "no comparison loop"
    return f


def nary_match(r, o, inner):
    a, o_ = r.c
    d = D(r.args[0])
    cd = sub(dim(o_), d)
    so = m("stride", o_, sub(cd, ONE))
    calls = []

    def rec(evs, loops, facts):
        for e in evs:
            if isinstance(e, Loop):
                eff = [x for x in walk([e]) if x.kind in ("method", "call", "store") or (x.kind == "var" and not x.name.startswith("elem."))]
                if not eff:
                    continue
                q = closed(e, facts)
                for f, b in e.bodies:
                    rec(b, loops + [q], f)
            elif e.kind == "method" or (e.kind == "var" and e.name in ("push",)):
                calls.append((list(loops), e))
            elif e.kind in ("call", "store", "JOIN"):
                calls.append((list(loops), None))
    rec(o.events(), [], o.facts)
    if any(c[1] is None for c in calls):
        return None, "other effects"
    ms = [c for c in calls if c[1].kind == "method"]
    ps = [c for c in calls if c[1].kind == "var"]
    if not ms:
        if o.facts.decide(eq(prep(so), ZERO)) is True or o.facts.entails_le(so) or o.facts.decide(eq(so, ZERO)) is True:
            return True, "empty"
        if not inner and not any(o.facts.entails_le(size(x)) for x in (a, o_)):
            return False, "operands that have just the dimensions of the operation are not operated on"
        return None, "no operation"
    if any(None in c[0] for c in calls):
        return None, "loop"
    for loops, e in ms:
        if e.name.split("::")[-1] != "vector" or len(e.args) != 3:
            return None, "calls %s" % e.name
        if len(loops) > 1:
            return None, "nested"
        n = loops[0].n if loops else ONE
        k = loops[0].k if loops else ZERO
        want = mk("sdiv", size(o_), so) if inner else ONE
        v = same(n, want, o.facts)
        if v is not True:
            return v, "%s: %s operations, expected %s" % (e.where(), show(n), show(want))
        g = dropver(loops[0].at(e.args[2])) if loops else dropver(e.args[2])
        w = [mk("m:subview", o_, d, mul(so, k) if inner else ZERO)]
        if g.op == "elem":
            return None, "single values"
        v = same(g, w[0], o.facts)
        if v is not True:
            return v, "%s: result %s, expected %s" % (e.where(), show(g), show(w[0]))
    for loops, e in ps:
        g = e.args[1]
        q = loops[-1]
        for l in loops:
            g = l.at(g)
        g = dropver(g)
        if g.op != "m:subview":
            continue
        x = g.a[0]
        el_ = mk("elem", a, q.k)
        if x is not el_:
            return (False if clr(x) else None), "%s: input %s, expected %s" % (e.where(), show(x), show(el_))
        v = same(q.n, size(a), o.facts)
        if v is not True:
            return v, "%s: %s inputs, expected %s" % (e.where(), show(q.n), show(size(a)))
        k = loops[0].k if len(loops) > 1 else ZERO
        w = mk("m:subview", el_, sub(dim(el_), cd), mul(m("stride", el_, sub(cd, ONE)), k) if inner else ZERO)
        v = same(g, w, o.facts)
        if v is not True:
            return v, "%s: input %s, expected %s" % (e.where(), show(g), show(w))
    return True, "sub-views of every operand"


DIMS = {"Sin": 0, "Cos": 0, "Tan": 0, "ATan": 0, "Floor": 0, "Sqrt": 0, "Log": 0, "Exp": 0, "Real": 0, "Imag": 0, "Abs": 0, "Arg": 0,
        "Norm": 0, "Swap": 1, "ASum": 1, "Sum": 1, "IAMax": 1, "Roots": 1, "Poly": 1, "Sort": 1, "Concatenate": 1, "Transpose": 2}


def dims(R, P):
    for cls, d in DIMS.items():
        key = "dimension." + cls
        with R.guard(key, "dimension"):
            c = [f for n, f in P.defs.items() if short(P.dem(n)) == "libube::%s::%s" % (cls, cls) and not sig_args(P.dem(n))]
            if not c:
                raise AnalysisError("no constructor of %s" % cls)
            r = Run(R, P, None, None, 0, fn=c[0])
            vs = set()
            for o in r.rets():
                vs.add(r.E._load(o.st, r.args[0], C(8), 4))
            if len(vs) == 1:
                v = vs.pop()
                R.ob(key, v.a[0] == d if is_c(v) else None, "operates on %s dimensions, expected %d" % (show(v), d), r.dem, "dimension")
            else:
                R.ob(key, None, "", r.dem, "dimension")


def run(R):
    R.rule("broadcast", "the operation is applied once per sub-array: iteration k works at offset k times the stride of the innermost "
                        "broadcast dimension of each operand, for size/stride iterations")
    R.rule("shapes", "before operating, the trailing extents of the left operand are compared with all extents of the right one")
    R.rule("reject", "operands whose dimensions or types cannot be broadcast raise an exception before anything is computed")
    R.rule("dimension", "each operation is declared with the number of dimensions it works on")
    R.rule("apply", "a functor called with operands works on what it allocates for them and returns that; called with a result too, it works on that one; without more it broadcasts")
    P = R.program(*UNITS)
    arithmetic(R, P)
    unary(R, P)
    binary(R, P)
    applied(R, P)
    nary(R, P)
    dims(R, P)
