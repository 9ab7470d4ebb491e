"""C06: reductions, products, transposition, sorting, concatenation, polynomials"""
from fcheck import *
from loops import *
from c04 import m, dim, size, clr, same, prep

MIN_DECIDED = 30


def cls(n):
    return "N6libube%d%sE" % (len(n), n)


def last(c):
    return m("shape", c, C(-1))


def isarr(q, ty, *idx):
    return [f for i in idx for f in q.kind(i, ty, "array")]


# ------------------------------------------------------------- single results

def one(run, o, dst, ty, at, wants):
    """exactly one element, dst[at], is written"""
    try:
        e = effect(run, o, known_types(run, o))
    except Contradiction as x:
        return False, str(x)
    except Unmodelled as x:
        return None, str(x)
    if e.vec or e.others or e.calls:
        return None, "other effects: %s" % [str(z)[:80] for z in list(e.vec) + e.others + e.calls][:3]
    if not e.one:
        return False, "nothing is written to the result"
    for c, t, a, v, z, x in e.one:
        if c is not dst:
            return False, "%s: writes to %s, which is not the result" % (x.where(), show(c))
    c, t, a, v, z, x = e.one[-1]
    if a is not at:
        return (False if clearf(a) else None), "%s: writes element %s, expected %s" % (x.where(), show(a), show(at))
    if t != ty:
        return False, "%s: writes a value of type %s, not %s" % (x.where(), t, ty)
    v = prep(v)
    for w in wants:
        if callable(w):
            r = w(v)
            if r is not None:
                return r[0], "%s: %s" % (x.where(), r[1])
        elif v is prep(canon(w)):
            return True, "%s[%s] := %s" % (show(dst), show(at), show(v))
    # the same reduction with other operands is wrong; another way of
    # computing it is not judged
    ops = {y.op for w in wants if not callable(w) for y in subterms(w) if y.op.startswith("blas:")}
    if ops and any(y.op in ops for y in subterms(v)) and clearf(v):
        return False, "%s: writes %s, expected %s" % (x.where(), show(v), show(prep(canon(wants[0]))))
    if clearf(v) and not any(y.op.startswith("blas:") or y.op in ("iv", "ivm") for y in subterms(v)):
        return False, "%s: writes %s" % (x.where(), show(v))
    if ops and {y.op for y in subterms(v) if y.op.startswith("blas:")} and clearf(v):
        return False, "%s: writes %s" % (x.where(), show(v))
    return None, "%s: writes %s" % (x.where(), show(v))


def total(o, p, ty, n):
    """matcher of a value: the sum of the n elements at p"""
    def f(v):
        halves = [v] if v.op in ("iv", "ivm") else list(v.a) if v.op in ("agg", "cplx") else [v.a[3], v.a[6]] if v.op == "cat" and len(v.a) == 7 else None
        if not halves or not all(h.op in ("iv", "ivm") for h in halves):
            return None
        z = SIZEOF[ty]
        for i, h in enumerate(halves):
            L = next((L for L in all_loops(o.events()) if h in L.ivs), None)
            if L is None:
                return None
            q = closed(L, o.facts)
            if q is None:
                return None
            i0, ns = L.ivs[h]
            if len(ns) != 1:
                return None
            if not isone(i0, 0.0) and i0 is not ZERO:
                return (False, "the sum starts at %s" % show(i0)) if i0.op in ("f", "c") else None
            nx = list(ns)[0]
            if nx.op != "fadd":
                return (False, "combines with %s" % nx.op) if nx.op in ("fsub", "fmul", "fdiv") else None
            rest = [a for a in nx.a if a is not h]
            if len(rest) != 1 or rest[0].op != "ld":
                return None
            ad = q.at(add(rest[0].a[0], rest[0].a[1]))
            want = add(p, add(scale(q.k, z), C(i * z // 2 if len(halves) == 2 else 0)))
            if ad is not want:
                rev = add(p, add(scale(sub(add(q.n, C(-1)), q.k), z), C(i * z // 2 if len(halves) == 2 else 0)))
                if ad is not rev:
                    return (False, "adds the element at %s" % show(ad)) if clearf(ad) and not has_iv(ad) else None
            c = same(q.n, n, o.facts)
            if c is not True:
                return (c, "%s elements are added, expected %s" % (show(q.n), show(n))) if c is False else None
        return True, "sum of %s elements at %s" % (show(n), show(p))
    return f


def reductions(R, P):
    for n, tys in (("ASum", ("float", "double")), ("Sum", ("float", "double", "cfloat", "cdouble")),
                   ("IAMax", ("float", "double", "cfloat", "cdouble"))):
        for ty in tys:
            key = "%s.vector.%s" % (n, ty)
            with R.guard(key, "reduce"):
                r = Run(R, P, cls(n), "vector", 4, lambda q: isarr(q, ty, 0) + q.kind(2, "long" if n == "IAMax" else ty, "array") +
                        distinct(q, 0, 2))
                p = ptr(r.c[0], ty, r.c[1])
                n0 = last(r.c[0])
                rt = "long" if n == "IAMax" else ty

                def f(o):
                    if n == "Sum":
                        w = [total(o, p, ty, n0)]
                    else:
                        w = [mk("blas:" + n.lower(), mk("T", ty), n0, p, ONE)]
                        if n == "IAMax":
                            w = [add(w[0], C(-1))]
                    return one(r, o, r.c[2], rt, r.c[3], w)
                verdict_all(R, key, r, f, "reduce")
        for ty in ("float", "double", "cfloat", "cdouble"):
            if n == "IAMax":
                continue
            key = "%s.scalar.%s" % (n, ty)
            with R.guard(key, "reduce"):
                r = Run(R, P, cls(n), "scalar", 2, lambda q: q.kind(0, ty, "scalar") + distinct(q, 0, 1))
                x = el(r.c[0], ty)
                rt = {"cfloat": "float", "cdouble": "double"}.get(ty, ty) if n == "ASum" else ty
                w = [x] if n == "Sum" else [mk("fn:abs", x), mk("m:fabs", x), mk("fn:fabs", x)]
                verdict_all(R, key, r, lambda o: match_one(r, o, r.c[1], rt, w), "reduce")
        key = "%s.dispatch" % n
        with R.guard(key, "dispatch"):
            r = Run(R, P, cls(n), "scalar", 2, lambda q: q.kind(0, "float", "array") + distinct(q, 0, 1))
            verdict_all(R, key, r, lambda o: delegates(r, o, "broadcast", r.c), "dispatch")


# ------------------------------------------------------------- products

def products(R, P):
    for ty in ("float", "double", "cfloat", "cdouble"):
        key = "Dot.inner.%s" % ty
        with R.guard(key, "product"):
            r = Run(R, P, cls("Dot"), "vector", 6, lambda q: isarr(q, ty, 0, 2, 4) + distinct(q, 0, 2, 4) + [eq(dim(q.c[2]), ONE)])
            b = "blas:dot" if ty[0] != "c" else "blas:dotc"
            p1, p2 = ptr(r.c[0], ty, r.c[1]), ptr(r.c[2], ty, r.c[3])
            w = [mk(b, mk("T", ty), k, x, ONE, y, ONE) for k in (size(r.c[2]), m("shape", r.c[2], ZERO), last(r.c[2]), last(r.c[0]))
                 for x, y in (((p1, p2), (p2, p1)) if ty[0] != "c" else ((p1, p2),))]
            verdict_all(R, key, r, lambda o: one(r, o, r.c[4], ty, r.c[5], w), "product")
    for ty in ("float", "double"):
        key = "Dot.matrix.%s" % ty
        with R.guard(key, "product"):
            r = Run(R, P, cls("Dot"), "vector", 6, lambda q: isarr(q, ty, 0, 2, 4) + distinct(q, 0, 2, 4) +
                    [eq(dim(q.c[2]), C(2)), eq(m("shape", q.c[0], C(-1)), m("shape", q.c[2], ZERO)),
                     eq(m("shape", q.c[0], sub(dim(q.c[0]), ONE)), m("shape", q.c[2], ZERO))])
            verdict_all(R, key, r, lambda o: gemm(r, o, ty), "product")
    key = "Dot.matrix.mismatch"
    with R.guard(key, "reject"):
        r = Run(R, P, cls("Dot"), "vector", 6, lambda q: isarr(q, "float", 0, 2, 4) + distinct(q, 0, 2, 4) +
                [eq(dim(q.c[2]), C(2)), NOT(eq(m("shape", q.c[0], C(-1)), m("shape", q.c[2], ZERO)))])
        und_reject(R, key, r)
    key = "Dot.toomany"
    with R.guard(key, "reject"):
        r = Run(R, P, cls("Dot"), "vector", 6, lambda q: isarr(q, "float", 0, 2, 4) + distinct(q, 0, 2, 4) + [le(C(3), dim(q.c[2]))])
        und_reject(R, key, r)
    for n, meth, na, al in (("Dot", "vector", 6, {4: 0, 5: 1}), ("IAMax", "vector", 4, {2: 0, 3: 1})):
        for ty in ("float", "double"):
            key = "%s.inplace.%s" % (n, ty)
            with R.guard(key, "reject"):
                r = Run(R, P, cls(n), meth, na, lambda q: isarr(q, ty, 0) + (isarr(q, ty, 2) + [eq(dim(q.c[2]), ONE)] if na == 6 else []) +
                        distinct(q, *((0, 2, 4) if na == 6 else (0, 2))), alias=al)
                und_reject(R, key, r)


def und_reject(R, key, r):
    bad = [o for o in r.outs if o.kind == "ret"]
    if bad and any(x.kind == "call" for x in walk(bad[0].events())):
        return R.ob(key, None, "calls", r.dem, "reject")
    rejects(R, key, r, "reject")


def gemm(r, o, ty):
    """row major C = A B by the column major routine"""
    ev = [x for x in walk(o.events()) if x.kind in ("blas", "store", "call", "mkl")]
    if len(ev) != 1 or ev[0].kind != "blas" or ev[0].name != "gemm:" + ty:
        if not ev:
            return False, "nothing is computed"
        return None, "effects %s" % [str(x)[:80] for x in ev[:3]]
    x = ev[0]
    ta, tb, M, N, K, al, A, lda, B, ldb, be, Cc, ldc = [prep(y) for y in x.args]
    a, b, c = r.c[0], r.c[2], r.c[4]
    pa, pb, pc = ptr(a, ty, r.c[1]), ptr(b, ty, r.c[3]), ptr(c, ty, r.c[5])
    rows, cols, inner = m("shape", a, C(-2)), m("shape", b, ONE), last(a)
    rows, cols, inner = prep(rows), prep(cols), prep(inner)
    ROLE = {k: {prep(m("shape", x, i)) for x, i in v} | {m("shape", x, i) for x, i in v} for k, v in {
        "rows": [(a, C(-2)), (a, sub(dim(a), C(2))), (c, C(-2)), (c, sub(dim(c), C(2)))],
        "cols": [(b, ONE), (b, C(-1)), (b, sub(dim(b), ONE)), (c, C(-1)), (c, sub(dim(c), ONE))],
        "inner": [(a, C(-1)), (a, sub(dim(a), ONE)), (b, ZERO), (b, C(-2)), (b, sub(dim(b), C(2)))]}.items()}
    W = [("transposition of the first factor", ta, mk("ch", "N")), ("transposition of the second factor", tb, mk("ch", "N")),
         ("rows of the column major result", M, cols), ("columns of the column major result", N, rows), ("inner extent", K, inner),
         ("alpha", al, F1), ("first factor", A, pb), ("leading dimension of the first factor", lda, cols), ("second factor", B, pa),
         ("leading dimension of the second factor", ldb, inner), ("beta", be, F0), ("result", Cc, pc),
         ("leading dimension of the result", ldc, cols)]
    for what, g, w in W:
        if g is w:
            continue
        if g.op == "ch" and w.op == "ch" and g.a[0].upper() == w.a[0]:
            continue
        d = o.facts.decide(eq(g, w)) if g.op not in ("ch", "f", "m:ptr") else False
        if d is True:
            continue
        role = lambda t: next((k for k, ts in ROLE.items() if t in ts), None)
        if g.op == "m:shape" and role(g) and role(g) == role(w):
            continue
        fixed = g.op == "m:shape" and is_c(g.a[1]) and g.a[1].a[0] >= 0 and g.a[0] in (a, c) and o.facts.decide(eq(dim(g.a[0]), C(2))) is None
        if d is False or g.op in ("ch", "f", "m:ptr") or is_c(g) or clr(g) and (g.op != "m:shape" or role(g) or fixed):
            return False, "%s: %s is %s, expected %s" % (x.where(), what, show(g), show(w))
        return None, "%s: %s is %s" % (x.where(), what, show(g))
    return True, str(x)[:300]


# ------------------------------------------------------------- moving elements

def moves(R, P):
    for ty in ("float", "double", "cfloat", "cdouble"):
        key = "Swap.vector.%s" % ty
        with R.guard(key, "move"):
            r = Run(R, P, cls("Swap"), "vector", 6, lambda q: isarr(q, ty, 0, 2) + distinct(q, 0, 2), alias={4: 0, 5: 1})
            p1, p2 = ptr(r.c[0], ty, r.c[1]), ptr(r.c[2], ty, r.c[3])
            verdict_all(R, key, r, lambda o: match_vec(r, o, {p1: (ty, mk("ev", p2)), p2: (ty, mk("ev", p1))},
                                                       [last(r.c[0]), last(r.c[2])]), "move")
        key = "Concatenate.vector.%s" % ty
        with R.guard(key, "move"):
            r = Run(R, P, cls("Concatenate"), "vector", 2, lambda q: isarr(q, ty, 1) + distinct(q, 0, 1))
            verdict_all(R, key, r, lambda o: concatenated(r, o, ty), "move")
    for ty in ("char", "int", "long", "float", "double"):
        key = "Sort.vector.%s" % ty
        with R.guard(key, "move"):
            r = Run(R, P, cls("Sort"), "vector", 2, lambda q: isarr(q, ty, 0) + distinct(q, 0, 1), alias={1: 0})
            verdict_all(R, key, r, lambda o: sorted_(r, o, ty), "move")
    for ty in ("cfloat", "cdouble"):
        key = "Sort.vector.%s" % ty
        with R.guard(key, "reject"):
            r = Run(R, P, cls("Sort"), "vector", 2, lambda q: isarr(q, ty, 0) + distinct(q, 0, 1), alias={1: 0})
            und_reject(R, key, r)
    for ty in ("float", "double"):
        for place in ("out", "in"):
            key = "Transpose.vector.%s.%s" % (ty, place)
            with R.guard(key, "move"):
                r = Run(R, P, cls("Transpose"), "vector", 4, lambda q: isarr(q, ty, 0, 2) + distinct(q, 0, 2) + [le(C(2), dim(q.c[0]))],
                        alias={2: 0, 3: 1} if place == "in" else None)
                verdict_all(R, key, r, lambda o: transposed(r, o, ty, place), "move")


def concatenated(r, o, ty):
    evs = [x for x in walk(o.events()) if x.kind in ("store", "blas", "call", "method", "functor") or (
        x.kind == "var" and not x.name.startswith("elem."))]
    if len(evs) != 1 or evs[0].name != "copy:" + ty:
        if not evs and o.facts.entails_le(size(r.c[0])):
            return True, "empty"
        if not evs:
            return None, "no effect"
        if any(x.name == "copy:" + ty for x in evs) and all(x.name.startswith("copy:") for x in evs):
            bad = [x for x in evs if x.name != "copy:" + ty]
            if bad:
                return False, "%s: elements of type %s are copied again as %s" % (bad[0].where(), ty, bad[0].name[5:])
        return None, "effects %s" % [str(x)[:80] for x in evs[:3]]
    L = [L for L in top_loops(o.events()) if any(x is evs[0] for x in walk([L]))]
    if len(L) != 1:
        return None, "not a loop"
    q = closed(L[0], o.facts)
    if q is None:
        return None, "loop"
    v, out = r.c
    n, src, ix, dst, iy = evs[0].args
    if ix is not ONE or iy is not ONE:
        return False, "increments"
    e = mk("elem", v, q.k)
    ln = m("shape", e, C(-1))
    got = [q.at(n), q.at(src)]
    for g, w, what in ((got[0], prep(ln), "count"), (got[1], ptr(e, ty, ZERO), "source")):
        if g is not w:
            if g is m("size", e) and o.facts.decide(eq(m("dim", e), ONE)) is True:
                continue
            return (False if clr(g) or g.op == "m:ptr" and clr(g.a[2]) else None), "%s: %s of part k is %s, expected %s" % (
                evs[0].where(), what, show(g), show(w))
    # the destination advances by the length of each part
    if dst.op != "m:ptr" or dst.a[0] is not out:
        return (False if dst.op == "m:ptr" else None), "%s: destination %s" % (evs[0].where(), show(dst))
    s = dst.a[2]
    if s not in L[0].ivs:
        return (False if clr(q.at(s)) and not has_iv(q.at(s)) else None), "%s: part k is written at %s" % (evs[0].where(), show(q.at(s)))
    i0, ns = L[0].ivs[s]
    if i0 is not ZERO:
        return (False if is_c(i0) else None), "the first part is written at %s" % show(i0)
    d = {q.at(sub(x, s)) for x in ns}
    if d != {prep(ln)}:
        # a position that does not depend on the one before is not a sum
        alone = all(s not in subterms(x) for x in ns) and all(clr_k(q.at(x), q.k) for x in ns)
        return (False if alone or all(clr(x) for x in d) else None), "%s: the position advances by %s" % (evs[0].where(), [show(x) for x in d])
    c = same(q.n, size(v), o.facts)
    return c, "%s parts copied, expected %s" % (show(q.n), show(size(v)))


def clr_k(t, k):
    return all(x is k or x.op == "mul" or x in set(subterms(k)) or OKOPS.match(x.op) for x in subterms(t))


def sorted_(r, o, ty):
    ev = [x for x in walk(o.events()) if x.kind in ("store", "blas", "call", "stdsort")]
    if len(ev) > 1 and all(x.kind == "stdsort" and x.args[0].op == "m:ptr" for x in ev):
        bad = [x for x in ev if x.args[0].a[1] is not ptr(r.c[0], ty, ZERO).a[1]]
        if bad:
            return False, "%s: elements of type %s are sorted as %s" % (bad[0].where(), ty, show(bad[0].args[0]))
    if len(ev) != 1 or ev[0].kind != "stdsort":
        return (False, "nothing is sorted") if not ev else (None, "effects %s" % [str(x)[:80] for x in ev[:3]])
    x = ev[0]
    p = ptr(r.c[0], ty, ZERO)
    if x.args[0] is not p:
        b, off = split_ptr(x.args[0])
        return (False if b is not None else None), "%s: sorts from %s" % (x.where(), show(x.args[0]))
    n = sub(x.args[1], p)
    w = prep(scale(last(r.c[0]), SIZEOF[ty]))
    if prep(n) is not w and prep(n) is not scale(size(r.c[0]), SIZEOF[ty]):
        return (False if clr(n) else None), "%s: sorts %s bytes, expected %s" % (x.where(), show(n), show(w))
    if len(x.args) > 2:
        return None, "custom order"
    return True, str(x)[:200]


def transposed(r, o, ty, place):
    ev = [x for x in walk(o.events()) if x.kind in ("store", "blas", "call", "mkl")]
    if len(ev) != 1 or ev[0].kind != "mkl":
        return (False, "nothing is transposed") if not ev else (None, "effects %s" % [str(x)[:80] for x in ev[:3]])
    x = ev[0]
    f, t = x.name.split(":")
    if t != ty:
        return False, "%s: transposes elements as %s" % (x.where(), t)
    a = r.c[0]
    rows, cols = prep(m("shape", a, C(-2))), prep(m("shape", a, C(-1)))
    g = [prep(y) for y in x.args]
    if f == "imatcopy" and place == "in":
        W = [None, None, rows, cols, F1, ptr(a, ty, r.c[1]), cols, rows]
    elif f == "omatcopy" and place == "out":
        W = [None, None, rows, cols, F1, ptr(a, ty, r.c[1]), cols, ptr(r.c[2], ty, r.c[3]), rows]
    else:
        return False, "%s: %s used %s place" % (x.where(), f, place)
    for what, y, s in (("order", g[0], "rR"), ("operation", g[1], "tT")):
        if not is_c(y):
            return None, what
        if chr(y.a[0]) not in s:
            return False, "%s: %s is %s" % (x.where(), what, chr(y.a[0]))
    for y, w in zip(g[2:], W[2:]):
        if y is not w:
            return (False if clr(y) or y.op in ("f", "m:ptr") else None), "%s: %s, expected %s" % (x.where(), show(y), show(w))
    return True, str(x)[:200]


class HeapSlots(FunctorPolicy):
    """extents and strides of an array as memory cells"""
    names = ()

    def vcall(self, E, st, ins, cls, slot, args):
        if cls == "N6libube5IHeapE" and slot < len(self.names) and self.names[slot] in ("shape", "stride", "dim", "size"):
            n = self.names[slot]
            if n in ("shape", "stride"):
                p = mk("hcell", mk("k", n), *args)
                p.ptr = True
                return self.ret(E, st, p)
            return self.ret(E, st, mk("h:" + n, *args))
        return FunctorPolicy.vcall(self, E, st, ins, cls, slot, args)


def transpose_apply(R):
    P = R.program("lube/math.cpp", "lube/func.cpp", "lube/transpose-mkl.cpp", "lube/heap.cpp", "lube/view.cpp")
    sl = P.vtables().get("N6libube4ViewE") or []
    HeapSlots.names = [short(P.dem(n)).split("::")[-1] if n else "" for n in sl]
    key = "Transpose.scalar.out"
    with R.guard(key, "dispatch"):
        r = Run(R, P, cls("Transpose"), "scalar", 2, lambda q: isarr(q, "float", 0) + distinct(q, 0, 1), policy=HeapSlots)
        verdict_all(R, key, r, lambda o: delegates(r, o, "broadcast", r.c), "dispatch")
    key = "Transpose.scalar.in"
    with R.guard(key, "move"):
        r = Run(R, P, cls("Transpose"), "scalar", 2, lambda q: isarr(q, "float", 0) + distinct(q, 0, 1), alias={1: 0}, policy=HeapSlots)
        verdict_all(R, key, r, lambda o: inplace_shape(r, o), "move")


def inplace_shape(r, o):
    v, t = delegates(r, o, "broadcast", r.c)
    if v is not True:
        return v, t
    h = mk("m:heap", r.c[0])
    final = {}
    for b, cells in o.st.mem.items():
        if b.op == "hcell":
            for off, (z, val) in cells.items():
                if off is not ZERO or b.a[1] is not h:
                    return None, "writes to %s" % show(b)
                final[(b.a[0].a[0], sub(b.a[2], dim(r.c[0])))] = val
    cell = lambda n, k: mk("ld", hp(n, add(dim(r.c[0]), C(k)), h), ZERO, 4, ZERO)
    want = {("shape", C(-1)): cell("shape", -2), ("shape", C(-2)): cell("shape", -1),
            ("stride", C(-2)): mul(cell("shape", -2), cell("stride", -1))}
    if not final:
        return False, "the extents are not exchanged"
    for k in set(final) | set(want):
        g, w = final.get(k), want.get(k)
        if g is w:
            continue
        if g is None:
            return False, "%s %s is not updated" % (k[0], show(k[1]))
        if w is None:
            w = cell(k[0], k[1].a[0]) if is_c(k[1]) else None
            if g is w:
                continue
        ok = all(x.op in ("ld", "hcell", "c", "aff", "mul", "k", "m:heap", "m:dim", "v0", "arg") for x in subterms(g))
        return (False if ok else None), "%s %s becomes %s" % (k[0], show(k[1]), show(g))
    return True, "extents exchanged, stride adjusted"


def hp(n, i, h):
    p = mk("hcell", mk("k", n), h, i)
    p.ptr = True
    return p


# ------------------------------------------------------------- allocation

class Shape:
    """a shape vector as the sequence of its updates leaves it"""

    def __init__(self, o, S, of):
        self.S, self.of = S, of
        self.val = {}
        self.ok = True
        bind = {}
        for e in o.events():
            if isinstance(e, Loop):
                if any(y.kind == "var" and not y.name.startswith("elem.") and y.args and self.mine(y.args[0]) for y in walk([e])):
                    self.ok = False
                continue
            if e.kind == "read" and e.args and self.mine(e.args[0]) and e.args[0].op == "elem" and e.name in ("dereference", "get", "cast", "copy"):
                bind[e.res] = self.get(self.idx(e.args[0]))
            if e.kind == "var" and e.args and self.mine(e.args[0]) and not e.name.startswith("elem."):
                if e.args[0].op != "elem":
                    self.ok = False
                    continue
                i = self.idx(e.args[0])
                x = e.args[1] if len(e.args) > 1 else None
                if e.name == "assign_elem":
                    v = self.value(x, bind)
                elif e.name in ("operator+=", "operator-="):
                    v = self.value(x, bind)
                    if v is not None:
                        v = add(self.get(i), v) if e.name == "operator+=" else sub(self.get(i), v)
                else:
                    v = None
                if v is None:
                    self.ok = False
                else:
                    self.val[i] = v

    def mine(self, c):
        while c.op == "elem":
            c = c.a[0]
        return c is self.S

    def idx(self, e):
        # positions relative to the end
        i = subst(e.a[1], {m("size", self.S): dim(self.of)})
        return sub(i, dim(self.of)) if not is_c(sub(i, ZERO)) else i

    def get(self, i):
        return self.val.get(i, mk("sh", i))

    def value(self, x, bind):
        if x is None:
            return None
        if x.op == "num":
            return prep(bind.get(x.a[1], x.a[1]))
        if x.op == "elem" and self.mine(x):
            return self.get(self.idx(x))
        if x in bind:
            return bind[x]
        return None


def new_view(r, o, base, upd, ty=None, like=None, dims=None):
    """the result is a new view with the shape of `base` changed at `upd`"""
    v = o.st.aux.get(("v", r.sret))
    if v is None:
        return None, "no result"
    if v.op == "nil":
        return False, "nothing is allocated"
    if v.op == "num" and v.a[0] in SIZEOF or v is r.c[0]:
        return False, "allocates %s" % show(v)
    if v.op != "m:free.view":
        return None, show(v)
    S, iv = v.a[0], v.a[1]
    if S is not m("shape", base):
        return None, "shape of %s" % show(S)
    if ty is not None:
        if iv.op == "num" and iv.a[0] in SIZEOF:
            if iv.a[0] != ty:
                return False, "allocates elements of type %s, not %s" % (iv.a[0], ty)
        else:
            return None, "type of %s" % show(iv)
    elif like is not None:
        if iv is not mk("elem", like, ZERO):
            return (False if iv.op == "num" and iv.a[0] in SIZEOF else None), "element type from %s" % show(iv)
    sh = Shape(o, S, base)
    if not sh.ok:
        return None, "shape"
    keys = set(sh.val) | set(upd)
    for i in keys:
        g, w = sh.get(i), upd.get(i, mk("sh", i))
        g, w = [subst(t, dims or {}) for t in (g, w)]
        if g is not w:
            known = all(y.op in ("sh", "c", "aff", "m:shape", "m:dim", "v0", "arg", "elem", "k") for y in subterms(g)) and is_c(i)
            return (False if known else None), "extent %s becomes %s, expected %s" % (show(i), show(g), show(w))
    return True, "shape of %s, %s; %s" % (show(base), {show(i): show(x) for i, x in upd.items()}, show(iv))


REALT = {"float": "float", "double": "double", "cfloat": "float", "cdouble": "double"}
CPLXT = {"float": "cfloat", "double": "cdouble", "cfloat": "cfloat", "cdouble": "cdouble"}


def allocation(R, P):
    sh = lambda i: mk("sh", C(i))
    for ty in ("float", "double", "cfloat", "cdouble"):
        for n, upd, t in (("Roots", {C(-1): add(sh(-1), C(-1))}, CPLXT[ty]), ("Poly", {C(-1): add(sh(-1), ONE)}, ty)):
            key = "%s.alloc.%s" % (n, ty)
            with R.guard(key, "alloc"):
                r = Run(R, P, cls(n), "alloc", 1, lambda q: isarr(q, ty, 0))
                verdict_all(R, key, r, lambda o: new_view(r, o, r.c[0], upd, t), "alloc")
        for n in ("ASum", "Sum", "IAMax"):
            t = {"ASum": REALT[ty], "IAMax": "long"}.get(n)
            key = "%s.alloc.array.%s" % (n, ty)
            with R.guard(key, "alloc"):
                r = Run(R, P, cls(n), "alloc", 1, lambda q: isarr(q, ty, 0) + [le(C(2), dim(q.c[0]))])
                verdict_all(R, key, r, lambda o: new_view(r, o, r.c[0], {C(-1): ONE}, t, r.c[0] if t is None else None), "alloc")
            key = "%s.alloc.vector.%s" % (n, ty)
            with R.guard(key, "alloc"):
                r = Run(R, P, cls(n), "alloc", 1, lambda q: isarr(q, ty, 0) + [eq(dim(q.c[0]), ONE)])
                verdict_all(R, key, r, lambda o: single(r, o, t), "alloc")
    key = "Transpose.alloc"
    with R.guard(key, "alloc"):
        r = Run(R, P, cls("Transpose"), "alloc", 1, lambda q: isarr(q, "float", 0) + [le(C(2), dim(q.c[0])), le(C(2), m("size", m("shape", q.c[0])))])
        verdict_all(R, key, r, lambda o: new_view(r, o, r.c[0], {C(-1): sh(-2), C(-2): sh(-1)}, None, r.c[0]), "alloc")
    key = "Concatenate.alloc"
    with R.guard(key, "alloc"):
        r = Run(R, P, cls("Concatenate"), "alloc", 1, lambda q: [])
        verdict_all(R, key, r, lambda o: concat_alloc(r, o), "alloc", True)
        verdict_all(R, "Concatenate.conform", r, lambda o: concat_fit(r, o), "conform", True)
    for rows in ("square", "line"):
        key = "Dot.alloc." + rows
        with R.guard(key, "alloc"):
            r = Run(R, P, cls("Dot"), "alloc", 2, lambda q: isarr(q, "float", 0, 1) + distinct(q, 0, 1) +
                    [eq(dim(q.c[1]), C(2) if rows == "square" else ONE), le(C(2), dim(q.c[0]))])
            upd = {C(-1): prep(m("shape", r.c[1], C(-1)))} if rows == "square" else {C(-1): ONE}
            verdict_all(R, key, r, lambda o: new_view(r, o, r.c[0], upd, None, r.c[0], {dim(r.c[1]): C(2)} if rows == "square" else None), "alloc")


def single(r, o, t):
    v = o.st.aux.get(("v", r.sret))
    if v is None:
        return None, "no result"
    if t is None and v.op == "elem" and v.a[0] is r.c[0] and is_c(v.a[1]) and v.a[1] is not ZERO:
        k = v.a[1]
        if not o.facts.entails_le(add(sub(k, size(r.c[0])), ONE)):
            return False, "the result is made from element %s, which need not exist" % show(k)
    if t is None:
        return (True if v is mk("elem", r.c[0], ZERO) else False if v.op in ("nil",) else None), show(v)
    if v.op == "num":
        return v.a[0] == t, show(v)
    return (False if v.op == "nil" else None), show(v)


def concat_alloc(r, o):
    v = o.st.aux.get(("v", r.sret))
    e0 = mk("elem", r.c[0], ZERO)
    if v is None or v.op != "m:free.view" or v.a[0] is not m("shape", e0):
        return None, show(v) if v is not None else "no result"
    sh = Shape(o, v.a[0], e0)
    if not sh.ok or len(sh.val) != 1:
        return None, "shape"
    i, g = list(sh.val.items())[0]
    if i is not C(-1):
        return (False if is_c(i) else None), "extent %s is changed" % show(i)
    L = next((L for L in top_loops(o.events()) if g in L.ivs), None)
    if L is None:
        return (False if clr(g) else None), "last extent is %s" % show(g)
    q = closed(L, o.facts)
    if q is None:
        return None, "loop"
    i0, ns = L.ivs[g]
    ds = {q.at(sub(x, g)) for x in ns}
    if len(ds) != 1:
        return None, "loop"
    d = ds.pop()
    # either all of the parts, or the first one and the rest
    ok = [(ZERO, q.k, size(r.c[0])), (prep(last(e0)), add(q.k, ONE), sub(size(r.c[0]), ONE))]
    for a, ix, n in ok:
        if prep(i0) is a and d is prep(last(mk("elem", r.c[0], ix))) and same(q.n, n, o.facts) is True:
            return True, "last extent is the sum of the last extents"
    if clr(prep(i0)) and clr(d) and clr(q.n):
        return False, "%s: last extent is %s plus %s for k < %s" % (L.where(), show(i0), show(d), show(q.n))
    return None, "sum"


def concat_fit(r, o):
    """parts whose dimensions differ in number or, but for the last, in extent do not get through"""
    e0 = mk("elem", r.c[0], ZERO)
    seen = []
    for L in top_loops(o.events()):
        parts = {x for f, b in L.bodies for e in walk(b) for a in list(e.args) for x in ([a] if not hasattr(a, "op") else subterms(a))
                 if getattr(x, "op", "") == "elem" and x.a[0] is r.c[0] and any(y in L.ivs for y in subterms(x.a[1]))}
        if not parts:
            continue
        if len(parts) != 1:
            seen.append((None, "several parts at a time"))
            continue
        p = parts.pop()
        q = closed(L, o.facts)
        if q is None:
            seen.append((None, "loop"))
            continue
        ix, n = q.at(p.a[1]), size(r.c[0])
        if not ((ix is q.k and same(q.n, n, o.facts) is True) or (ix is add(q.k, ONE) and same(q.n, sub(n, ONE), o.facts) is True)):
            seen.append((None, "parts %s for k < %s" % (show(ix), show(q.n))))
            continue
        for f, b in L.bodies:
            odd = [e for e in walk(b) if e.kind in ("call", "JOIN")]
            d0, dk = dim(e0), dim(p)
            if f.decide(eq(d0, dk)) is True or f.decide(eq(m("dim", e0), m("dim", p))) is True:
                seen.append((True, "same number of dimensions"))
            else:
                known = any(dk in subterms(x) or m("dim", p) in subterms(x) for x in f.all())
                seen.append((None if known or odd else False, "%s: parts with another number of dimensions are joined" % L.where()))
            inner = [x for x in b if isinstance(x, Loop)]
            if not inner and any(f.decide(le(x, ONE)) is True for x in (d0, dk, m("dim", e0), m("dim", p))):
                seen.append((True, "a single extent"))
                continue
            if len(inner) != 1:
                seen.append((None if inner or odd else False, "%s: the extents of the parts are not compared" % L.where()))
                continue
            c = closed(inner[0], f)
            if c is None:
                seen.append((None, "inner loop"))
                continue
            for g, ib in inner[0].bodies:
                tests = [(x, y) for x in {z for t in g.all() for z in subterms(t)} for y in {z for t in g.all() for z in subterms(t)}
                         if x.op == y.op == "m:shape" and x.a[0] is e0 and y.a[0] is p and x.a[1] is y.a[1]]
                ok = [x for x, y in tests if g.decide(eq(x, y)) is True]
                if not ok:
                    # what was found may also be remembered, to be acted upon later
                    kept = [y for _, nx in inner[0].ivs.values() for y in nx if isinstance(y, T)]
                    touched = any(z.op == "m:shape" and z.a[0] is p for t in list(g.all()) + kept for z in subterms(t))
                    seen.append((None if touched or odd or [e for e in walk(ib) if e.kind in ("call", "JOIN")] else False,
                                 "%s: the extents of the parts are not compared" % L.where()))
                    continue
                d = c.at(ok[0].a[1])
                want = [sub(d0, ONE), sub(m("dim", e0), ONE)]
                if d is c.k or d is sub(sub(c.n, ONE), c.k):
                    full = any(c.n is w or same(c.n, w, f) is True for w in want)
                    less = any(f.entails_le(add(sub(c.n, w), ONE)) for w in want)
                    seen.append((True if full else False if less and not odd else None, "%s: %s extents are compared" % (L.where(), show(c.n))))
                else:
                    seen.append((False if clr(d) and any(f.entails_le(add(sub(c.n, w), ONE)) or c.n is w for w in want) and f.decide(eq(d, c.k)) is False else None,
                                 "%s: extent %s is compared" % (L.where(), show(d))))
    if not seen:
        return None, "no loop over the parts"
    return min(seen, key=lambda v: {False: 0, None: 1, True: 2}[v[0]])


# ------------------------------------------------------------- polynomials

def polynomials(R, P):
    for ty in ("float", "double", "cfloat", "cdouble"):
        key = "Poly.vector.%s" % ty
        with R.guard(key, "poly"):
            r = Run(R, P, cls("Poly"), "vector", 2, lambda q: isarr(q, ty, 0, 1) + distinct(q, 0, 1))
            verdict_all(R, key, r, lambda o: poly(r, o, ty), "poly")
    for ty in ("float", "double"):
        key = "Roots.vector.%s" % ty
        with R.guard(key, "poly"):
            r = Run(R, P, cls("Roots"), "vector", 2, lambda q: isarr(q, ty, 0) + isarr(q, CPLXT[ty], 1) + distinct(q, 0, 1))
            roots(R, key, r, ty)


def halves(v, ty):
    """real part of a stored value: the store of the first half"""
    return v


def poly(r, o, ty):
    """out = 1; then for each root multiply by (x - root), in place"""
    z = SIZEOF[ty]
    h = z // 2 if ty[0] == "c" else 0
    src, out = ptr(r.c[0], ty, ZERO), ptr(r.c[1], ty, ZERO)
    evs = o.events()
    top = [e for e in evs if not isinstance(e, Loop) and e.kind in ("store", "blas", "call")]
    loops = [L for L in top_loops(evs) if any(e.kind == "store" for e in walk([L]))]
    if any(e.kind != "store" for e in top):
        return None, "calls"
    first = {sub(e.args[0], out): e.args[2] for e in top}
    if not top:
        return False, "the leading coefficient is not set"
    v0 = first.get(ZERO)
    if v0 is None or v0.op not in ("f", "agg"):
        return None, "leading coefficient"
    if not isone(v0 if v0.op == "f" else v0.a[0]):
        return False, "the leading coefficient is %s" % show(v0)
    n = last(r.c[0])
    if not loops:
        return (True, "no roots") if o.facts.entails_le(prep(n)) or o.facts.entails_le(n) else (None, "no loop")
    if len(loops) != 1 or len(loops[0].bodies) != 1:
        return None, "loops"
    L = loops[0]
    q = closed(L, o.facts)
    if q is None:
        return None, "loop"
    c = same(q.n, n, o.facts)
    if c is not True:
        return c, "%s: %s roots are used, expected %s" % (L.where(), show(q.n), show(n))
    bf, be = L.bodies[0]
    st = [e for e in be if not isinstance(e, Loop) and e.kind == "store"]
    inner = [e for e in be if isinstance(e, Loop)]
    if len(inner) != 1 or len(inner[0].bodies) != 1:
        return None, "inner loop"
    for e in st:
        a = q.at(sub(e.args[0], out))
        if a not in (add(scale(q.k, z), C(z)), add(scale(q.k, z), C(z + h))):
            return (False if clr(a) else None), "%s: clears %s" % (e.where(), show(a))
        if not (isone(e.args[2], 0.0) or e.args[2] is ZERO):
            return (False if e.args[2].op == "f" else None), "%s: the new coefficient starts at %s" % (e.where(), show(e.args[2]))
    if not st:
        return None, "no clearing"
    I = inner[0]
    qi = closed(I, bf)
    if qi is None:
        return None, "inner loop"
    both = lambda t: q.at(qi.at(t))
    n2 = q.at(qi.n)
    if n2 is not add(q.k, ONE):
        return (False if clr(n2) else None), "%s: %s coefficients are updated for root k, expected k+1" % (I.where(), show(n2))
    ist = [e for e in I.bodies[0][1] if e.kind == "store"]
    if [e for e in I.bodies[0][1] if isinstance(e, Loop)]:
        return None, "nested"
    tmp = {}
    for t, (i0, ns) in I.ivs.items():
        if len(ns) == 1 and list(ns)[0].op == "ld" and i0.op == "ld":
            a0, a1 = sub(add(i0.a[0], i0.a[1]), out), both(add(list(ns)[0].a[0], list(ns)[0].a[1]))
            for w in (0, h):
                if a0 is C(w) and a1 is add(out, add(scale(qi.k, z), C(z + w))):
                    tmp[t] = w
    if not tmp:
        return None, "no running coefficient"
    # a complex coefficient kept in halves
    pair = {mk("cplx", a, b) for a, x in tmp.items() for b, y in tmp.items() if x == 0 and y == h and h} | \
        {t for t, x in tmp.items() if x == 0}
    root = mk("ld0", q.at(add(src, scale(q.k, z))))
    for e in ist:
        a = both(e.args[0])
        k = sub(a, add(out, add(scale(qi.k, z), C(z))))
        if k not in (ZERO, C(h)):
            return (False if clr(k) else None), "%s: updates %s" % (e.where(), show(a))
        v = e.args[2]
        # sign and operands of old - tmp*root
        sgn = None
        if v.op in ("fadd", "fsub"):
            sgn = 1 if v.op == "fadd" else -1
        else:
            return None, "%s: %s" % (e.where(), show(v))
        lds = [x for x in subterms(v) if x.op == "ld"]
        mu = [x for x in subterms(v) if x.op == "fmul"]
        if len(mu) != 1:
            return None, "%s: product" % e.where()
        fs = []
        for y in mu[0].a:
            if y.op == "fneg":
                sgn, y = -sgn, y.a[0]
            fs.append(y)
        if any(x.op == "fneg" and x.a[0] is mu[0] for x in subterms(v)):
            sgn = -sgn
        if not any(y in pair for y in fs):
            return None, "%s: %s" % (e.where(), show(v))
        other = [y for y in fs if y not in pair]
        if len(other) != 1 or other[0].op != "ld":
            return None, "%s: %s" % (e.where(), show(v))
        ra = both(add(other[0].a[0], other[0].a[1]))
        if ra is not add(src, scale(q.k, z)):
            return (False if clr(sub(ra, src)) else None), "%s: uses root %s for root k" % (e.where(), show(ra))
        if v.op == "fsub" and v.a[0] is mu[0]:
            return False, "%s: %s" % (e.where(), show(v))
        if sgn != -1:
            return False, "%s: multiplies by x + root" % e.where()
    return True, "%s: o[j+1] -= root[k]*o[j] for j <= k, for each root" % I.where()


def roots(R, key, r, ty):
    """eigenvalues of the companion matrix; failure to find them throws"""
    rule = "poly"
    rets = [o for o in r.outs if o.kind == "ret"]
    full = [o for o in rets if any(L.bodies for L in top_loops(o.events())) and not o.facts.entails_le(size(r.c[1]))]
    if not rets:
        return R.ob(key, None, "no outcome", r.dem, rule)
    pfx = "s" if ty == "float" else "d"
    for o in rets:
        g = [x for x in walk(o.events()) if x.kind == "call" and "geev" in x.name]
        if len(g) != 1:
            return R.ob(key, None if not g else None, "eigenvalue routine", r.dem, rule)
        x = g[0]
        if not x.name.startswith(pfx):
            return R.ob(key, False, "%s: %s called for %s" % (x.where(), x.name, ty), r.dem, rule)
    # info must be zero on return
    for o in rets:
        x = [y for y in walk(o.events()) if y.kind == "call" and "geev" in y.name][0]
        okay = any(b.op == "eq0" and is_info(b.a[0], x) for b in o.facts.all())
        seen = any(is_info(b, x) for b in o.facts.all()) or any(e.kind == "JOIN" for e in walk(o.events()))
        R.ob(key + ".info", True if okay else None if seen or not x.args or x.args[-1].op != "alloca" else False,
             "failure of the routine is %san error" % ("" if okay else "not "), r.dem, rule)
        break
    seen = {"a": None}
    for o in rets:
        v, t = companion(r, o, ty)
        if v is not True:
            return R.ob(key, v, t, r.dem, rule)
    return R.ob(key, True, t, r.dem, rule)


def is_info(t, x):
    """is this what the routine left in its last argument?"""
    return bool(x.args) and x.args[-1] in subterms(t)


def companion(r, o, ty):
    n = size(r.c[1])
    iv, out = r.c
    x = [y for y in walk(o.events()) if y.kind == "call" and "geev" in y.name][0]
    A = [a for a in x.args if a.op == "m:ptr"]
    if len(A) != 3:
        return None, "arguments"
    mat, re_, im_ = [a.a[0] for a in A]
    sets = []
    outs = []
    bad = None

    def rec(evs, sub_, facts):
        nonlocal bad
        for e in evs:
            if isinstance(e, Loop):
                eff = [y for y in walk([e]) if y.kind == "var" and not y.name.startswith("elem.")]
                if not eff:
                    continue
                q = closed(e, facts)
                if q is None:
                    bad = "loop at %s" % e.where()
                    return
                for f, b in e.bodies:
                    rec(b, sub_ + [q], f)
            elif e.kind == "var" and e.name == "assign_elem":
                at = lambda t: ap(sub_, t)
                c = e.args[0]
                if c.op == "elem" and c.a[0] is mat and c.a[1].op == "idx":
                    sets.append((sub_, at(c.a[1].a[0]), at(c.a[1].a[1]), at(e.args[1]), facts, e))
                elif c.op == "elem" and c.a[0] is out:
                    outs.append((sub_, at(c.a[1]), at(e.args[1]), e))
                else:
                    bad = "assignment at %s" % e.where()
    rec(o.events(), [], o.facts)
    if bad:
        return None, bad
    got = set()
    for qs, i, j, v, f, e in sets:
        ks = [q.k for q in qs]
        ns = [q.n for q in qs]
        if len(qs) == 1 and i is ZERO:
            k = ks[0]
            if j is not k or ns[0] is not n:
                return None, "%s: first row" % e.where()
            want = None
            num, den = mk("elem", iv, add(k, ONE)), mk("elem", iv, ZERO)
            tdiv = mk("m:operator/", num, den, ZERO)
            s = show(v)
            if v.op == "m:operator*" and v.a[0] is tdiv and v.a[1].op == "num":
                if not (v.a[1].a[1] is C(-1) or isone(v.a[1].a[1], -1.0)):
                    return (False if is_c(v.a[1].a[1]) or v.a[1].a[1].op == "f" else None), "%s: first row is %s" % (e.where(), s)
                got.add("first")
            elif v.op == "m:operator-" and v.a[0] is tdiv and len(v.a) == 2:
                got.add("first")
            elif v is tdiv:
                return False, "%s: first row is %s" % (e.where(), s)
            elif v.op == "m:operator*" and v.a[0].op == "m:operator/" and all(y.op in ("m:operator/", "elem", "aff", "kappa", "c", "v0", "arg", "k", "sh") for y in subterms(v.a[0])):
                return False, "%s: first row is %s" % (e.where(), s)
            else:
                return None, "%s: first row is %s" % (e.where(), s)
    if "first" not in got:
        return None, "first row"
    # all positions below the first row
    rest = [s for s in sets if s[1] is not ZERO]
    for qs, i, j, v, f, e in rest:
        if v.op != "num" or v.a[1].op not in ("f", "c"):
            return None, "%s: %s" % (e.where(), show(v))
        val = float(v.a[1].a[0])
        d = sub(i, add(j, ONE))
        # on the sub-diagonal 1, elsewhere 0
        on = f.decide(eq(subst(d, {}), ZERO))
        fd = diag(qs, i, j, f)
        if fd is None:
            return None, "%s: position" % e.where()
        if val != (1.0 if fd else 0.0):
            return False, "%s: %s at position (%s,%s)" % (e.where(), show(v), show(i), show(j))
    v, t = filled(o, mat, n)
    if v is not True:
        return v, t
    empty = o.facts.entails_le(n)
    if not outs and not empty:
        if o.facts.entails_le(n):
            return True, "empty"
        return None, "no result"
    for qs, i, v, e in outs:
        if len(qs) != 1:
            return None, "result"
        k = qs[0].k
        if i is not k or same(qs[0].n, n, o.facts) is not True:
            return None, "%s: result" % e.where()
        if v.op != "num" or v.a[0] != CPLXT[ty]:
            return (False if v.op == "num" and v.a[0] in SIZEOF else None), "%s: %s" % (e.where(), show(v))
        c = [y for y in subterms(v) if y.op == "m:get"]
        parts = [y.a[0] for y in c]
        want = [mk("elem", re_, k), mk("elem", im_, k)]
        if set(parts) != set(want):
            two = v.a[1].op == "agg" and all(y.op == "m:get" for y in v.a[1].a)
            return (False if two and set(parts) < set(want) else None), "%s: %s" % (e.where(), show(v))
        order = [y for y in ordered(v) if y.op == "m:get"]
        if [y.a[0] for y in order] != want:
            return False, "%s: real and imaginary parts exchanged" % e.where()
    return True, "companion matrix"


def filled(o, mat, n):
    """every position of the matrix is assigned, whatever path the loops take"""
    bad = []

    def rec(evs, qs, facts):
        """positions {(i,j): loops} assigned on the way through these events"""
        got = {}
        for e in evs:
            if isinstance(e, Loop):
                if not any(y.kind == "var" and y.name == "assign_elem" for y in walk([e])):
                    continue
                q = closed(e, facts)
                if q is None:
                    bad.append(e)
                    continue
                each = [rec(b, qs + [q], f) for f, b in e.bodies]
                if each:
                    for p in set.intersection(*[set(x) for x in each]):
                        got[p] = each[0][p]
            elif e.kind == "var" and e.name == "assign_elem":
                c = e.args[0]
                if c.op == "elem" and c.a[0] is mat:
                    if c.a[1].op == "idx":
                        got[(ap(qs, c.a[1].a[0]), ap(qs, c.a[1].a[1]))] = qs
                    else:
                        bad.append(e)
            elif e.kind in ("call", "JOIN") and any(mat in subterms(a) for a in e.args) and "geev" not in e.name:
                bad.append(e)
        return got

    def span(t, qs):
        """[lo, hi) a position runs over; the loop it depends on"""
        hit = [q for q in qs if contains(t, q.k)]
        if not hit:
            return t, add(t, ONE), None
        if len(hit) > 1:
            return None
        q = hit[0]
        lo = subst(t, {q.k: ZERO})
        if sub(t, q.k) is not lo:
            return None
        return lo, add(lo, q.n), q

    rects = []
    for (i, j), qs in rec(o.events(), [], o.facts).items():
        a, b = span(i, qs), span(j, qs)
        if a is None or b is None or a[2] is not None and a[2] is b[2]:
            bad.append(i)
            continue
        rects.append((a[0], a[1], b[0], b[1]))
    if bad:
        return None, "how the matrix is filled"
    # row 0, then the rows below, column after column
    for lo, what in ((ZERO, "the first row"), (ONE, "the rows below the first")):
        rs = [q for q in rects if q[0] is lo and (q[1] is n or lo is ZERO and q[1] is ONE)] + [q for q in rects if q[0] is ZERO and q[1] is n]
        at = ZERO
        for _ in range(len(rs)):
            nx = [q[3] for q in rs if q[2] is at and q[3] is not at]
            if not nx:
                break
            at = n if n in nx else nx[0]
        if at is not n:
            sure = len(rs) == len([q for q in rects if q[0] is lo]) and clr(at)
            return (False if sure else None), "in %s of the matrix, columns from %s are not set" % (what, show(at))
    return True, "filled"


def ap(qs, t):
    for q in reversed(qs):
        t = q.at(t)
    return t


def ordered(t):
    yield t
    if t.op == "aff":
        return
    for x in t.a:
        if isinstance(x, T):
            yield from ordered(x)


def diag(qs, i, j, f):
    """is (i,j) on the sub-diagonal in this branch?"""
    d = sub(i, add(j, ONE))
    if is_c(d):
        return d.a[0] == 0
    for q in qs:
        pass
    # facts are over induction terms: compare through their closed forms
    for b in f.all():
        g = b.a[0] if b.op == "not" else b
        if g.op != "eq0":
            continue
        t = g
        for q in reversed(qs):
            t = q.at(t)
        if t is eq(d, ZERO):
            return b.op != "not"
    if len(qs) == 1:
        return False if j is not None and not contains(j, qs[0].k) and contains(i, qs[0].k) else None
    return None


def run(R):
    R.rule("reduce", "one element of the result is written, with the reduction over the last extent of the argument at the given offset")
    R.rule("dispatch", "an array goes to the broadcaster")
    R.rule("product", "inner and matrix products use the operands' extents, offsets and element types; the result is overwritten, not accumulated")
    R.rule("reject", "arguments the operation cannot handle are rejected by an exception with nothing written")
    R.rule("conform", "arrays are joined only if they have the same number of dimensions and the same extents but for the last")
    R.rule("move", "swapping, concatenation, sorting and transposition move every element of the operands, and only those")
    R.rule("alloc", "results are allocated with the extents and element type of the operation")
    R.rule("poly", "coefficients from roots multiply by (x - root) for each root; roots from coefficients are the eigenvalues of the companion matrix")
    P = R.program(*UNITS)
    reductions(R, P)
    products(R, P)
    moves(R, P)
    allocation(R, P)
    polynomials(R, P)
    transpose_apply(R)
