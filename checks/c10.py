"""C10: a view is exactly the part of its array that its shape and offset name"""
from seqm import *
from report import *
from loops import closed, all_loops, kappa
import c02
from c02 import Verdict
from c08 import V0, A1, HP, DEF, VIEWFACTS, loadd
from fcheck import PROBE

MIN_DECIDED = 12
INT_MAX = C(2147483647)


class Ctor(HeapPolicy):
    """resizing its own array keeps the offset, which comes first"""
    opaque_methods = ("resize",)

    def after_self(self, E, st, meth, rest):
        if meth != "resize":
            return
        old = E.load(st, add(arg(0), C(F_DATA)), 8, True)
        v = E.load(st, old, 4) if not is_c(old) else None
        q = mk("data", C(E.uid))
        q.ptr = True
        E.store(st, add(arg(0), C(F_DATA)), 8, q)
        E.store(st, add(arg(0), C(F_SIZE)), 4, rest[0])
        if v is not None:
            E.store(st, q, 4, v)
            st.emit(Ev("keep", "mem", (q, v), None, None, st.facts))

    def on_store(self, E, st, ins, addr, size, val):
        b, o = E.split(addr)
        if b.op in ("ld", "data", "iv"):
            st.emit(Ev("store", "mem", (addr, C(size), val), None, ins, st.facts))


def clr(t):
    return all(OKOPS.match(x.op) or x.op.startswith("h:") or x.op in ("kappa", "iv", "le0", "eq0", "data") for x in subterms(t))


def implied(f, t, V, what, ok):
    """t <= 0 must follow"""
    if f.entails_le(t):
        V.put(True, "")
    else:
        V.put(False if ok and clr(t) else None, what)


def ctors(R, prog):
    H = iarg(1)
    for sigsub, what in (("initializer_list", "list"), ("libube::var", "values")):
        for src in ("array", "view"):
            k = "View{%s of dimensions,%s}" % (what, src)
            with R.guard(k, "view"):
                f = heap_fn(prog, "View", "View", pred=lambda s: len(s) == 3 and any(sigsub in x for x in s))
                n = mk("iarg", "i2n") if what == "list" else mk("m:size", mk("v0", arg(2), ZERO), ZERO)
                isv = eq(mk("h:view", H), ZERO)
                r = HeapRun(R, prog, f, VCLS, policy=Ctor,
                            setup=lambda r: [le(ZERO, n), NOT(eq(H, ZERO)), NOT(isv) if src == "view" else isv] + ([le(ZERO, mk("h:offset", H, ZERO))] if src == "view" else []))
                off0 = iarg(3) if src == "array" else add(iarg(3), mk("h:offset", H, ZERO))
                heap = H if src == "array" else mk("h:view", H)
                V = Verdict(bool(r.rets()))
                for o in r.outs:
                    top = list(o.events())
                    ev = list(walk(top))
                    loops = [L for L in all_loops(top)]
                    odd = [e for e in ev if e.kind in ("memcpy", "memmove", "call", "JOIN") and not e.name.startswith("std::range_error")] + \
                          [L for L in loops if closed(L, o.facts) is None and o.kind == "ret"] + list(r.E.warn)
                    if o.kind == "unw":
                        if not any(e.kind == "throw" for e in ev):
                            continue
                        refuse(o, n, V, odd, heap, ev)
                        continue
                    if o.kind != "ret":
                        continue
                    data, size, typ, mh = r.now(o.st, F_DATA, 8), r.now(o.st, F_SIZE, 4), r.now(o.st, F_TYPE, 8), r.now(o.st, F_HEAP, 8)
                    V.put(True if mh is heap else False if clr(mh) else None, "it is a view of %s" % show(mh))
                    V.put(True if size is add(scale(n, 2), ONE) else False if clr(size) else None, "it describes itself by %s numbers" % show(size))
                    V.put(True if typ is C(TAG["int"]) else False if clr(typ) else None, "it describes itself by type %s" % show(typ))
                    # the offset is what was last written there
                    off = None
                    for e in ev:
                        if e.kind == "store" and e.args[0] is data and e.args[1] is C(4):
                            off = e.args[2]
                        elif e.kind == "keep" and e.args[0] is data:
                            off = e.args[1]
                    V.put(True if off is off0 else False if off is not None and clr(off) and not odd else None, "its offset is %s" % show(off or ZERO))
                    OFF = mk("ld", data, ZERO, 4, ZERO)
                    offs = [x for x in subterms_of(o.facts) if x.op == "ld" and x.a[0] is data and x.a[1] is ZERO] + ([off] if off is not None else [])
                    geometry(r, o, what, n, data, V, odd, loops)
                    P = product(loops, data)
                    if P is None:
                        V.put(None, "extents are multiplied in another way")
                        continue
                    fit = any(o.facts.entails_le(sub(add(P, x), mk("h:size", heap, ZERO))) for x in offs or [OFF])
                    if not fit:
                        alt = [x for x in o.facts.les if any(y is P for y in subterms(x))]
                        V.put(False if not odd and all(clr(x) for x in alt) else None, "a view may end outside its array")
                    implied(o.facts, sub(ONE, n), V, "a view may have no dimensions", not odd)
                    pos = any(o.facts.entails_le(neg(x)) for x in offs)
                    V.put(True if pos else False if not odd and off is off0 else None, "a view may begin before its array")
                c02.done(R, r, k, V, "view")


def subterms_of(facts):
    s = set()
    for x in facts.all():
        s |= set(subterms(x))
    return s


def product(loops, data):
    """the number which has been multiplied by each extent"""
    for L in loops:
        for t, (i0, ns) in L.ivs.items():
            for x in ns:
                if x.op == "mul" and t in x.a and any(y.op == "ld" and y.a[0] is data for y in x.a):
                    return t
    return None


def geometry(r, o, what, n, data, V, odd, loops):
    shp, strd = False, False
    P = product(loops, data)
    for L in loops:
        c = closed(L, o.facts)
        if c is None:
            V.put(None, "a loop is not counted")
            return
        st = [e for f, b in L.bodies for e in walk(b) if e.kind == "store"]
        for e in st:
            a = c.at(e.args[0])
            v = e.args[2]
            d = sub(a, data)
            base = None
            for j, order in ((c.k, "up"), (sub(sub(n, ONE), c.k), "down")):
                z = sub(d, scale(j, 8))
                if is_c(z):
                    base = (j, z.a[0], order)
            if base is None:
                V.put(False if clr(a) and not odd else None, "%s is written" % show(a))
                continue
            j, z, order = base
            if z == 4:
                x = c.at(v)
                if what == "list":
                    lo = [y for y in subterms(x) if y.op == "ld"]
                    good = len(lo) == 1 and x is lo[0] and add(lo[0].a[0], lo[0].a[1]) is add(iarg(2), scale(j, 4))
                else:
                    lo = [y for y in subterms(x) if y.op in ("m:cast", "m:get")]
                    good = len(lo) == 1 and x is lo[0] and x.a[0] is mk("elem", mk("v0", arg(2), ZERO), j) and x.a[1] is mk("T", "int")
                V.put(True if good else False if lo and clr(x) and what == "list" or lo and x is lo[0] and clr(x) else None, "extent %s is %s" % (show(j), show(x)))
                V.put(True if c.n is n else False if clr(c.n) else None, "%s extents are written" % show(c.n))
                shp = True
            elif z == 8:
                strd = True
                last = e
            else:
                V.put(False if not odd else None, "%s is written" % show(a))
    V.put(True if shp else None, "no extents are written")
    # strides: the last loop that writes them
    for L in reversed(loops):
        c = closed(L, o.facts)
        if P is None or P not in L.ivs:
            continue
        st = [e for f, b in L.bodies for e in walk(b) if e.kind == "store" and is_c(sub(sub(c.at(e.args[0]), data), add(scale(sub(sub(n, ONE), c.k), 8), ZERO)))]
        i0, ns = L.ivs[P]
        V.put(True if i0 is ONE else False if clr(i0) else None, "the last stride is %s" % show(i0))
        V.put(True if c.n is n else False if clr(c.n) else None, "%s strides are written" % show(c.n))
        nx = list(ns)[0] if len(ns) == 1 else None
        f_ = [y for y in nx.a if y is not P] if nx is not None and nx.op == "mul" else []
        if len(f_) == 1 and f_[0].op == "ld":
            a = sub(c.at(add(f_[0].a[0], f_[0].a[1])), data)
            w = add(scale(sub(sub(n, ONE), c.k), 8), C(4))
            V.put(True if a is w else False if clr(a) else None, "strides are multiplied by %s" % show(c.at(f_[0])))
        else:
            V.put(None, "strides are computed in another way")
        if not st:
            s2 = [e for f, b in L.bodies for e in walk(b) if e.kind == "store"]
            V.put(False if s2 and not odd else None, "strides are written in another order")
        for e in st:
            z = sub(sub(c.at(e.args[0]), data), scale(sub(sub(n, ONE), c.k), 8))
            if z is C(8):
                V.put(True if e.args[2] is P else False if clr(e.args[2]) else None, "the stride is %s" % show(e.args[2]))
        # no extent is negative, the product stays an int
        for f, b in L.bodies:
            if f_ and f_[0].op == "ld":
                implied(f, neg(f_[0]), V, "extents may be negative", not odd)
                implied(f, sub(nx, INT_MAX), V, "the product of the extents may overflow", not odd)
        break
    else:
        V.put(None, "strides are computed in another way")


def refuse(o, n, V, odd, heap, ev):
    """only what does not fit is refused"""
    f = o.facts
    if f.entails_le(n):
        return V.put(True, "")
    for x in f.les:
        c, d = lin(x)
        t = list(d)
        # extent or offset < 0:  x + 1 <= 0
        if len(t) == 1 and d[t[0]] == 1 and c >= 1 and t[0].op in ("ld", "iarg"):
            return V.put(True, "")
        if c == 1 and all(k == 1 for k in d.values()) and any(y.op in ("iarg", "ld") for y in t) and not any(y.op == "iv" for y in t):
            return V.put(True, "")
        if len(t) == 1 and d[t[0]] == -1 and c >= 2147483648 and t[0].op == "mul":
            return V.put(True, "")
        sz = mk("h:size", heap, ZERO)
        if d.get(sz) == 1 and c >= 1 and any(y.op == "iv" and k == -1 for y, k in d.items()) and not f.entails_le(neg(x)):
            return V.put(True, "")
    V.put(False if not odd and all(clr(x) for x in f.all()) else None, "a view that fits is refused when %s" % ", ".join(show(x) for x in f.all()[-4:]))


# ---------------------------------------------------------------- going through a view
def through(R, prog):
    OFF = loadd(0)
    I = iarg(1)
    for ty in VALTYPES + ("var", "pair"):
        k = "View::ptr{%s}" % ty
        with R.guard(k, "element"):
            f = heap_fn(prog, "View", "ptr" + ty, nargs=1)
            r = HeapRun(R, prog, f, VCLS, setup=lambda r: VIEWFACTS)
            V = Verdict(bool(r.rets()))
            b = mk("h:ptr" + ty, MHEAP)
            b.ptr = True
            for o in r.rets():
                w = add(b, scale(add(I, OFF), ESIZE[ty]))
                V.put(True if o.val is w else False if clr(o.val) else None, "element i is at %s" % show(o.val))
            c02.done(R, r, k, V, "element")
    for meth, na in (("deref", 1), ("derefSize", 1), ("derefType", 1), ("derefAType", 1), ("at", 2), ("key", 1)):
        k = "View::%s" % meth
        with R.guard(k, "element"):
            f = heap_fn(prog, "View", meth, nargs=na)
            r = HeapRun(R, prog, f, VCLS, setup=lambda r: VIEWFACTS)
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                hs = [e for e in walk(o.events()) if e.kind == "heap" and e.name == meth]
                if len(hs) != 1:
                    V.put(None, "the element is found in another way")
                    continue
                e = hs[0]
                V.put(True if e.args[0] is MHEAP else False if clr(e.args[0]) else None, "the element is looked for in %s" % show(e.args[0]))
                V.put(True if e.args[1] is add(I, OFF) else False if clr(e.args[1]) else None, "element i is element %s" % show(e.args[1]))
                if meth == "at" and len(e.args) > 2:
                    kk = e.args[2]
                    V.put(True if any(x is iarg(2) for x in subterms(kk)) else False if is_c(kk) else None, "key or value: %s" % show(kk))
            c02.done(R, r, k, V, "element")
    want = {"size": mul(loadd(4), loadd(8)), "type": mk("h:type", MHEAP, ZERO), "offset": OFF, "view": MHEAP}
    for meth, w in want.items():
        k = "View::%s()" % meth
        with R.guard(k, "element"):
            f = heap_fn(prog, "View", meth, nargs=0)
            r = HeapRun(R, prog, f, VCLS, setup=lambda r: VIEWFACTS)
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                V.put(True if o.val is w else False if clr(o.val) else None, "it is %s" % show(o.val))
            c02.done(R, r, k, V, "element")
    k = "View::dim()"
    with R.guard(k, "element"):
        f = heap_fn(prog, "View", "dim", nargs=0)
        D = mk("half", "d")
        r = HeapRun(R, prog, f, VCLS, setup=lambda r: VIEWFACTS)
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            v = o.val
            ok = v.op in ("sdiv", "ashr", "lshr", "udiv") and (v.a[0] is sub(MSIZE, ONE) or v.a[0] is MSIZE) and \
                (v.a[1] is C(2) if v.op.endswith("div") else v.a[1] is ONE)
            V.put(True if ok else False if clr(v) else None, "it is %s" % show(v))
        c02.done(R, r, k, V, "element")
    for meth, z in (("shape", 4), ("stride", 8)):
        k = "View::%s(d)" % meth
        with R.guard(k, "element"):
            f = heap_fn(prog, "View", meth, nargs=1)
            r = HeapRun(R, prog, f, VCLS, setup=lambda r: VIEWFACTS + [le(ZERO, I)])
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                w = add(MDATA, add(scale(I, 8), C(z)))
                V.put(True if o.val is w else False if clr(o.val) else None, "it is at %s" % show(o.val))
            c02.done(R, r, k, V, "element")


# ---------------------------------------------------------------- may the elements be copied over
def copyable(R, prog):
    H = iarg(1)
    D = mk("sdiv", sub(MSIZE, ONE), C(2))
    HT, T_, HD = mk("h:type", H, ZERO), mk("h:type", MHEAP, ZERO), mk("h:dim", H, ZERO)
    SZ, HS = mul(loadd(4), loadd(8)), mk("h:size", H, ZERO)
    f = heap_fn(prog, "View", "copyable", nargs=1)

    def yes(o):
        """what is answered: True, False or the condition"""
        if o.val is ZERO or o.val.op == "c" and not o.val.a[0]:
            return False
        if is_c(o.val):
            return True
        return o.val
    cases = {"none": [eq(H, ZERO)], "type": [NOT(eq(T_, HT))], "dim": [NOT(eq(D, HD)), eq(T_, HT)],
             "size": [eq(D, ONE), eq(HD, ONE), eq(T_, HT), NOT(eq(SZ, HS))], "same": [eq(D, ONE), eq(HD, ONE), eq(T_, HT), eq(SZ, HS)],
             "shape": [eq(D, HD), le(C(2), D), eq(T_, HT)]}
    for name, facts in cases.items():
        k = "View::copyable{%s}" % name
        with R.guard(k, "copyable"):
            r = HeapRun(R, prog, f, VCLS, setup=lambda r: VIEWFACTS + facts + ([] if name == "none" else [NOT(eq(H, ZERO))]))
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                a = yes(o)
                if not isinstance(a, bool):
                    d = o.facts.decide(a)
                    # undecided: either answer is possible
                    bad = name in ("none", "type", "dim", "size")
                    a = d if d is not None else bad if clr(a) and name != "shape" and o.facts.assume(a if bad else NOT(a)) is not None else a
                odd = list(r.E.warn) or [e for e in walk(o.events()) if e.kind == "call"]
                if name in ("none", "type", "dim", "size"):
                    V.put(True if a is False else False if a is True and not odd else None, "arrays that differ may be copied")
                elif name == "same":
                    V.put(True if a is True else False if a is False and not odd else None, "arrays that agree may not be copied")
                elif a is True:
                    Ls = list(all_loops(o.events()))
                    cs = [closed(L, o.facts) for L in Ls]
                    if len(Ls) != 1 or cs[0] is None:
                        V.put(False if not Ls and not odd else None, "extents are not compared")
                        continue
                    c, L = cs[0], Ls[0]
                    V.put(True if c.n in (D, HD) else False if clr(c.n) else None, "%s extents are compared" % show(c.n))
                    for ff, b in L.bodies:
                        ok = None
                        for at_ in ff.eqs:
                            x = c.at(at_)
                            mine = [y for y in subterms(x) if y.op == "ld" and y.a[0] is MDATA]
                            his = [y for y in subterms(x) if y.op == "h:shape"]
                            if len(mine) == 1 and len(his) == 1:
                                i = his[0].a[1]
                                ok = mine[0].a[1] is add(scale(i, 8), C(4)) and his[0].a[0] is H and i in (c.k, sub(sub(c.n, ONE), c.k))
                        V.put(True if ok else False if (ok is False or ok is None) and not odd and all(clr(y) for y in ff.all()) else None, "extents are not compared one by one")
                elif a is False:
                    ok = False
                    for at_, v in o.facts.atoms.items():
                        if at_.op == "eq0" and v is False and any(y.op == "h:shape" for y in subterms(at_)) and any(y.op == "ld" for y in subterms(at_)):
                            ok = True
                    V.put(True if ok else False if not odd and all(clr(y) for y in o.facts.all()) else None, "arrays that agree may not be copied")
            if name == "shape":
                V.put(True if any(yes(o) is True for o in r.rets()) else None, "arrays of several dimensions may never be copied")
            c02.done(R, r, k, V, "copyable")


# ---------------------------------------------------------------- values
def values(R, prog):
    for sub_, nm in (("std::initializer_list", "list"), ("libube::var", "values")):
        k = "var::view{%s}" % nm
        with R.guard(k, "value"):
            f = var_fn(prog, "view", pred=lambda s: len(s) == 2 and sub_ in s[0])
            r = SeqRun(R, prog, f, setup=lambda r: [NOT(eq(HP, ZERO))])
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                if o.kind == "unw" and any(e.kind == "throw" for e in walk(o.events())):
                    V.put(False, "an array cannot be viewed")
                if o.kind != "ret":
                    continue
                hc = [e for e in walk(o.events()) if e.kind == "hctor"]
                if len(hc) != 1:
                    V.put(None, "the view is made in another way")
                    continue
                a = hc[0].args
                V.put(True if "View::View" in hc[0].name and a[1] is HP else False if "View::View" not in hc[0].name or clr(a[1]) else None, "what is made is %s of %s" % (hc[0].name[:30], show(a[1])))
                want = (iarg(1), mk("iarg", "i1n"), iarg(2)) if nm == "list" else (None, iarg(2))
                got = a[2:]
                for w, g in zip(want, got):
                    if w is None:
                        c = hc[0].x.get(2, g)
                        V.put(True if c is A1 else False if clr(c) else None, "its shape is %s" % show(c))
                    else:
                        V.put(True if g is w else False if clr(g) else None, "it is made from %s" % show(g))
                res = r.pol.content(r.E, o.st, r.sret)
                V.put(True if any(x is a[0] for x in subterms(res)) else None, "the result is %s" % show(res))
            c02.done(R, r, k, V, "value")
    k = "var::subview"
    with R.guard(k, "value"):
        f = var_fn(prog, "subview", nargs=2)
        r = SeqRun(R, prog, f, setup=lambda r: [le(ONE, iarg(1)), le(iarg(1), m("dim", V0)), le(ONE, m("dim", V0))])
        V = Verdict(bool(r.rets()))
        SH = m("shape", V0)
        for o in r.outs:
            if o.kind == "unw" and any(e.kind == "throw" for e in walk(o.events())):
                V.put(False, "a subview is refused")
            if o.kind != "ret":
                continue
            vw = [e for e in walk(o.events()) if e.name == "view" and len(e.args) > 2]
            Ls = list(all_loops(o.events()))
            if len(vw) != 1 or len(Ls) > 1:
                V.put(None, "the view is made in another way")
                continue
            V.put(True if vw[0].args[0] is V0 else None, "it is a view of %s" % show(vw[0].args[0]))
            V.put(True if vw[0].args[2] is iarg(2) else False if clr(vw[0].args[2]) else None, "its offset is %s" % show(vw[0].args[2]))
            if not Ls:
                ok = o.facts.entails_le(sub(m("dim", V0), iarg(1)))
                V.put(True if ok else False if vw[0].args[1] is SH else None, "no dimension is left out")
                continue
            c = closed(Ls[0], o.facts)
            body = [e for ff, b in Ls[0].bodies for e in walk(b) if e.kind == "var" and e.name in ("shift", "pop", "remove")]
            if c is None or len(body) != 1:
                V.put(None, "dimensions are left out in another way")
                continue
            V.put(True if c.n is sub(m("dim", V0), iarg(1)) else False if clr(c.n) else None, "%s dimensions are left out" % show(c.n))
            V.put(True if body[0].name == "shift" else False if body[0].name == "pop" else None, "dimensions are left out at the wrong end")
        c02.done(R, r, k, V, "value")
    k = "var::shape()"
    with R.guard(k, "value"):
        f = var_fn(prog, "shape", nargs=0)
        r = SeqRun(R, prog, f, setup=lambda r: [le(ONE, m("dim", V0))])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            Ls = list(all_loops(o.events()))
            c = closed(Ls[0], o.facts) if len(Ls) == 1 else None
            if c is None:
                V.put(None, "extents are collected in another way")
                continue
            V.put(True if c.n is m("dim", V0) else False if clr(c.n) else None, "%s extents are collected" % show(c.n))
            ps = [e for ff, b in Ls[0].bodies for e in walk(b) if e.kind == "var" and e.name in ("push", "unshift")]
            for e in ps:
                x = c.at(e.args[-1])
                g = [y for y in subterms(x) if y.op == "m:shape" and len(y.a) == 3]
                good = len(g) == 1 and g[0].a[0] is V0 and g[0].a[1] is c.k and e.name == "push"
                V.put(True if good else False if (g or any(y.op == "m:stride" for y in subterms(x))) and clr(x) else None, "extent k is %s (%s)" % (show(x), e.name))
            if len(ps) != 1:
                V.put(None, "extents are collected in another way")
        c02.done(R, r, k, V, "value")
    for nm, pred in (("list", lambda s: len(s) == 2 and "initializer_list" in s[0]), ("values", lambda s: len(s) == 2 and s[0].strip() == "libube::var" and s[1].strip() == "libube::var")):
        k = "view{%s}" % nm
        with R.guard(k, "value"):
            f = var_fn(prog, "view", pred=pred, ns="libube::")
            n = mk("iarg", "i1n") if nm == "list" else mk("m:size", mk("v0", arg(1), ZERO), ZERO)
            A2 = mk("v0", arg(2), ZERO)
            r = SeqRun(R, prog, f, setup=lambda r: [le(ZERO, n)])
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                ev = list(walk(o.events()))
                Ls = list(all_loops(o.events()))
                c = closed(Ls[0], o.facts) if len(Ls) == 1 else None
                rs = [e for e in ev if e.kind == "var" and e.name == "resize"]
                vw = [e for e in ev if e.name == "view" and len(e.args) > 1]
                if c is None or len(rs) != 1 or len(vw) != 1:
                    V.put(False if c is not None and not rs and vw else None, "the array is made in another way")
                    continue
                V.put(True if c.n is n else False if clr(c.n) else None, "%s extents are multiplied" % show(c.n))
                S = rs[0].args[1]
                if S in Ls[0].ivs:
                    i0, ns = Ls[0].ivs[S]
                    nx = list(ns)[0] if len(ns) == 1 else None
                    fs = [y for y in nx.a if y is not S] if nx is not None and nx.op == "mul" else []
                    V.put(True if i0 is ONE else False if is_c(i0) else None, "the product starts at %s" % show(i0))
                    if len(fs) == 1:
                        x = c.at(fs[0])
                        if nm == "list":
                            good = x.op == "ld" and add(x.a[0], x.a[1]) in (add(iarg(1), scale(c.k, 4)), add(iarg(1), scale(sub(sub(n, ONE), c.k), 4)))
                        else:
                            good = x.op in ("m:cast", "m:get") and x.a[0] in (mk("elem", A1, c.k), mk("elem", A1, sub(sub(n, ONE), c.k)))
                        V.put(True if good else False if clr(x) else None, "the size is the product of %s" % show(x))
                    else:
                        V.put(False if nx is not None and clr(nx) else None, "the size becomes %s" % show(nx or S))
                else:
                    V.put(False if clr(S) else None, "the size is %s" % show(S))
                V.put(True if ev.index(vw[0]) > ev.index(rs[0]) else False, "the view is made before the array")
                w = vw[0].args[1]
                if w.op == "il":
                    w = w.a[0]
                V.put(True if w is (iarg(1) if nm == "list" else A1) else False if clr(w) else None, "its shape is %s" % show(w))
                cp = [e for e in ev if e.name == "copy" and e.args and e.args[0] is A2]
                dfn = mk("bool", m("defined", A2))
                d = o.facts.decide(dfn)
                V.put(True if cp or d is False else False if d is True and any(x is A2 for x in subterms(rs[0].args[0])) else None, "the array given as type is itself resized")
            c02.done(R, r, k, V, "value")


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp", PROBE)
    R.rule("view", "offset, extents and strides are those asked for, the last stride 1 and each other the product of the later extents; what would end outside is refused, what fits is not")
    R.rule("element", "element i of a view is element offset+i of its array, for reading, writing, references and keys")
    R.rule("copyable", "elements can be copied over exactly if type and shape agree")
    R.rule("value", "views of values pass on shape and offset; a subview has the last dimensions; a new view has as many elements as its shape says")
    R.parallel([lambda R: ctors(R, prog), lambda R: through(R, prog), lambda R: copyable(R, prog), lambda R: values(R, prog)])
    return R.finish(MIN_DECIDED)
