"""C09: an array that becomes longer or shorter keeps what it holds and stays
inside its storage"""
from seqm import *
from report import *
from core import CoreRun, kind_facts
from loops import closed, all_loops, kappa
import c02
from c02 import Verdict
from c08 import V0, HP, DEF

MIN_DECIDED = 6
N = mk("iarg", "i1")
ALLTYPES = VALTYPES + ("var", "pair")
CELLS = {"var": (0,), "pair": (0, 16)}


class Own(HeapPolicy):
    """acquiring storage is part of the analysis; a failing new[] is a way out"""
    METHODS = ("broadcast", "scalar", "vector")
    maxout = 400

    def special(self, E, st, ins, name, dem, s, args):
        if s in ("operator new[]", "operator new"):
            E.uid += 1
            q = mk("new", C(E.uid))
            q.ptr = True
            s2 = st.copy()
            s2.emit(Ev("new", s, (args[0],), q, ins, s2.facts))
            return self.thrower(E, st, ins, dem, [Outcome("ret", q, s2)], args)
        return HeapPolicy.special(self, E, st, ins, name, dem, s, args)

    def on_store(self, E, st, ins, addr, size, val):
        b, o = E.split(addr)
        if b.op in ("ld", "data", "new", "iv"):
            st.emit(Ev("store", "mem", (addr, C(size), val), None, ins, st.facts))


def clr(t):
    return all(OKOPS.match(x.op) or x.op in ("kappa", "iv", "le0", "eq0", "ld", "new", "h:size", "h:type") for x in subterms(t))


def power(L, facts):
    """a loop which halves a number s while doubling a number d, for as long as
    s > t: afterwards d is at least d0*(s0+1)/(t+1), and may be exactly that.
    [(d, least value)]"""
    res = []
    half, dbl = None, None
    for t, (i0, ns) in L.ivs.items():
        if len(ns) != 1:
            continue
        n = list(ns)[0]
        if n.op in ("ashr", "lshr") and n.a[0] is t and n.a[1] is ONE or n.op == "sdiv" and n.a[0] is t and n.a[1] is C(2):
            half = (t, i0)
        elif n is scale(t, 2) and is_c(i0) and i0.a[0] >= 1:
            dbl = (t, i0.a[0])
    if not half or not dbl:
        return res
    s, s0 = half
    guards = set()
    for f, _ in L.bodies:
        g = {le(neg(x), ZERO) for x in ()}
        for x in f.les:
            c, d = lin(x)
            if d.get(s) == -1 and len(d) == 1:
                g.add(c)                  # c - s <= 0:  s > c-1
        guards = g if not guards else guards & g
    if len(guards) == 0:
        return res
    t = max(guards) - 1
    if t < 0 or not facts.entails_le(sub(s, C(t))):
        return res
    if dbl[1] >= t + 1:
        res.append((dbl[0], add(s0, ONE)))
    else:
        res.append((dbl[0], None))
    return res


def bounded(o, need, cap):
    """is need <= cap on this way out?  (verdict, explanation)"""
    f = o.facts
    bad = False
    extra = []
    ivs = set()
    for L in all_loops(o.events()):
        for d, lo in power(L, f):
            if lo is None:
                bad = d
            else:
                extra.append((d, lo))
        ivs |= set(L.ivs)
    for d, lo in extra:
        f = f.assume(le(lo, d))
        if f is None:
            return True, ""                  # no such way
    if f.entails_le(sub(need, cap)) or f.assume(le(cap, sub(need, ONE))) is None:
        return True, ""
    inv = [x for x in subterms(cap) if x in ivs]
    if inv and not all(any(x is d for d, lo in extra) for x in inv):
        return (False if bad is not False and bad in inv else None), "room for %s" % show(cap)
    # not implied: is the tight case known?
    tight = f
    for d, lo in extra:
        nf = tight.assume(le(d, lo))
        if nf is not None:
            tight = nf
    nf = tight.assume(le(cap, sub(need, ONE)))
    if nf is None:
        return True, ""
    ok = all(clr(x) for x in (need, cap)) and all(x in {d for d, lo in extra} for x in subterms(cap) if x.op == "iv")
    return (False if ok else None), "room for %s elements where %s are needed" % (show(cap), show(need))


def feasible(o):
    f = o.facts
    for L in all_loops(o.events()):
        for d, lo in power(L, o.facts):
            if lo is not None and f is not None:
                f = f.assume(le(lo, d))
    return f is not None


def released(o, ty, V, r):
    """the elements from n on let go of what they hold"""
    want = set(CELLS[ty])
    got = set()
    other = False
    for L in all_loops(o.events()):
        ass = [e for f, b in L.bodies for e in walk(b) if e.kind == "var" and e.name == "assign"]
        ends = [e for f, b in L.bodies for e in walk(b) if e.kind == "life" and e.name == "~var"]
        if not ass:
            continue
        c = closed(L, o.facts)
        if c is None:
            other = True
            continue
        for e in ass:
            if e.args[-1].op != "nil":
                continue
            a = c.at(e.x) if isinstance(e.x, T) else None
            if a is None:
                other = True
                continue
            for z in CELLS[ty]:
                d = sub(a, add(MDATA, C(z)))
                # counted up from n, or down from the last one
                up = scale(add(N, c.k), ESIZE[ty])
                dn = scale(sub(sub(MSIZE, ONE), c.k), ESIZE[ty])
                if d is up or d is dn:
                    got.add(z)
                    V.put(True if c.n is sub(MSIZE, N) else False if clr(c.n) else None,
                          "%s elements are released, not the %s that are dropped" % (show(c.n), show(sub(MSIZE, N))))
                    break
            else:
                V.put(False if clr(a) else None, "the element at %s is released" % show(a))
    if got != want:
        # nothing to drop on this way out?
        if o.facts.entails_le(sub(MSIZE, N)):
            return
        nf = o.facts.assume(le(add(N, ONE), MSIZE))
        if nf is None:
            return
        V.put(None if other else False, "dropped elements keep what they hold")


def destroyed(o, ty, V):
    """all elements of the old storage end with it, as what they are"""
    E_ = ESIZE[ty]
    top = mk("ld", MDATA, C(-8), 8, ZERO)
    for L in all_loops(o.events()):
        ends = [e for f, b in L.bodies for e in walk(b) if e.kind == "life" and e.name == "~var"]
        for t, (i0, ns) in L.ivs.items():
            d = {sub(n, t) for n in ns}
            if not ends or len(d) != 1 or sub(i0, MDATA) is i0:
                continue
            cnt = [x for x in subterms(i0) if x.op == "ld" and x.a[0] is MDATA and x.a[1] is C(-8)]
            if len(cnt) != 1:
                continue
            st = d.pop()
            offs = sorted(z.a[0] % E_ for z in (sub(e.args[0], t) for e in ends) if is_c(z))
            ok = i0 is add(MDATA, scale(cnt[0], E_)) and st is C(-E_) and offs == sorted(CELLS[ty])
            V.put(True if ok else False if is_c(st) and len(offs) == len(ends) and i0 is add(MDATA, scale(cnt[0], -st.a[0])) else None,
                  "elements of %d bytes are released as if they had %s" % (E_, show(neg(st))))


def copied(o, ty, new, V):
    """everything visible is in the new storage before the old one goes"""
    E_ = ESIZE[ty]
    ev = list(walk(o.events()))
    mc = [e for e in ev if e.kind in ("memcpy", "memmove")]
    mine = lambda x, b: any(y is b for y in subterms(x))
    need = [MSIZE, N]

    def enough(cnt, unit=1):
        """cnt >= min(size, n), and within both storages"""
        f = o.facts
        lo = f.entails_le(sub(scale(MSIZE, unit), cnt)) or f.entails_le(sub(scale(N, unit), cnt))
        if cnt.op in ("min", "smin"):
            lo = all(enough(x, unit)[0] is True for x in cnt.a if isinstance(x, T))
        hi = f.entails_le(sub(cnt, scale(MCAP, unit)))
        d = add(cnt, ZERO)
        if lo and hi:
            return True, ""
        if f.entails_le(sub(scale(add(MCAP, ONE), unit), cnt)):
            return False, show(cnt)
        if not clr(cnt) or any(x.op == "iv" for x in subterms(cnt)):
            return None, show(cnt)
        return False, show(cnt)
    if ty not in CELLS:
        ms = [e for e in mc if mine(e.args[0], new)]
        if len(ms) == 1:
            d, s, n = ms[0].args[:3]
            V.put(True if d is new else False if clr(d) else None, "the old elements move to %s" % show(d))
            V.put(True if s is MDATA else False if clr(s) else None, "%s moves into the new storage" % show(s))
            v, w = enough(n, E_)
            V.put(v, "%s bytes are kept" % w)
            return ev.index(ms[0])
        V.put(None if ms or any(True for _ in all_loops(o.events())) and [e for e in ev if e.kind == "store"] else False,
              "what the array held is not kept")
        return None
    want = set(CELLS[ty])
    got = set()
    other = bool(mc)
    pos = None
    for i, L in enumerate(o.events()):
        if isinstance(L, Ev):
            continue
        for L2 in all_loops([L]):
            ass = [e for f, b in L2.bodies for e in walk(b) if e.kind == "var" and e.name == "assign" and isinstance(e.x, T)]
            c = closed(L2, o.facts) if ass else None
            ass = [e for e in ass if mine(c.at(e.x) if c else e.x, base_of(new)) or any(x in L2.ivs for x in subterms(e.x)) and c is None]
            if not ass:
                continue
            if c is None:
                other = True
                continue
            for e in ass:
                a = c.at(e.x)
                src = c.at(e.args[-1])
                z = [z for z in CELLS[ty] if sub(sub(a, new), C(z)) is scale(c.k, E_)]
                if not z:
                    V.put(False if clr(a) and not any(x.op == "iv" for x in subterms(a)) else None, "an old element moves to %s" % show(a))
                    continue
                w = mk("v0", add(add(MDATA, scale(c.k, E_)), C(z[0])), ZERO)
                V.put(True if src is w else False if src.op in ("nil", "num") or src.op == "v0" and clr(src.a[0]) else None, "%s moves into the new storage" % show(src))
                got.add(z[0])
                v, t = enough(c.n)
                V.put(v, "%s elements are kept" % t)
    if got != want:
        other = other or any(any(isinstance(a, T) and mine(a, base_of(new)) for a in e.args) for e in ev if e.kind == "call")
        V.put(None if other else False, "what the array held is not kept")
    return pos


def base_of(t):
    return Engine.split(None, t)[0] if t.op != "new" else t


def growth(R, prog):
    f = heap_fn(prog, "Heap", "resize", nargs=1)
    for ty in ALLTYPES:
        E_ = ESIZE[ty]
        for state in ("empty", "stored"):
            k = "Heap::resize{%s,%s}" % (ty, state)
            with R.guard(k, "storage"):
                fs = [eq(MTYPE, C(TAG[ty])), le(ZERO, N), le(ZERO, MSIZE), le(MSIZE, MCAP)]
                if ty == "char":
                    fs += [le(MSIZE, sub(MCAP, ONE))] if state == "stored" else []
                fs += [eq(MCAP, ZERO), eq(MDATA, ZERO), eq(MSIZE, ZERO)] if state == "empty" else [le(ONE, MCAP), NOT(eq(MDATA, ZERO))]
                r = HeapRun(R, prog, f, setup=lambda r: fs, policy=Own, unwind=True)
                V = Verdict(bool(r.rets()))
                need = add(N, ONE) if ty == "char" else N
                for o in r.outs:
                    if not feasible(o):
                        continue
                    ev = list(walk(o.events()))
                    if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                        V.put(False if state == "stored" or not [e for e in ev if e.kind == "throw"] else None, "the array refuses its new size")
                        continue
                    news = [e for e in ev if e.kind == "new"]
                    if o.kind == "unw":
                        # storage cannot be had: the array stays as it was
                        if not news and not any(e.kind in ("var", "life", "memcpy", "delete[]", "delete", "call") for e in ev):
                            for off, sz, old, what in ((F_SIZE, 4, MSIZE, "size"), (F_CAP, 4, MCAP, "capacity"), (F_DATA, 8, MDATA, "storage")):
                                x = r.now(o.st, off, sz)
                                same = x is old or o.facts.decide(eq(x, old)) is True
                                V.put(True if same else False if clr(x) else None, "when there is no memory the array is left with the %s %s" % (what, show(x)))
                        continue
                    if o.kind != "ret":
                        continue
                    data, size, cap, typ = r.now(o.st, F_DATA, 8), r.now(o.st, F_SIZE, 4), r.now(o.st, F_CAP, 4), r.now(o.st, F_TYPE, 8)
                    V.put(True if size is N else False if clr(size) else None, "the size becomes %s" % show(size))
                    V.put(True if typ is MTYPE or o.facts.decide(eq(typ, MTYPE)) is True else False if clr(typ) else None, "the type becomes %s" % show(typ))
                    gone = [e for e in ev if e.kind.startswith("delete")]
                    dead = lambda e: o.facts.decide(eq(e.args[0], ZERO)) is True
                    cookie = 8 if ty in CELLS else 0
                    if data is MDATA or state == "empty" and data is ZERO:
                        V.put(True if not news else None, "storage is acquired and not used")
                        V.put(True if cap is MCAP or o.facts.decide(eq(cap, MCAP)) is True else False if clr(cap) else None,
                              "the storage of %s elements is taken to have room for %s" % (show(MCAP), show(cap)))
                        V.put(True if not [e for e in gone if not dead(e)] else False, "the storage in use is released")
                        if state == "stored":
                            v, w = bounded(o, need, MCAP)
                            V.put(v, w)
                        elif not (o.facts.entails_le(need)):
                            V.put(False if not news else None, "there is no storage for the elements")
                    else:
                        lost = [e for e in news if base_of(e.res) is not base_of(data) and not any(base_of(d.args[0]) is base_of(e.res) for d in gone)]
                        if base_of(data).op == "new" and lost and not any(e.kind in ("call", "JOIN") for e in o.events()) and not list(all_loops(o.events())):
                            V.put(False, "storage of %s bytes is acquired and not used" % show(lost[0].args[0]))
                        nw = [e for e in news if base_of(e.res) is base_of(data)]
                        if len(nw) != 1 or not base_of(data).op == "new" or len(news) > 1 and not lost:
                            V.put(None, "storage is acquired in another way")
                            continue
                        nw = nw[0]
                        V.put(True if data is add(nw.res, C(cookie)) else None, "the storage is %s" % show(data))
                        bytes_ = sub(nw.args[0], C(cookie))
                        V.put(True if bytes_ is scale(cap, E_) else False if clr(bytes_) and clr(cap) else None,
                              "storage of %s bytes is taken to have room for %s elements" % (show(bytes_), show(cap)))
                        v, w = bounded(o, need, cap)
                        V.put(v, w)
                        if state == "stored":
                            v, w = bounded(o, MCAP, cap)
                            V.put(True if v is True else None, "storage becomes smaller")
                            copied(o, ty, data, V)
                            old = [e for e in gone if e.args[0] is sub(MDATA, C(cookie)) and not dead(e)]
                            V.put(True if len(old) == 1 and nw in ev and ev.index(old[0]) > ev.index(nw) else False if not old or len(old) > 1 else None,
                                  "the old storage is released %d times" % len(old))
                            idx = [i for i, e in enumerate(ev) if e.kind in ("memcpy", "memmove") and base_of(e.args[0]).op == "new"]
                            if idx and old:
                                V.put(True if ev.index(old[0]) > max(idx) else False, "the old storage is released before its elements have moved")
                    if ty in CELLS and state == "stored":
                        released(o, ty, V, r)
                        destroyed(o, ty, V)
                    if ty == "char":
                        end = [e for e in ev if e.kind == "store" and e.args[1] is ONE and o.facts.decide(eq(e.args[0], add(data, N))) is True]
                        oth = [e for e in ev if e.kind == "store" and not clr(e.args[0])] or [e for e in ev if e.kind == "call"] or \
                            any(e.kind == "store" for L in all_loops(o.events()) for f_, b in L.bodies for e in walk(b))
                        V.put(True if end and end[-1].args[2] is ZERO else False if not oth else None, "text is not terminated")
                c02.done(R, r, k, V, "storage")


HPA, TYA = mk("ld", arg(0), C(0), 8, ZERO), mk("ld", arg(0), C(8), 8, ZERO)


def becomes(R, prog):
    """a value or nothing becomes an array: of the asked size, of its own type,
    with the value in front"""
    for meth, pred, ks in (("resize", lambda s: s == ["int"], ("nil", "scalar", "scalar,0")), ("array", lambda s: not s, ("scalar", "nil"))):
        f = var_fn(prog, meth, pred=pred)
        n = N if meth == "resize" else ONE
        for kind in ks:
            k = "var::%s{%s}" % (meth, kind)
            with R.guard(k, "array"):
                def setup(r):
                    return kind_facts(arg(0), kind[:6]) + ([le(ZERO, N)] if kind == "nil" else [eq(N, ZERO)] if kind == "scalar,0" else [le(C(2), N)] if meth == "resize" else [])
                r = CoreRun(R, prog, f, setup=setup, unwind=False)
                V = Verdict(bool(r.rets()))
                for o in r.outs:
                    if o.kind == "unw":
                        if any(e.kind == "throw" for e in walk(o.events())) and (kind != "nil" or meth == "resize"):
                            if o.facts.assume(le(N, C(-1))) is None or meth == "array":
                                V.put(False, "it cannot become an array")
                        continue
                    if o.kind != "ret":
                        continue
                    hc = [e for e in walk(o.events()) if e.kind == "hctor" and "int, libube::ind" in e.name]
                    if o.facts.assume(le(C(2), N)) is None and meth == "resize" and kind == "scalar":
                        continue
                    if len(hc) != 1:
                        V.put(False if not [e for e in walk(o.events()) if e.kind in ("hctor", "op", "call")] else None, "no array is made")
                        continue
                    a = hc[0].args
                    V.put(True if a[1] is n or o.facts.decide(eq(a[1], n)) is True else False if clr(a[1]) else None, "an array of %s elements is made" % show(a[1]))
                    ty = a[2]
                    V.put(True if ty is TYA or o.facts.decide(eq(ty, TYA)) is True else False if clr(ty) else None, "the array is of type %s" % show(ty))
                    h, t = r.E.load(o.st, arg(0), 8, True), r.E.load(o.st, add(arg(0), C(8)), 8)
                    V.put(True if h is a[0] else False if h.op in ("ld", "num") else None, "it does not refer to its array")
                    V.put(True if t is ZERO or o.facts.decide(eq(t, ZERO)) is True else False if clr(t) else None, "its type is %s" % show(t))
                c02.done(R, r, k, V, "array")
        with R.guard("var::%s{value}" % meth, "array"):
            r = SeqRun(R, prog, f, setup=lambda r: [DEF, eq(HP, ZERO), NOT(eq(m("type", V0), ZERO))] + ([le(C(2), N)] if meth == "resize" else []))
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                if o.kind != "ret":
                    continue
                ev = list(walk(o.events()))
                put = [e for e in ev if e.kind == "var" and e.name == "assign_elem"]
                if not put:
                    V.put(False if not [e for e in ev if e.kind == "call" or e.kind == "var" and e.name.startswith("set")] else None, "the value is lost")
                    continue
                w = mk("elem", V0, ZERO)
                V.put(True if len(put) == 1 and put[0].args[0] is w and put[0].args[1] is V0 else
                      False if len(put) == 1 and put[0].args[0].op == "elem" and clr(put[0].args[0].a[-1]) and o.facts.decide(eq(put[0].args[0].a[-1], ZERO)) is not True
                      else None,
                      "%s becomes %s" % (show(put[0].args[0]), show(put[0].args[1])))
            c02.done(R, r, "var::%s{value}" % meth, V, "array")
    f = var_fn(prog, "resize", pred=lambda s: s == ["int"])
    with R.guard("var::resize{array}", "array"):
        r = SeqRun(R, prog, f, setup=lambda r: [DEF, NOT(eq(HP, ZERO)), le(ZERO, N)])
        V = Verdict(bool(r.rets()))
        for o in r.outs:
            ev = list(walk(o.events()))
            if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                V.put(False, "an array refuses to be resized")
            if o.kind != "ret":
                continue
            rs = [e for e in ev if e.kind == "heap" and e.name == "resize"]
            if len(rs) != 1:
                V.put(False if not rs and not [e for e in ev if e.kind in ("call",)] else None, "the array is not resized")
                continue
            V.put(True if rs[0].args[0] is HP and rs[0].args[1] is N else False if clr(rs[0].args[1]) else None, "the array becomes %s long" % show(rs[0].args[1]))
        c02.done(R, r, "var::resize{array}", V, "array")


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.rule("storage", "there is room for every element (and the end of text), what stays visible is carried over, what is dropped is released, storage is replaced as a whole or not at all")
    R.rule("array", "what becomes an array has the asked size and its own type, with its value in front")
    R.parallel([lambda R: growth(R, prog), lambda R: becomes(R, prog)])
    return R.finish(MIN_DECIDED)
