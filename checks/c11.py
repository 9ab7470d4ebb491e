"""C11: editing a sequence moves every element once, in an order that loses none"""
from seqm import *
from report import *
from loops import closed, all_loops
import c02
from fcheck import PROBE
from bytem import bval
from fmtm import instantiate, Env, Unclear, truth, has_iv_any
from c02 import Verdict, is_elem, is_load, elem_addr
from c08 import V0, A1, HP, SIZE, DEF, NoResize, clear_or_h, joined, NOT

MIN_DECIDED = 15
VIEW = mk("bool", m("view", V0))
N1 = m("size", A1)


class Stores(NoResize):
    """stores in the storage of the array are recorded"""
    def on_store(self, E, st, ins, addr, size, val):
        b, o = E.split(addr)
        if b.op in ("ld", "data", "iv"):
            st.emit(Ev("store", "mem", (addr, C(size), val), None, ins, st.facts))


def clr(t):
    return all(OKOPS.match(x.op) or x.op.startswith("h:") or x.op in ("kappa", "iv", "data", "le0", "eq0") for x in subterms(t))


# ---------------------------------------------------------------- inside the array
def shifts(R, prog):
    f = heap_fn(prog, "Heap", "shift", nargs=0)
    for ty in VALTYPES + ("var", "pair"):
        k = "Heap::shift{%s}" % ty
        with R.guard(k, "shift"):
            E_ = ESIZE[ty]
            r = HeapRun(R, prog, f, setup=lambda r: [le(ONE, MSIZE), eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO))], policy=NoResize)
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                ev = list(walk(o.events()))
                if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                    V.put(False, "an array with elements cannot be shifted")
                if o.kind != "ret":
                    continue
                got = r.pol.content(r.E, o.st, r.sret)
                V.put(is_elem(got, ty, elem_addr(ty, ZERO)), "the result is %s" % show(got))
                mv = [e for e in ev if e.kind == "memmove"]
                rs = [e for e in ev if e.kind == "self" and e.name == "resize"]
                if loops_in(o) or len(mv) > 1 or [e for e in ev if e.kind in ("memcpy", "call")]:
                    bad = None if loops_in(o) else misplaced(ev, MDATA, E_, (1, 2, 3, 5), lambda n: n - 1, lambda k: k + E_, 0)
                    V.put(False if bad else None, bad or "the elements are moved in another way")
                    continue
                if not mv:
                    V.put(False, "the elements do not move")
                    continue
                d, s, n = mv[0].args[:3]
                V.put(True if d is MDATA and s is add(MDATA, C(E_)) else False if clr(d) and clr(s) else None, "%s moves to %s" % (show(s), show(d)))
                V.put(True if n is scale(sub(MSIZE, ONE), E_) else False if clr(n) else None, "%s bytes move" % show(n))
                sz = r.now(o.st, F_SIZE, 4)
                V.put(True if sz is sub(MSIZE, ONE) else False if clr(sz) else None, "the array becomes %s long" % show(sz))
                if rs:
                    V.put(True if ev.index(rs[-1]) > ev.index(mv[0]) else False, "the array is resized before its elements have moved")
                if ty in ("var", "pair"):
                    cells = [MDATA] if ty == "var" else [MDATA, add(MDATA, C(16))]
                    last = [add(MDATA, scale(sub(MSIZE, ONE), E_))] if ty == "var" else [add(MDATA, add(scale(sub(MSIZE, ONE), E_), C(z))) for z in (0, 16)]
                    i = ev.index(mv[0])
                    gone = [e.args[0] for e in ev[:i] if e.kind == "life" and e.name == "~var"]
                    gone = [x for x in gone if Engine.split(None, x)[0] is MDATA]
                    new = [e.args[0] for e in ev[i:] if e.kind == "life" and e.name == "var"]
                    V.put(True if set(gone) == set(cells) and len(gone) == len(cells) else False if all(map(clr, gone)) else None,
                          "released before the move: %s" % [show(x) for x in gone])
                    V.put(True if set(new) >= set(last) else False if all(map(clr, new)) else None, "made anew after the move: %s" % [show(x) for x in new])
            c02.done(R, r, k, V, "shift")
    f = heap_fn(prog, "Heap", "unshift", nargs=1)
    for ty in VALTYPES + ("var",):
        k = "Heap::unshift{%s}" % ty
        with R.guard(k, "shift"):
            E_ = ESIZE[ty]
            r = HeapRun(R, prog, f, setup=lambda r: [le(ZERO, MSIZE), eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO))], policy=Stores)
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                ev = list(walk(o.events()))
                if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                    V.put(False, "nothing can be put in front of the array")
                if o.kind != "ret":
                    continue
                mv = [e for e in ev if e.kind == "memmove"]
                rs = [e for e in ev if e.kind == "self" and e.name == "resize"]
                if loops_in(o) or len(mv) > 1 or [e for e in ev if e.kind in ("memcpy", "call")] or len(rs) != 1:
                    bad = None if loops_in(o) or len(rs) != 1 else misplaced(ev, r.now(o.st, F_DATA, 8), E_, (0, 1, 2, 4), lambda n: n + 1, lambda k: k - E_, E_)
                    V.put(False if bad or not rs and not loops_in(o) else None, bad or "the elements are moved in another way")
                    continue
                if not mv:
                    V.put(False, "the elements do not move")
                    continue
                data = r.now(o.st, F_DATA, 8)
                V.put(True if rs[0].args[0] is add(MSIZE, ONE) else False if clr(rs[0].args[0]) else None, "the array becomes %s long" % show(rs[0].args[0]))
                V.put(True if ev.index(rs[0]) < ev.index(mv[0]) else False, "the elements move before there is room")
                d, s, n = mv[0].args[:3]
                V.put(True if s is data and d is add(data, C(E_)) else False if clr(d) and clr(s) else None, "%s moves to %s" % (show(s), show(d)))
                V.put(True if n is scale(MSIZE, E_) else False if clr(n) else None, "%s bytes move" % show(n))
                w = [e for e in ev if e.kind == "store"]
                if ty == "var":
                    got = r.pol.content(r.E, o.st, data)
                    V.put(True if got is A1 else False if clr(got) else None, "the first element becomes %s" % show(got))
                    new = [e.args[0] for e in ev[ev.index(mv[0]):] if e.kind == "life" and e.name == "var"]
                    V.put(True if data in new else False if all(map(clr, new)) else None, "the first element is not made anew after the move")
                    continue
                V.put(True if w and all(ev.index(e) > ev.index(mv[0]) for e in w) else False if w else None, "the new element is stored before the others have moved")
                tot = 0
                for e in w:
                    off = sub(e.args[0], data)
                    ok = is_c(off) and 0 <= off.a[0] < E_
                    V.put(True if ok else False if clr(e.args[0]) else None, "%s is stored at %s" % (show(e.args[2]), show(e.args[0])))
                    tot += e.args[1].a[0]
                    cs = [x for x in subterms(e.args[2]) if x.op in ("m:cast", "m:get")]
                    good = [x for x in cs if x.a[0] is A1 and (x.a[1] is mk("T", ty) or not isinstance(x.a[1], T))]
                    V.put(True if good and len(set(cs)) == 1 else False if clr(e.args[2]) else None, "what is stored is %s" % show(e.args[2]))
                V.put(True if tot == E_ else None if not w else False, "%d bytes are stored" % tot)
            c02.done(R, r, k, V, "shift")


def misplaced(ev, data, width, sizes, after, origin, first):
    """where the bytes of the elements end up when the moves in ev are followed
    at a given size; a description of what is wrong, or None"""
    for n in sizes:
        env = {MSIZE: n, data: 1 << 20, MDATA: 1 << 20}
        room = max(n, after(n)) * width
        at = {k: k for k in range(n * width)}
        for e in ev:
            if e.kind in ("memmove", "memcpy"):
                d, s, z = (bval(x, env) for x in e.args[:3])
                if d is None or s is None or z is None:
                    return None
                d, s = d - (1 << 20), s - (1 << 20)
                if not (abs(d) < 1 << 16 and abs(s) < 1 << 16):
                    return None
                if z < 0 or z and not (0 <= d <= room - z and 0 <= s <= room - z):
                    return "%d bytes at %d move to %d in an array of %d elements" % (z, s, d, room // width)
                at.update({d + j: x for j, x in enumerate([at.get(s + j) for j in range(z)])})
            elif e.kind in ("call", "loop"):
                return None
            elif e.kind == "store":
                d = bval(e.args[0], env)
                if d is None or any(x.op == "ld" and any(y in (data, MDATA) for y in subterms(x) if y is not x) for x in subterms(e.args[2])):
                    return None
                at.update({d - (1 << 20) + j: None for j in range(e.args[1].a[0])})
        for k in range(first, after(n) * width):
            if at.get(k) != origin(k):
                return "of %d elements, number %d does not end up in its place" % (n, origin(k) // width)
    return None


def loops_in(o):
    return any(True for _ in all_loops(o.events()))


def appends(R, prog):
    for ty in ("char", "int", "cdouble"):
        k = "Heap::append{%s}" % ty
        with R.guard(k, "append"):
            E_ = ESIZE[ty]
            f = heap_fn(prog, "Heap", "append", pred=lambda s: s[1].startswith({"cdouble": "std::complex<double>"}.get(ty, ty)))
            r = HeapRun(R, prog, f, setup=lambda r: [le(ZERO, MSIZE), eq(MTYPE, C(TAG[ty])), le(ZERO, r.formals[0]), NOT(eq(MDATA, ZERO))], policy=Stores)
            n, src = r.formals[0], r.formals[1]
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                ev = list(walk(o.events()))
                if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                    V.put(False, "nothing can be appended")
                if o.kind != "ret":
                    continue
                rs = [e for e in ev if e.kind == "self" and e.name == "resize"]
                V.put(True if len(rs) == 1 and rs[0].args[0] is add(MSIZE, n) else False if not rs or clr(rs[0].args[0]) else None, "the array is not made longer by the length of the piece")
                data = r.now(o.st, F_DATA, 8)
                cp = [e for e in ev if e.kind in ("memcpy", "memmove")]
                if len(cp) == 1 and not loops_in(o):
                    d, s, z = cp[0].args[:3]
                    V.put(True if d is add(data, scale(MSIZE, E_)) and s is src else False if clr(d) and clr(s) else None, "%s is copied to %s" % (show(s), show(d)))
                    V.put(True if z is scale(n, E_) else False if clr(z) else None, "%s bytes are copied" % show(z))
                    continue
                ls = list(all_loops(o.events()))
                ls = [L for L in ls if any(e.kind == "store" for _, b in L.bodies for e in walk(b))]
                if len(ls) != 1 or len(ls[0].bodies) != 1 or cp:
                    if decided_empty(o, n):
                        continue
                    V.put(None, "copied in another way")
                    continue
                c = closed(ls[0], o.facts)
                if c is None:
                    V.put(None, "not counted")
                    continue
                V.put(True if c.n is n else False if clr(c.n) else None, "%s elements are copied" % show(c.n))
                for e in walk(ls[0].bodies[0][1]):
                    if e.kind != "store":
                        continue
                    t = c.at(sub(e.args[0], data))
                    v = e.args[2]
                    want = scale(add(MSIZE, c.k), E_)
                    z = e.args[1].a[0]
                    rest = sub(t, want)
                    if not (is_c(rest) and 0 <= rest.a[0] < E_):
                        # counted from the other end
                        V.put(False if clr(t) else None, "element %s is stored at %s" % (show(c.k), show(t)))
                        continue
                    ad = [c.at(add(x.a[0] if x.a[0].op != "abs" else ZERO, x.a[1] if isinstance(x.a[1], T) else C(x.a[1]))) for x in subterms(v) if x.op == "ld"]
                    V.put(True if add(add(src, scale(c.k, E_)), rest) in ad else False if clr(v) else None, "element %s is %s" % (show(c.k), show(c.at(v))))
            c02.done(R, r, k, V, "append")
        k = "Heap::append{%s, other type}" % ty
        with R.guard(k, "append"):
            r = HeapRun(R, prog, f, setup=lambda r: [NOT(eq(MTYPE, C(TAG[ty]))), le(ZERO, MSIZE)], policy=Stores)
            V = Verdict(bool(r.outs))
            for o in r.outs:
                if o.kind == "ret":
                    V.put(False if all(clr(x) for x in o.facts.all()) else None, "a piece of %s is accepted" % ty)
                elif any(e.kind in ("self", "store") for e in walk(o.events())):
                    V.put(False, "the array changes before it is refused")
            c02.done(R, r, k, V, "append")


def decided_empty(o, n):
    return o.facts.decide(eq(n, ZERO)) is True


# ---------------------------------------------------------------- by the methods of var
class Step:
    """kind: resize(n), val/key: writes t(k) := v(k) for k in 0..n-1"""
    def __init__(s, kind, t=None, v=None, n=None, k=None, ev=None):
        s.kind, s.t, s.v, s.n, s.k, s.ev = kind, t, v, n, k, ev

    def __repr__(s):
        return "%s %s := %s x%s" % (s.kind, s.t and show(s.t), s.v and show(s.v), s.n and show(s.n))


def index_in(t, base):
    """index of an element or key of the array, else None"""
    if t.op in ("elem", "kelem") and t.a[0] is base:
        return "val", t.a[1]
    return None


def steps(o):
    """(steps, problem): the edits of one outcome in order"""
    res, sizes = [], {}
    cur = [SIZE]

    def S(t):
        return subst(t, sizes) if isinstance(t, T) and sizes else t

    def write(e, c):
        at = (lambda t: S(c.at(t))) if c else S
        n, k = (S(c.n), c.k) if c else (ONE, ZERO)
        adr = e.x
        if e.name == "assign_elem":
            tg = e.args[0]
            if tg.op in ("elem", "kelem") and tg.a[0] is V0:
                return Step("val", at(tg.a[1]), val(at, e.args[1]), n, k, e)
            return None
        if adr is None:
            return None
        if adr.op == "h:key" and adr.a[0] is HP:
            return Step("key", at(adr.a[1]), val(at, e.args[1]), n, k, e)
        b, _ = Engine.split(None, adr)
        if b.op == "alloca" or adr is arg(1) or adr.op == "ret":
            return "local"
        if adr is arg(0):
            return Step("whole", None, val(at, e.args[1]), n, k, e)
        return None

    def val(at, v):
        if v.op in ("elem", "kelem"):
            return mk("el", plain(v.a[0]), at(v.a[1]))
        if v.op == "v0" and v.a[0].op == "h:key" and v.a[0].a[0] is HP:
            return mk("ky", at(v.a[0].a[1]))
        return plain(v)

    def go(evs, c):
        for e in evs:
            if isinstance(e, Loop):
                if not e.bodies:
                    continue
                if c is not None:
                    return "nested loops"
                cc = closed(e, o.facts)
                if cc is None or len(e.bodies) != 1:
                    return "not a counted loop"
                if e.bodies[0][1]:
                    for x in walk(e.bodies[0][1]):
                        note(x)
                    p = go(e.bodies[0][1], cc)
                    if p:
                        return p
                continue
            if e.kind == "JOIN":
                return "joined paths"
            note(e)
            if e.kind == "var" and e.name in ("assign", "assign_elem"):
                s = write(e, c)
                if s is None:
                    return "write of %s" % str(e)[:100]
                if s != "local":
                    res.append(s)
            elif e.kind == "var" and e.name == "resize":
                if e.args[0] is V0:
                    if c is not None:
                        return "resize in a loop"
                    n = S(e.args[1])
                    cur[0] = n
                    res.append(Step("resize", None, None, n, None, e))
            elif e.kind == "heap" and e.name in ("resize", "shift", "unshift", "append"):
                res.append(Step(e.name, None, e.args[1] if len(e.args) > 1 else None, None, None, e))
            elif e.kind == "var" and e.name == "array":
                res.append(Step("array", None, None, None, None, e))
            elif e.kind == "var" and e.name in WRITERS and e.args and e.args[0] is V0:
                res.append(Step(e.name, None, plain(e.args[1]) if len(e.args) > 1 else None, None, None, e))
            elif e.kind in ("memmove", "memcpy", "store", "call", "method"):
                return "%s" % str(e)[:80]
        return None

    def note(e):
        if e.kind == "read" and e.name == "size" and e.args[0] is V0 and e.res is not None and e.res is not cur[0] and cur[0] is not SIZE:
            sizes[e.res] = cur[0]
    p = go(o.events(), None)
    return res, p


def followed(r, o, V, pair, want, cases):
    """the path followed for some sizes: {size, arguments}; want(case) is the
    order the elements should have then.  Only where steps() has no answer."""
    for case in cases:
        N = case[SIZE]
        vals, keys = [("element", k) for k in range(N)], [("key", k) for k in range(N)]
        env = Env(lambda t, env: None)
        env.update(case)
        if any(truth(f, env) is False for f in o.facts.all() if not has_iv_any(f)):
            continue

        def where_(t):
            k = bval(t, env)
            if k is None or not 0 <= k < len(vals):
                raise Unclear("index %s" % show(t)[:60])
            return k

        def emit(e, env):
            if e.kind == "read" and e.name == "size" and e.args[0] is V0 and e.res is not None:
                env.update({e.res: len(vals)})
            elif e.kind == "var" and e.name in ("assign", "assign_elem"):
                v, adr, tg = e.args[1], e.x, e.args[0]
                got = ("value", show(v))
                if v.op in ("elem", "kelem") and v.a[0] is V0:
                    got = vals[where_(v.a[1])]
                elif v.op == "v0" and v.a[0].op == "h:key" and v.a[0].a[0] is HP:
                    got = keys[where_(v.a[0].a[1])]
                elif any(x is V0 or x is HP for x in subterms(v)):
                    got = None
                if e.name == "assign_elem" and tg.op in ("elem", "kelem") and tg.a[0] is V0:
                    k = where_(tg.a[1])
                    if got is None:
                        raise Unclear("value %s" % show(v)[:60])
                    vals[k] = got
                elif adr is not None and adr.op == "h:key" and adr.a[0] is HP:
                    k = where_(adr.a[1])
                    if got is None:
                        raise Unclear("value %s" % show(v)[:60])
                    keys[k] = got
                elif adr is None or Engine.split(None, adr)[0].op != "alloca" and adr is not arg(1) and adr.op != "ret":
                    raise Unclear("write of %s" % str(e)[:60])
            elif e.kind == "var" and e.name == "resize" and e.args[0] is V0:
                n = bval(e.args[1], env)
                if n is None or n < 0:
                    raise Unclear("size %s" % show(e.args[1])[:60])
                for l in vals, keys:
                    del l[n:]
                    l.extend([("new", 0)] * (n - len(l)))
            elif e.kind == "heap" and e.name in ("resize", "shift", "unshift", "append") or e.kind == "var" and e.name in WRITERS and e.args and e.args[0] is V0 or \
                    e.kind in ("memmove", "memcpy", "store", "call", "method"):
                raise Unclear(str(e)[:80])
        try:
            instantiate(o.events(), env, emit, frozenset(o.facts.all()))
        except Unclear as x:
            V.put(None, str(x))
            return
        w = want(case)
        for got, kind in (vals, "element"), (keys, "key"):
            if kind == "key" and not pair:
                continue
            exp = [(kind, k) if k is not None else k for k in w]
            if None in exp:
                exp = [g if x is None and g[0] not in ("element", "key", "new") else x or ("the new one", 0) for g, x in zip(got, exp)] if len(got) == len(exp) else [x or ("the new one", 0) for x in exp]
            say = lambda l: " ".join("%s" % x[1] if x[0] in ("element", "key") else "(%s)" % (x[0]) for x in l)
            V.put(None if got == exp else False, "only followed for some sizes" if got == exp else "of %d %ss, with %s, what is left is %s, not %s" % (N, kind, ", ".join("%s=%d" % (show(t), n) for t, n in case.items() if t is not SIZE), say(got) or "nothing", say(exp) or "nothing"))


def plain(v):
    """the value behind copies and dereferenced references"""
    while v.op in ("m:copy", "m:dereference", "m:deref"):
        v = v.a[0]
    return v


def mapping(st, pieces, V, kind, final):
    """do the writes of one kind put into [lo, hi) what is wanted?
    pieces: [(lo, n, shift or None, ext)]: positions lo..lo+n-1 receive the
    element shift places further on, or element k / all of ext"""
    todo = list(pieces)
    for x in [s for s in st if s.kind == kind]:
        hit = None
        for p in todo:
            lo, n, shift, ext = p
            if shift is not None and (x.v.op == "el" and x.v.a[0] is V0 or x.v.op == "ky"):
                hit = p
            elif shift is None and not (x.v.op == "el" and x.v.a[0] is V0 or x.v.op == "ky"):
                hit = p
        if hit is None:
            V.put(False if clr_step(x) else None, "%s %s receives %s" % ("element" if kind == "val" else "key", show(x.t), show(x.v)))
            continue
        todo.remove(hit)
        lo, n, shift, ext = hit
        k = x.k
        one = n is ONE and x.n is ONE
        if not one:
            V.put(True if x.n is n else False if clr(x.n) and clr(n) else None, "%s %ss are written, not %s" % (show(x.n), kind, show(n)))
        # direction
        co = lin(x.t)[1].get(k, 0) if k is not ZERO else 0
        if one:
            first = x.t
            V.put(True if first is lo else False if clr(first) else None, "%s %s is written, not %s" % (kind, show(first), show(lo)))
            d = 0
        elif co == 1:
            first = sub(x.t, k)
            V.put(True if first is lo else False if clr(first) else None, "the first %s written is %s, not %s" % (kind, show(first), show(lo)))
            d = 1
        elif co == -1:
            last = add(x.t, k)
            want = sub(add(lo, n), ONE)
            V.put(True if last is want else False if clr(last) else None, "the last %s written is %s, not %s" % (kind, show(last), show(want)))
            d = -1
        else:
            V.put(False if clr(x.t) else None, "%s %s is written" % (kind, show(x.t)))
            continue
        if shift is not None:
            src = x.v.a[1] if x.v.op == "el" else x.v.a[0]
            if x.v.op == "ky" and kind != "key" or x.v.op == "el" and kind == "key":
                V.put(False, "a %s receives %s" % (kind, show(x.v)))
            dd = sub(src, x.t)
            V.put(True if dd is shift else False if clr(dd) else None, "%s %s receives that of %s, %s places on" % (kind, show(x.t), show(src), show(dd)))
            s = -1 if negative_(shift) else 1
            if d and d != s and dd is shift:
                V.put(False, "%ss are overwritten before they have moved" % kind)
        else:
            if ext[0] == "each":
                # element j of the source goes to lo + j
                okk = x.v.op == "el" and x.v.a[0] is ext[1] and sub(x.t, x.v.a[1]) is lo
                okk = okk or (one or n is ONE) and x.v is ext[1]
                V.put(True if okk else False if clr_step(x) and x.v.op == "el" else None, "%s %s receives %s" % (kind, show(x.t), show(x.v)))
            else:
                V.put(True if x.v is ext[1] else False if clr_step(x) else None, "%s %s receives %s" % (kind, show(x.t), show(x.v)))
    for lo, n, shift, ext in todo:
        if ext and ext[0] == "optional":
            continue
        V.put(False, "%ss from %s on do not receive %s" % (kind, show(lo), "those %s on" % show(shift) if shift is not None else show(ext[1])))


def negative_(t):
    c, d = lin(t)
    return c <= 0 and all(k < 0 for k in d.values())


def clr_step(x):
    return clr(x.t) and all(y.op in ("el", "ky") or clr(y) or True for y in subterms(x.v)) and all(
        OKOPS.match(y.op) or y.op in ("el", "ky", "kappa", "h:key") for y in subterms(x.v))


def order(st, V, grow, kind="val"):
    """room is made before, and given up after the elements move"""
    rs = [i for i, s in enumerate(st) if s.kind == "resize"]
    ws = [i for i, s in enumerate(st) if s.kind in ("val", "key")]
    if rs and ws:
        if grow:
            V.put(True if rs[0] < ws[0] else False, "elements are written before there is room")
        else:
            V.put(True if rs[-1] > ws[-1] else False, "the array is cut before its elements have moved")


def final_size(st, want, V, o=None):
    rs = [s for s in st if s.kind == "resize"]
    if not rs:
        V.put(False, "the array keeps its size")
    else:
        V.put(True if rs[-1].n is want or o is not None and o.facts.decide(eq(rs[-1].n, want)) is True else False if clr(rs[-1].n) else None, "the array becomes %s long" % show(rs[-1].n))


def array_facts(t):
    return [NOT(eq(HP, ZERO)), DEF, eq(m("atype", V0), C(TAG[t])), eq(m("type", V0), ZERO), NOT(mk("bool", m("reference", V0)))]


def settled(o, before, V, what):
    """a reference to an element of this very array is read before the elements move"""
    ref = mk("bool", m("reference", A1))
    if o.facts.decide(ref) is False:
        return
    for e in walk(o.events()):
        if e.kind == "read" and e.name in ("dereference", "copy") and e.args and e.args[0] is A1:
            return
        if e is before:
            break
    calls = any(e.kind in ("call",) for e in walk(o.events()))
    V.put(None if calls else False, "%s may be an element of this array, and is read after that has moved" % what)


def inserts(R, prog):
    f = var_fn(prog, "insert", nargs=2)
    sig = lambda r: (r.c[0], r.formals[1])
    for ty in ("var", "pair", "char", "int", "double", "cdouble"):
        k = "insert{array of %s}" % ty
        with R.guard(k, "insert"):
            r = SeqRun(R, prog, f, setup=lambda r: array_facts(ty) + [le(ZERO, r.formals[1]), le(r.formals[1], SIZE), le(ZERO, SIZE), le(ZERO, N1),
                                                                      NOT(mk("bool", m("view", V0)))])
            V = Verdict(bool(r.rets()))
            i = r.formals[1]
            for o in r.rets():
                st, p = steps(o)
                if p == "not a counted loop":
                    one_ = ty in ("var", "pair")
                    followed(r, o, V, ty == "pair", lambda c: list(range(c[i])) + [None] * (1 if one_ else c[N1]) + list(range(c[i], c[SIZE])),
                             [{SIZE: n, i: x, N1: q} for n in range(1, 8) for x in range(n + 1) for q in ((1,) if one_ else (1, 2, 3))])
                    continue
                if p:
                    V.put(None, p)
                    continue
                if ty in ("var", "pair"):
                    n = ONE
                    final_size(st, add(SIZE, ONE), V)
                else:
                    n = N1
                    sz = subst_copy(st)
                    final_size(st, add(SIZE, N1), V)
                order(st, V, True)
                mv = (add(i, n), sub(SIZE, i), neg(n), None)
                if ty == "var":
                    mapping(st, [mv, (i, ONE, None, ("all", A1))], V, "val", None)
                elif ty == "pair":
                    mapping(st, [mv, (i, ONE, None, ("all", NIL))], V, "val", None)
                    mapping(st, [mv, (i, ONE, None, ("all", A1))], V, "key", None)
                else:
                    mapping(st, [mv, (i, n, None, ("each", A1))], V, "val", None)
                    alias(o, V)
                first = [s.ev for s in st if s.kind in ("val", "key")]
                if first:
                    settled(o, first[0], V, "the value inserted")
                # the new ones come last
                idx = [(j, s.v.op in ("el", "ky") and (s.v.op == "ky" or s.v.a[0] is V0)) for j, s in enumerate(st) if s.kind in ("val", "key")]
                for kd in ("val", "key"):
                    mvs = [j for j, s in enumerate(st) if s.kind == kd and (s.v.op == "ky" or s.v.op == "el" and s.v.a[0] is V0)]
                    new = [j for j, s in enumerate(st) if s.kind == kd and j not in mvs]
                    if mvs and new and min(new) < max(mvs):
                        V.put(False, "the new %s is written before the others have moved" % kd)
            c02.done(R, r, k, V, "insert")
    k = "append(var)"
    with R.guard(k, "insert"):
        g = var_fn(prog, "append", lambda s: s == ["libube::var"])
        r = SeqRun(R, prog, g)
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            ins = [e for e in walk(o.events()) if e.kind == "var" and e.name == "insert"]
            V.put(True if len(ins) == 1 and ins[0].args[0] is V0 and ins[0].args[1] is A1 and ins[0].args[2] is SIZE else
                  False if len(ins) == 1 and all(clr(x) for x in ins[0].args) else None, "append inserts %s" % [str(e)[:80] for e in ins])
        c02.done(R, r, k, V, "insert")


def subst_copy(st):
    """a copy is as long as its original"""
    mp = {}
    for s in st:
        for t in (s.t, s.n, s.v):
            if isinstance(t, T):
                for x in subterms(t):
                    if x.op == "m:size" and plain(x.a[0]) is A1:
                        mp[x] = N1
    for s in st:
        s.t, s.n, s.v = [subst(t, mp) if isinstance(t, T) else t for t in (s.t, s.n, s.v)]
    return mp


def alias(o, V):
    """when the piece may be this array, it is copied first"""
    same = mk("bool", m("is", A1, V0)), mk("bool", m("is", V0, A1))
    if any(o.facts.decide(x) is False for x in same):
        return
    used = []
    for e in walk(o.events()):
        if e.kind == "var" and e.name == "assign_elem":
            v = e.args[1]
            if v.op in ("elem", "kelem") and v.a[0] is not V0:
                used.append(v.a[0])
    if not used:
        return
    if all(u.op == "m:copy" for u in used):
        return
    if any(o.facts.decide(x) is True for x in same):
        V.put(False, "the piece is this array, and changes while it is read")
        return
    rel = [x for x in o.facts.all() if A1 in subterms(x) and V0 in subterms(x) and any(y.op in ("m:heap", "m:is", "m:ptr") for y in subterms(x))]
    V.put(None if rel else False, "the piece may be this array, and changes while it is read")


def removes(R, prog):
    f = var_fn(prog, "remove", nargs=1)
    for ty in ("var", "pair", "char", "int", "double", "cdouble"):
        k = "remove{array of %s}" % ty
        with R.guard(k, "remove"):
            r = SeqRun(R, prog, f, setup=lambda r: array_facts(ty) + [NOT(VIEW), le(ZERO, r.formals[0]), le(add(r.formals[0], ONE), SIZE)])
            V = Verdict(bool(r.rets()))
            i = r.formals[0]
            for o in r.rets():
                st, p = steps(o)
                if p == "not a counted loop":
                    followed(r, o, V, ty == "pair", lambda c: [k for k in range(c[SIZE]) if k != c[i]],
                             [{SIZE: n, i: x} for n in range(1, 9) for x in range(n)])
                    result(r, o, V, i)
                    continue
                if p:
                    V.put(None, p)
                    continue
                final_size(st, sub(SIZE, ONE), V)
                order(st, V, False)
                mv = (i, sub(sub(SIZE, ONE), i), ONE, None)
                mapping(st, [mv], V, "val", None)
                if ty == "pair":
                    mapping(st, [mv], V, "key", None)
                else:
                    mapping(st, [], V, "key", None)
                result(r, o, V, i)
            c02.done(R, r, k, V, "remove")
    k = "remove{single value}"
    with R.guard(k, "remove"):
        r = SeqRun(R, prog, f, setup=lambda r: [eq(HP, ZERO), DEF, eq(SIZE, ONE), NOT(VIEW), eq(r.formals[0], ZERO), NOT(mk("bool", m("reference", V0)))])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            st, p = steps(o)
            if p:
                V.put(None, p)
                continue
            final_size(st, ZERO, V, o)
        c02.done(R, r, k, V, "remove")


def result(r, o, V, i):
    """a value of its own: element i, not a reference to it"""
    got = r.pol.content(r.E, o.st, r.sret)
    if got.op == "elem" and got.a[0] is V0:
        V.put(False, "the result refers to element %s of the array" % show(got.a[1]))
        return
    x = plain(got)
    if x.op == "elem" and x.a[0] is V0:
        V.put(True if x.a[1] is i else False if clr(x.a[1]) else None, "the result is element %s" % show(x.a[1]))
        # it is read before the elements move
    else:
        V.put(False if clr(got) and got.op in ("nil", "num") else None, "the result is %s" % show(got))


def ends(R, prog):
    f = var_fn(prog, "pop", nargs=0)
    k = "pop"
    with R.guard(k, "ends"):
        r = SeqRun(R, prog, f, setup=lambda r: [DEF, le(ONE, SIZE), NOT(mk("bool", m("reference", V0)))])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            st, p = steps(o)
            if p:
                V.put(None, p)
                continue
            final_size(st, sub(SIZE, ONE), V)
            V.put(True if not [s for s in st if s.kind in ("val", "key")] else None, "elements move")
            result(r, o, V, sub(SIZE, ONE))
        c02.done(R, r, k, V, "ends")
    f = var_fn(prog, "push", nargs=1)
    cases = [("undefined, single value", [NOT(DEF), NOT(eq(m("type", A1), ZERO))], "whole"),
             ("undefined, array", [NOT(DEF), eq(m("type", A1), ZERO)], "elem"),
             ("array", [DEF, eq(m("type", V0), ZERO), NOT(eq(HP, ZERO))], "elem"),
             ("value of the same type", [DEF, NOT(eq(m("type", V0), ZERO)), eq(m("type", V0), m("type", A1))], "elem"),
             ("value of another type", [DEF, NOT(eq(m("type", V0), ZERO)), NOT(eq(m("type", V0), m("type", A1)))], "throw")]
    for nm, fs, want in cases:
        k = "push{%s}" % nm
        with R.guard(k, "ends"):
            r = SeqRun(R, prog, f, setup=lambda r: fs + [NOT(mk("bool", m("reference", V0)))])
            V = Verdict(bool(r.outs))
            for o in r.outs:
                ev = list(walk(o.events()))
                if o.kind == "unw":
                    V.put(True if want == "throw" else False if any(e.kind == "throw" for e in ev) and all(clr(x) for x in o.facts.all()) else None, "it is refused")
                    if want == "throw" and changes(ev):
                        ch = [e for e in changes(ev) if e.args and e.args[0] is V0]
                        V.put(False if ch else True, "the value changes before it is refused")
                    continue
                if o.kind != "ret":
                    continue
                if want == "throw":
                    V.put(False if all(clr(x) for x in o.facts.all()) else None, "it is accepted")
                    continue
                st, p = steps(o)
                if p:
                    V.put(None, p)
                    continue
                wr = [s for s in st if s.kind in ("val", "whole")]
                if want == "whole":
                    ok = len(wr) == 1 and (wr[0].kind == "whole" and wr[0].v is A1 or wr[0].kind == "val" and wr[0].t is SIZE and wr[0].v is A1)
                else:
                    ok = len(wr) == 1 and wr[0].kind == "val" and wr[0].t is SIZE and wr[0].v is A1
                V.put(True if ok else False if all(clr(s.v) and (s.t is None or clr(s.t)) for s in wr) else None, "it writes %s" % wr)
                if ok and wr[0].kind == "val" and not [s for s in st if s.kind == "resize"]:
                    g = [e for e in ev if e.name.startswith("elem.operator[]") and e.args[0] is V0]
                    V.put(True if g else False, "the array does not grow")
            c02.done(R, r, k, V, "ends")
    for meth in ("shift", "unshift"):
        f = var_fn(prog, meth, nargs=0 if meth == "shift" else 1)
        for nm, fs in (("array", [DEF, NOT(eq(HP, ZERO))]), ("single value", [DEF, eq(HP, ZERO)])):
            k = "%s{%s}" % (meth, nm)
            with R.guard(k, "ends"):
                r = SeqRun(R, prog, f, setup=lambda r: fs + [NOT(mk("bool", m("reference", V0)))])
                V = Verdict(bool(r.rets()))
                for o in r.outs:
                    ev = list(walk(o.events()))
                    if o.kind == "unw" and any(e.kind == "throw" for e in ev):
                        V.put(False if all(clr(x) for x in o.facts.all()) else None, "it is refused")
                    if o.kind != "ret":
                        continue
                    h = [e for e in ev if e.kind == "heap" and e.name == meth]
                    a = [e for e in ev if e.kind == "var" and e.name == "array" and e.args[0] is V0]
                    if len(h) != 1:
                        V.put(False if not h and not changes(ev) else None, "the elements do not move")
                        continue
                    V.put(True if h[0].args[0].op == "m:heap" and h[0].args[0].a[0] is V0 else None, "%s is shifted" % show(h[0].args[0]))
                    if nm == "single value":
                        V.put(True if a and ev.index(a[0]) < ev.index(h[0]) else False, "a single value does not become an array first")
                    if meth == "shift":
                        got = r.pol.content(r.E, o.st, r.sret)
                        V.put(True if got is h[0].res else False if clr(got) else None, "the result is %s" % show(got))
                    else:
                        V.put(True if h[0].args[1] is A1 else False if clr(h[0].args[1]) else None, "%s is put in front" % show(h[0].args[1]))
                        settled(o, h[0], V, "the value put in front")
                c02.done(R, r, k, V, "ends")
    f = var_fn(prog, "unshift", nargs=1)
    k = "unshift{undefined}"
    with R.guard(k, "ends"):
        r = SeqRun(R, prog, f, setup=lambda r: [NOT(DEF), eq(HP, ZERO)])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            got = r.pol.content(r.E, o.st, arg(0))
            V.put(True if got is A1 else False if clr(got) and not [e for e in walk(o.events()) if e.kind == "heap"] else None, "it becomes %s" % show(got))
        c02.done(R, r, k, V, "ends")
    f = var_fn(prog, "presize", nargs=1)
    n = None
    for nm, fs in (("larger", lambda r: [le(SIZE, r.formals[0])]), ("smaller", lambda r: [le(add(r.formals[0], ONE), SIZE)])):
        k = "presize{%s}" % nm
        with R.guard(k, "ends"):
            r = SeqRun(R, prog, f, setup=lambda r: fs(r) + [le(ZERO, r.formals[0]), le(ZERO, SIZE)])
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                st, p = steps(o)
                if p:
                    V.put(None, p)
                    continue
                rs = [s for s in st if s.kind == "resize"]
                if nm == "larger":
                    V.put(True if rs else None, "no room is made")
                if rs:
                    V.put(True if rs[-1].n is SIZE else False if clr(rs[-1].n) else None, "the array becomes %s long" % show(rs[-1].n))
                for s in rs[:-1]:
                    V.put(True if o.facts.decide(le(SIZE, s.n)) is True else False if o.facts.decide(le(SIZE, s.n)) is False else None, "elements are dropped: %s" % show(s.n))
            c02.done(R, r, k, V, "ends")
    f = var_fn(prog, "clear", nargs=0)
    k = "clear"
    with R.guard(k, "ends"):
        r = SeqRun(R, prog, f)
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            got = r.pol.content(r.E, o.st, arg(0))
            V.put(True if got.op == "nil" else False if clr(got) and not changes(o.events()) else None, "it becomes %s" % show(got))
        c02.done(R, r, k, V, "ends")


def pieces(R, prog):
    """append(n, pointer) and append(string)"""
    import c08
    for ty in ("char", "int", "cdouble"):
        k = "append<%s>" % ty
        with R.guard(k, "append"):
            cty = {"cdouble": r"std::complex<double>\s*"}.get(ty, ty)
            f = c02.vm(prog, r"libube::var::append<%s>\(int, %s const\*\)" % (cty, cty))
            r = SeqRun(R, prog, f)
            piece(R, r, k, lambda e, r: True if e.args[1] is r.formals[0] and e.args[2] is r.formals[1] else False if all(clr(x) for x in e.args[1:]) else None)
    k = "append(string)"
    with R.guard(k, "append"):
        f = c02.vm(prog, r"libube::var::append\(char const\*\)$")
        r = SeqRun(R, prog, f)

        def good(e, r):
            n = e.args[1]
            ln = [x for x in subterms(n) if "strlen" in (x.op,) + tuple(y for y in x.a if isinstance(y, str))]
            if e.args[2] is r.formals[0] and len(ln) == 1 and ln[0] is n:
                return True
            return False if clr(sub(n, ln[0]) if ln else n) else None
        piece(R, r, k, good)


def piece(R, r, k, good):
    V = Verdict(bool(r.rets()))
    for o in r.rets():
        ev = list(walk(o.events()))
        h = [e for e in ev if e.kind == "heap" and e.name == "append"]
        a = [e for e in ev if e.kind == "var" and e.name == "array" and e.args[0] is V0]
        if len(h) != 1:
            V.put(False if not h and not changes(ev) else None, "nothing is appended")
            continue
        V.put(True if a and ev.index(a[0]) < ev.index(h[0]) else None, "no array is made first")
        ok = good(h[0], r)
        V.put(ok, "%s is appended" % str(h[0])[:100])
        V.put(True if o.val is arg(0) else None, "the result is not the array")
    c02.done(R, r, k, V, "append")


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp", PROBE)
    R.rule("shift", "the elements move by exactly one place, the one that leaves is the result, the one that comes is converted to the type of the array")
    R.rule("append", "the piece follows the elements there were, in order and complete")
    R.rule("insert", "positions before the index keep their element, the index receives the new ones, the others move up, last first")
    R.rule("remove", "positions from the index on receive the next element, first one first, and the array is one shorter; keys move with their values")
    R.rule("ends", "push, pop, shift, unshift, presize and clear change the ends only, as named")
    R.parallel([lambda R: shifts(R, prog), lambda R: appends(R, prog), lambda R: inserts(R, prog), lambda R: removes(R, prog), lambda R: ends(R, prog),
                lambda R: pieces(R, prog)])
    return R.finish(MIN_DECIDED)
