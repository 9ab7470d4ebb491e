"""C08: an index outside the array is refused before anything happens, an index
inside it is not"""
from seqm import *
from report import *
from loops import closed, all_loops
import c02

MIN_DECIDED = 40
V0 = mk("v0", arg(0), ZERO)
A1 = mk("v0", arg(1), ZERO)
HP = mk("m:heap", V0)
SIZE = m("size", V0)
DEF = mk("bool", m("defined", V0))
ISREF = mk("bool", m("reference", V0))


def loadd(off):
    return mk("ld", MDATA, C(off), 4, ZERO)


VSIZE = mul(loadd(4), loadd(8))
VIEWFACTS = [NOT(eq(MDATA, ZERO)), NOT(eq(MHEAP, ZERO)), le(C(3), MSIZE), eq(MTYPE, C(TAG["int"]))]


def known(t, extra=()):
    """made of terms whose relation to the bounds is understood"""
    for x in subterms(t):
        if x.op in ("iv", "ivm", "ivv", "ivx", "phi", "undef", "join") and x not in extra:
            return False
        if x.op.startswith(("call", "fn:", "h:", "self:")) and x not in extra and x.op not in ("h:size", "h:dim"):
            return False
    return clear_or_h(t)


def clear_or_h(t):
    return all(OKOPS.match(x.op) or x.op.startswith("h:") or x.op in ("le0", "eq0") for x in subterms(t))


def refused(r, V, base, ix):
    """no way to return; nothing is changed before the exception"""
    if not r.outs:
        V.put(None, "no outcome")
    for o in r.outs:
        if o.kind == "ret":
            fs = o.facts
            first = [e for e in changes(o.events()) if not local(e, r) and sure(e)]
            if first and first[0].facts is not None:
                fs = first[0].facts
            own = [x for x in fs.all() if x not in base]
            rel = [x for x in own if any(y in ix for y in subterms(x))] if ix else own
            ls = list(all_loops(o.events()))
            ivs = set()
            if all(closed(L, o.facts) is not None for L in ls):
                for L in ls:
                    ivs |= set(L.ivs)
            ok = all(known(x, ivs) for x in rel) and not joined(r)
            V.put(False if ok else None, "it is accepted%s" % (" although " + ", ".join(show(b) for b in base[:4]) if base else ""))
        elif o.kind == "unw":
            ch = changes(o.events())
            # what happens to local objects does not count
            ch = [e for e in ch if not local(e, r)]
            if ch:
                V.put(False if all(sure(e) for e in ch) and not joined(r) else None, "before it is refused: %s" % "; ".join(str(e)[:80] for e in ch[:3]))


def local(e, r):
    tgt = e.args[0] if e.args else None
    if not isinstance(tgt, T):
        return True
    b, _ = Engine.split(None, tgt)
    return b.op in ("alloca", "new", "ret") or tgt.op in ("nil", "uninit", "num", "str", "local") or e.kind == "life" and b.op != "ld"


def sure(e):
    return e.kind in ("var", "heap", "self", "memmove", "memcpy") and all(clear_or_h(a) for a in e.args if isinstance(a, T))


def joined(r):
    return any("join@" in w for w in r.E.warn)


def accepted(r, V):
    for o in r.outs:
        if o.kind == "unw" and all(known(x) for x in o.facts.all()) and any(e.kind == "throw" for e in walk(o.events())):
            V.put(False if not joined(r) else None, "it is refused when %s" % ", ".join(show(x) for x in o.facts.all()[:6]))
    if not r.rets():
        V.put(None, "no result")


class NoResize(HeapPolicy):
    opaque_methods = ("resize",)


def case(R, key, mk_run, inside=None, outside=(), ix=lambda r: set(), extra=None):
    """inside(r) -> facts for which the call is accepted; outside: {name: r -> facts}"""
    if inside is not None:
        k = key + "{inside}"
        with R.guard(k, "inside"):
            r = mk_run(inside)
            V = c02.Verdict()
            accepted(r, V)
            if extra:
                extra(r, V)
            c02.done(R, r, k, V, "inside")
    for nm, fs in outside:
        k = "%s{%s}" % (key, nm)
        with R.guard(k, "outside"):
            box = []

            def setup(r, fs=fs):
                box.append(fs(r))
                return box[0]
            r = mk_run(setup)
            V = c02.Verdict()
            refused(r, V, box[0] if box else [], ix(r))
            R.ob(k, V.v, V.msg, r.dem, "outside")


def bounds3(i, size, pre=lambda r: []):
    """the ways of being outside 0..size-1; i and size as functions of the run"""
    return [("negative", lambda r: pre(r) + [le(i(r), C(-1))]),
            ("the size", lambda r: pre(r) + [eq(i(r), size(r))]),
            ("beyond", lambda r: pre(r) + [le(add(size(r), ONE), i(r))])]


# ---------------------------------------------------------------- arrays
def arrays(R, prog):
    f1 = lambda r: r.formals[0]
    ix = lambda r: {r.formals[0]}
    for ty in ("char", "double", "cdouble", "var", "pair"):
        f = heap_fn(prog, "Heap", "at", nargs=2)
        pre = lambda r: [NOT(eq(MDATA, ZERO)), eq(MTYPE, C(TAG[ty])), le(ZERO, MSIZE)]
        case(R, "Heap::at[%s]" % ty, lambda s: HeapRun(R, prog, f, setup=s),
             lambda r: pre(r) + [le(ZERO, f1(r)), le(add(f1(r), ONE), MSIZE)],
             bounds3(f1, lambda r: MSIZE, pre), ix)
    f = heap_fn(prog, "Heap", "key", nargs=1)
    pre2 = lambda r: [NOT(eq(MDATA, ZERO)), eq(MTYPE, C(9)), le(ZERO, MSIZE)]
    case(R, "Heap::key", lambda s: HeapRun(R, prog, f, setup=s),
         lambda r: pre2(r) + [le(ZERO, f1(r)), le(add(f1(r), ONE), MSIZE)],
         bounds3(f1, lambda r: MSIZE, pre2) + [("type %s" % ty, lambda r, ty=ty: [NOT(eq(MDATA, ZERO)), eq(MTYPE, C(TAG[ty])), le(ZERO, f1(r)), le(add(f1(r), ONE), MSIZE)]) for ty in ("int", "var")], ix)
    for meth, na, nm in (("offset", 1, "offset"), ("shape", 1, "shape"), ("stride", 1, "stride")):
        g = heap_fn(prog, "Heap", meth, nargs=na)
        case(R, "Heap::%s" % nm, lambda s: HeapRun(R, prog, g, setup=s), None, [("not a view", lambda r: [])])
    for ty in VALTYPES + ("var", "pair"):
        g = heap_fn(prog, "Heap", "shift", nargs=0)
        case(R, "Heap::shift[%s]" % ty, lambda s: HeapRun(R, prog, g, setup=s, policy=NoResize), None,
             [("empty", lambda r: [eq(MSIZE, ZERO), eq(MTYPE, C(TAG[ty]))])])
    g3 = heap_fn(prog, "Heap", "derefInt", nargs=2)
    case(R, "Heap::derefInt", lambda s: HeapRun(R, prog, g3, setup=s), None,
         [("element of %s" % ty, lambda r, ty=ty: [eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO))]) for ty in ("int", "cdouble")])


def views(R, prog):
    f1 = lambda r: r.formals[0]
    ix = lambda r: {r.formals[0]}
    pre = lambda r: VIEWFACTS + [le(ZERO, loadd(4)), le(ZERO, loadd(8))]

    def run(f):
        return lambda s: HeapRun(R, prog, f, VCLS, setup=s)
    for meth, na in (("at", 2), ("key", 1)):
        f = heap_fn(prog, "View", meth, nargs=na)
        case(R, "View::" + meth, run(f), lambda r: pre(r) + [le(ZERO, f1(r)), le(add(f1(r), ONE), VSIZE)],
             bounds3(f1, lambda r: VSIZE, pre), ix)
    for meth, k in (("shape", 1), ("stride", 2)):
        f = heap_fn(prog, "View", meth, nargs=1)
        case(R, "View::" + meth, run(f), lambda r: pre(r) + [le(ZERO, f1(r)), le(add(scale(f1(r), 2), C(3)), MSIZE)],
             [("negative", lambda r: pre(r) + [le(f1(r), C(-1))]),
              ("the dimension", lambda r: pre(r) + [eq(scale(f1(r), 2), sub(MSIZE, ONE))]),
              ("beyond", lambda r: pre(r) + [le(MSIZE, sub(scale(f1(r), 2), ONE))])], ix)
    f = heap_fn(prog, "View", "offset", nargs=1)
    room = sub(mk("h:size", MHEAP, ZERO), VSIZE)

    def moved(r, V):
        for o in r.rets():
            now = r.E.load(o.st, MDATA, 4)
            V.put(c02.same(now, r.formals[0]), "the offset becomes %s" % show(now))
    case(R, "View::offset", run(f), lambda r: pre(r) + [le(ZERO, f1(r)), le(f1(r), room)],
         [("negative", lambda r: pre(r) + [le(f1(r), C(-1))]),
          ("one too far", lambda r: pre(r) + [le(ZERO, f1(r)), eq(f1(r), add(room, ONE))]),
          ("beyond", lambda r: pre(r) + [le(ZERO, f1(r)), le(add(room, ONE), f1(r))])], ix, moved)
    for meth, na in (("resize", 1), ("shift", 0), ("unshift", 1)):
        f2 = heap_fn(prog, "View", meth, nargs=na)
        case(R, "View::" + meth, run(f2), None, [("view", lambda r: pre(r))])


# ---------------------------------------------------------------- values
def delegated(meth, arg_=None):
    """a result may come from the method of the array that refuses the index itself"""
    def is_ok(o, r):
        for e in walk(o.events()):
            if e.kind == "heap" and e.name == meth and e.args[0] is HP:
                if arg_ is None or e.args[1] is arg_(r):
                    return True
        return False
    return is_ok


def values(R, prog):
    f1 = lambda r: r.formals[0]
    ix = lambda r: {r.formals[0]}

    def run(f):
        return lambda s: SeqRun(R, prog, f, setup=s)
    f = var_fn(prog, "at", lambda s: s == ["int"])
    pre = lambda r: [DEF, le(ZERO, SIZE)]

    def refers(r, V):
        for o in r.rets():
            pass
    case(R, "at(int)", run(f), lambda r: pre(r) + [le(ZERO, f1(r)), le(add(f1(r), ONE), SIZE)],
         bounds3(f1, lambda r: SIZE, pre) + [("undefined", lambda r: [NOT(DEF)])], ix)
    g = var_fn(prog, "at", lambda s: s == ["libube::var"])
    case(R, "at(var)", run(g), None,
         [("undefined", lambda r: [NOT(DEF), eq(HP, ZERO)]),
          ("a single value", lambda r: [DEF, eq(HP, ZERO), le(m("type", V0), C(7)), le(ONE, m("type", V0))])] +
         [("array of %s" % ty, lambda r, ty=ty: [DEF, NOT(eq(HP, ZERO)), eq(m("type", V0), ZERO), eq(m("atype", V0), C(TAG[ty]))]) for ty in ("int", "var", "char")])
    # a missing key gives nil, one that is there its element
    B = m("binary", V0, A1)
    key = mk("h:key", HP, B)
    key.ptr = True
    K = mk("v0", key, ZERO)
    MAP = [DEF, NOT(eq(HP, ZERO)), eq(m("type", V0), ZERO), eq(m("atype", V0), C(9)), le(ZERO, B), le(B, SIZE)]
    ne = None
    for nm, fs in (("no such key, last", [eq(B, SIZE)]), ("key", [le(add(B, ONE), SIZE)])):
        k = "at(var){%s}" % nm
        with R.guard(k, "key"):
            r = SeqRun(R, prog, g, setup=lambda r: MAP + fs)
            V = c02.Verdict(bool(r.rets()))
            accepted(r, V)
            for o in r.rets():
                got = r.pol.content(r.E, o.st, r.sret)
                same = [d for d in (o.facts.decide(x) for x in key_tests(o, K, A1)) if d is not None]
                if nm != "key":
                    V.put(True if got.op == "nil" else False if clear_or_h(got) else None, "a key beyond the last one gives %s" % show(got))
                elif not same:
                    V.put(False if got.op != "nil" and clear_or_h(got) else None, "the key found is not compared: %s" % show(got))
                elif same[0]:
                    ok = [x for x in subterms(got) if x is B] and [x for x in subterms(got) if x is V0]
                    V.put(True if ok else False if clear_or_h(got) else None, "the key is there, but gives %s" % show(got))
                else:
                    V.put(True if got.op == "nil" else False if clear_or_h(got) else None, "the key is not there, but gives %s" % show(got))
            c02.done(R, r, k, V, "key")
    h = var_fn(prog, "operator[]", lambda s: s == ["int"])
    plain = lambda r: [NOT(ISREF)]
    case(R, "operator[](int)", run(h), lambda r: plain(r) + [DEF, le(ZERO, f1(r)), le(add(f1(r), ONE), SIZE)],
         [("negative", lambda r: plain(r) + [le(f1(r), C(-1))]), ("negative, element", lambda r: [ISREF, le(f1(r), C(-1))])], ix)
    for nm, fs, want in (("within", lambda r: [le(ZERO, f1(r)), le(add(f1(r), ONE), SIZE)], None),
                         ("the size", lambda r: [le(ZERO, SIZE), eq(f1(r), SIZE)], 1),
                         ("beyond", lambda r: [le(ZERO, SIZE), le(add(SIZE, ONE), f1(r))], 1)):
        k = "operator[](int){%s: size}" % nm
        with R.guard(k, "grow"):
            r = SeqRun(R, prog, h, setup=lambda r: [NOT(ISREF)] + fs(r))
            V = c02.Verdict(bool(r.rets()))
            for o in r.rets():
                rs = [e for e in walk(o.events()) if e.kind == "var" and e.name == "resize"]
                if want:
                    if not rs:
                        ok = not unknown_calls(o)
                        V.put(False if ok else None, "the array does not grow")
                    for e in rs:
                        V.put(True if e.args[1] is add(f1(r), ONE) else False if clear_or_h(e.args[1]) else None, "the array becomes %s long" % show(e.args[1]))
                else:
                    for e in rs:
                        V.put(False if e.args[1] is not SIZE and clear_or_h(e.args[1]) else None, "the array is resized to %s" % show(e.args[1]))
                refs = [e for e in walk(o.events()) if e.name == "reference" and len(e.args) == 2]
                for e in refs:
                    V.put(True if e.args[1] is f1(r) else False if clear_or_h(e.args[1]) else None, "element %s is returned" % show(e.args[1]))
                V.put(True if refs else None, "what is returned is not understood")
            c02.done(R, r, k, V, "grow")
    f = var_fn(prog, "insert", nargs=2)
    i2 = lambda r: r.formals[1]
    for atype, fs in (("array of var", [NOT(eq(HP, ZERO)), DEF, eq(m("atype", V0), C(8)), eq(m("type", V0), ZERO)]),
                      ("map", [NOT(eq(HP, ZERO)), DEF, eq(m("atype", V0), C(9)), eq(m("type", V0), ZERO)]),
                      ("array of int", [NOT(eq(HP, ZERO)), DEF, eq(m("atype", V0), C(2)), eq(m("type", V0), ZERO)]),
                      ("single value", [eq(HP, ZERO), DEF, eq(SIZE, ONE)])):
        case(R, "insert[%s]" % atype, run(f), lambda r: fs + [le(ZERO, i2(r)), le(i2(r), SIZE)],
             [("negative", lambda r: fs + [le(ZERO, SIZE), le(i2(r), C(-1))]),
              ("one too far", lambda r: fs + [le(ZERO, SIZE), eq(i2(r), add(SIZE, ONE))]),
              ("beyond", lambda r: fs + [le(ZERO, SIZE), le(add(SIZE, ONE), i2(r))])], lambda r: {i2(r)})
    f = var_fn(prog, "remove", nargs=1)
    VIEW = mk("bool", m("view", V0))
    for atype, fs in (("array of var", [NOT(eq(HP, ZERO)), NOT(VIEW), DEF, eq(m("atype", V0), C(8)), eq(m("type", V0), ZERO)]),
                      ("map", [NOT(eq(HP, ZERO)), NOT(VIEW), DEF, eq(m("atype", V0), C(9)), eq(m("type", V0), ZERO)]),
                      ("array of int", [NOT(eq(HP, ZERO)), NOT(VIEW), DEF, eq(m("atype", V0), C(2)), eq(m("type", V0), ZERO)])):
        case(R, "remove[%s]" % atype, run(f), lambda r: fs + [le(ZERO, f1(r)), le(add(f1(r), ONE), SIZE)],
             bounds3(f1, lambda r: SIZE, lambda r: fs + [le(ZERO, SIZE)]), ix)
    case(R, "remove", run(f), None, [("view", lambda r: [NOT(eq(HP, ZERO)), VIEW, DEF, le(ZERO, f1(r)), le(add(f1(r), ONE), SIZE)])], ix)
    f = var_fn(prog, "key", nargs=1)
    case(R, "key", run(f), None, [("array of %s" % ty, lambda r, ty=ty: [NOT(eq(HP, ZERO)), DEF, eq(m("atype", V0), C(TAG[ty])), eq(m("type", V0), ZERO)]) for ty in ("int", "var", "char")])
    k = "key{map}"
    with R.guard(k, "inside"):
        r = SeqRun(R, prog, f, setup=lambda r: [NOT(eq(HP, ZERO)), DEF, eq(m("atype", V0), C(9)), eq(m("type", V0), ZERO)])
        V = c02.Verdict(bool(r.rets()))
        for o in r.rets():
            V.put(True if delegated("key", f1)(o, r) else None, "the key is not read through the array")
        c02.done(R, r, k, V, "inside")
    f = var_fn(prog, "resize", nargs=1)
    case(R, "resize", run(f), None, [("negative", lambda r: [le(f1(r), C(-1))])], ix)
    f = var_fn(prog, "subview", nargs=2)
    case(R, "subview", run(f), None, [("dimension 0", lambda r: [eq(f1(r), ZERO)]), ("negative dimension", lambda r: [le(f1(r), C(-1))])], ix)
    f = var_fn(prog, "bounds", nargs=2)
    d = lambda r: m("shape", V0, r.formals[0])
    case(R, "bounds", run(f), lambda r: [le(ZERO, i2(r)), le(add(i2(r), ONE), d(r))],
         bounds3(i2, d, lambda r: [le(ZERO, d(r))]), lambda r: {i2(r)})
    NV = [NOT(VIEW), eq(m("dim", V0), ONE), eq(m("reference", V0), ZERO)]
    for meth in ("shape", "stride"):
        f2 = var_fn(prog, meth, lambda s: s == ["int"])
        case(R, "%s(int)[no view]" % meth, run(f2), lambda r: NV + [eq(f1(r), ZERO)],
             [("1", lambda r: NV + [eq(f1(r), ONE)]), ("beyond", lambda r: NV + [le(ONE, f1(r))])], ix)
        k = "%s(int){view}" % meth
        with R.guard(k, "inside"):
            r = SeqRun(R, prog, f2, setup=lambda r: [VIEW, NOT(eq(HP, ZERO)), le(ZERO, f1(r))])
            V = c02.Verdict(bool(r.rets()))
            for o in r.rets():
                ev = [e for e in walk(o.events()) if e.kind == "heap" and e.name == meth]
                ok = len(ev) == 1 and ev[0].args[1] is f1(r) and ev[0].args[0] is HP
                v = o.val
                V.put(True if ok and v is not None and any(x.op == "h:" + meth for x in subterms(v)) else False if clear_or_h(v) and not any(x.op.startswith("m:" + meth) for x in subterms(v)) else None, "%s of a view is %s" % (meth, show(v)))
            c02.done(R, r, k, V, "inside")
        if meth == "shape":
            k = "shape(int){view, from the end}"
            with R.guard(k, "inside"):
                r = SeqRun(R, prog, f2, setup=lambda r: [VIEW, NOT(eq(HP, ZERO)), le(f1(r), C(-1))])
                V = c02.Verdict(bool(r.rets()))
                for o in r.rets():
                    ev = [e for e in walk(o.events()) if e.kind == "heap" and e.name == meth]
                    dims = (m("dim", V0), mk("h:dim", HP, ZERO))
                    V.put(True if ev and any(ev[0].args[1] is add(f1(r), x) for x in dims) else False if ev and clear_or_h(ev[0].args[1]) else None, "dimension %s from the end is read as %s" % (show(f1(r)), [str(e) for e in ev]))
                c02.done(R, r, k, V, "inside")
    f = var_fn(prog, "offset", lambda s: s == ["int"])
    case(R, "offset(int)[no view]", run(f), None, [("not a view", lambda r: [NOT(VIEW)])])
    f = var_fn(prog, "pop", nargs=0)
    case(R, "pop", run(f), None, [])
    k = "pop"
    with R.guard(k, "inside"):
        r = SeqRun(R, prog, f)
        V = c02.Verdict(bool(r.rets()))
        for o in r.rets():
            ev = list(walk(o.events()))
            n = [j for j, e in enumerate(ev) if e.kind in ("var", "read") and e.name.startswith(("elem.at", "at")) and e.args[-1] is sub(SIZE, ONE)]
            w = [j for j, e in enumerate(ev) if e.kind == "var" and e.name == "resize"]
            V.put(True if n and (not w or n[0] < w[0]) else None, "the last element is not read first")
        c02.done(R, r, k, V, "inside")


def key_tests(o, K, A):
    """terms that compare the key with the one asked for"""
    res = set()
    for x in o.facts.all():
        for y in subterms(x):
            if y.op == "bool" and y.a[0].op == "m:==":
                s = set(subterms(y))
                if K in s and A in s:
                    res.add(y)
    return res


def unknown_calls(o):
    return any(e.kind in ("call", "self") for e in walk(o.events()))


# ---------------------------------------------------------------- x(i, j, ...)
def indexer(R, prog):
    f = var_fn(prog, "operator()")
    k = "operator()"
    with R.guard(k, "indexer"):
        r = SeqRun(R, prog, f)
        V = c02.Verdict(bool(r.rets()))
        i1 = r.formals[0]
        sh0, st0 = m("shape", V0, ZERO), m("stride", V0, ZERO)
        for o in r.rets():
            ev = [e for e in o.events()]
            first = [e for e in ev if not isinstance(e, Loop) and e.name == "bounds" and e.args[1] is ZERO and e.args[2] is i1]
            chk = o.facts.decide(le(add(i1, ONE), sh0)) is True and o.facts.decide(le(ZERO, i1)) is True
            any_first = [e for e in walk(ev) if e.name == "bounds" and (e.args[1] is ZERO or i1 in subterms(e.args[2]))]
            # One loop may run over every dimension, the first among them
            if not first and not chk and any(b.name == "bounds" and any(i0 is ZERO and t in subterms(b.args[1]) for t, (i0, ns) in L.ivs.items())
                                             for L in all_loops(ev) for bf, be in L.bodies for b in be if not isinstance(b, Loop)):
                V.put(None, "the first index is checked along with the others")
                continue
            V.put(True if first or chk else None if any_first or unknown_calls(o) else False, "the first index is not checked against the first dimension")
            ls = [e for e in all_loops(ev)]
            acc = {}
            for L in ls:
                for t, (i0, ns) in L.ivs.items():
                    acc[t] = (L, i0, ns)
            got = [e for e in walk(ev) if e.name.startswith("elem.at") or e.name in ("at", "reference")]
            got = [e for e in got if e.args[0] is V0]
            if len(got) != 1 or len(ls) != 1:
                V.put(None, "not a loop over the dimensions followed by at()")
                continue
            p = got[0].args[1]
            if p not in acc:
                V.put(False if clear_or_h(p) and p.op not in ("iv", "ivm") else None, "the element returned is %s" % show(p))
                continue
            L, i0, ns = acc[p]
            V.put(True if i0 is mul(i1, st0) else False if clear_or_h(i0) else None, "the index starts at %s" % show(i0))
            c = closed(L, o.facts)
            D = m("dim", V0)
            for (bf, be), nx in zip(L.bodies, ns) if len(L.bodies) == len(ns) else ():
                b = [e for e in be if not isinstance(e, Loop) and e.name == "bounds"]
                sts = {y for y in subterms(sub(nx, p)) if y.op == "m:stride"}
                if len(sts) != 1:
                    V.put(None if not clear_or_h(nx) else False, "the index advances by %s" % show(sub(nx, p)))
                    continue
                s = sts.pop()
                d, step = s.a[1], sub(nx, p)
                if len(b) != 1:
                    chk = [x for x in bf.all() if any(y.op == "m:shape" for y in subterms(x))]
                    V.put(None if chk or b else False, "an index is not checked")
                    continue
                V.put(True if step is mul(b[0].args[2], s) else False if is_c(b[0].args[2]) and not is_c(step) or clear_iv(b[0].args[2]) and clear_iv(step) else None, "the index advances by %s, %s is checked" % (show(step), show(b[0].args[2])))
                V.put(True if b[0].args[1] is d else False if clear_iv(b[0].args[1]) and clear_iv(d) else None, "the stride is that of dimension %s, the check that of %s" % (show(d), show(b[0].args[1])))
                if c is not None:
                    dd = c.at(d)
                    want = add(c.k, ONE)
                    V.put(True if dd is want else False if clear_iv(dd) else None, "the dimension of index %s is %s" % (show(want), show(dd)))
                    V.put(True if c.n is sub(D, ONE) else False if clear_iv(c.n) else None, "%s further indices are read" % show(c.n))
                else:
                    V.put(None, "not counted")
            if len(L.bodies) != len(ns):
                V.put(None, "paths and values differ")
        c02.done(R, r, k, V, "indexer")


def clear_iv(t):
    return all(OKOPS.match(x.op) or x.op in ("iv", "kappa") for x in subterms(t))


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.rule("outside", "for an index outside the bounds no path returns, and nothing that outlives the call is changed on the way to the exception")
    R.rule("inside", "for an index inside the bounds no path throws an exception of its own")
    R.rule("key", "at(key) gives the element whose key compares equal at the place the search yields, or nil")
    R.rule("grow", "operator[] beyond the end makes the array one longer than the index, and refers to that element")
    R.rule("indexer", "operator() checks every index against its own dimension and sums index times stride")
    R.parallel([lambda R: arrays(R, prog), lambda R: views(R, prog), lambda R: values(R, prog), lambda R: indexer(R, prog)])
    return R.finish(MIN_DECIDED)
