"""C14: a copy is another array of the same type, size and elements; an array
made from data holds that data"""
from core import *
from heapm import *
from report import *
from loops import closed, all_loops
import c02
from c02 import Verdict
from c09 import CELLS, ALLTYPES, feasible
from c10 import Ctor, clr
from c08 import NoResize

MIN_DECIDED = 10
OBJ = iarg(1)


class Fresh(Ctor):
    """a resized array has storage of its own"""


def is_src(t, obj):
    """the storage of the array copied from"""
    if t.op == "ld":
        return add(t.a[0], t.a[1]) is add(obj, C(F_DATA)) or t.a[1] is add(obj, C(F_DATA))
    return t.op.startswith("h:ptr") and t.a[0] is obj


def address(v):
    return v.a[1] if v.a[0].op == "abs" else add(v.a[0], v.a[1])


def src_of(t, obj):
    """t = source storage + r: r"""
    cands = [x for x in subterms(t) if is_src(x, obj)]
    if len(cands) != 1:
        return None
    return sub(t, cands[0])


def moved(o, V, data, size, ty, odd, src):
    """every element of the new storage is what the same element of src is.
    src(value term, offset): verdict"""
    E_ = ESIZE[ty]
    ev = list(walk(o.events()))
    need = set(CELLS.get(ty, (0,)))
    got = set()
    if ty not in CELLS:
        mc = [e for e in ev if e.kind in ("memcpy", "memmove") and any(x is data for x in subterms(e.args[0]))]
        for e in mc:
            d, s, n = e.args[:3]
            V.put(True if d is data else False if clr(d) else None, "%s is written" % show(d))
            V.put(src(s, None), "%s is copied" % show(s))
            V.put(True if n is scale(size, E_) else False if clr(n) and clr(size) and not odd else None,
                  "%s bytes of %s are copied" % (show(n), show(scale(size, E_))))
            got.add(0)
    for L in all_loops(o.events()):
        c = closed(L, o.facts)
        for f, b in L.bodies:
            for e in walk(b):
                if e.kind == "var" and e.name == "assign" and isinstance(e.x, T) and ty in CELLS:
                    a, v = e.x, e.args[-1]
                elif e.kind == "store" and ty not in CELLS:
                    a, v = e.args[0], e.args[2]
                else:
                    continue
                if c is None:
                    V.put(None, "a loop is not counted")
                    got |= need
                    continue
                a, v = c.at(a), c.at(v)
                for j in (c.k, sub(sub(c.n, ONE), c.k)):
                    z = sub(sub(a, data), scale(j, E_))
                    if is_c(z):
                        break
                else:
                    V.put(False if clr(a) and not odd and any(x is data for x in subterms(a)) else None, "%s is written" % show(a))
                    continue
                if z.a[0] not in need and not (ty not in CELLS and 0 <= z.a[0] < E_):
                    V.put(False if not odd else None, "%s is written" % show(a))
                    continue
                got.add(z.a[0] if ty in CELLS else 0)
                V.put(src(v, add(scale(j, E_), z)), "element %s becomes %s" % (show(a), show(v)))
                V.put(True if c.n is size else False if clr(c.n) and clr(size) and not odd else None, "%s of %s elements are copied" % (show(c.n), show(size)))
    if got != need:
        V.put(None if odd or [e for e in ev if e.kind in ("call", "store", "memcpy", "memmove")] else False, "elements are not copied")


def odd_of(r, o):
    return [e for e in walk(o.events()) if e.kind in ("call", "JOIN") and not e.name.startswith("std::")] + list(r.E.warn)


def arrays(R, prog):
    f = heap_fn(prog, "Heap", "Heap", pred=lambda s: len(s) == 2 and "IHeap" in s[0] and s[1] == "bool")
    for ty in ALLTYPES:
        for alloc in (False, True):
            k = "Heap{copy of %s%s}" % (ty, ",storage only" if alloc else "")
            with R.guard(k, "copy"):
                b = iarg(2)
                r = HeapRun(R, prog, f, policy=Fresh, setup=lambda r: [eq(mk("h:type", OBJ, ZERO), C(TAG[ty])), NOT(eq(b, ZERO)) if alloc else eq(b, ZERO),
                                                                       le(ZERO, mk("h:size", OBJ, ZERO))])
                V = Verdict(bool(r.rets()))
                n = mk("h:size", OBJ, ZERO)

                def src(v, off):
                    if ty in CELLS:
                        if v.op != "v0":
                            return False if v.op in ("nil", "num") else None
                        v = v.a[0]
                    elif off is not None:
                        if v.op == "ld":
                            v = address(v)
                        else:
                            return None
                    d = src_of(v, OBJ)
                    if d is None:
                        return None
                    return True if d is (off if off is not None else ZERO) else False if clr(d) else None
                for o in r.outs:
                    if o.kind == "unw":
                        if any(e.kind == "throw" for e in walk(o.events())):
                            V.put(False if not odd_of(r, o) else None, "the copy is refused")
                        continue
                    if o.kind != "ret":
                        continue
                    odd = odd_of(r, o)
                    data, size, typ = r.now(o.st, F_DATA, 8), r.now(o.st, F_SIZE, 4), r.now(o.st, F_TYPE, 8)
                    V.put(True if typ is C(TAG[ty]) or o.facts.decide(eq(typ, C(TAG[ty]))) is True else False if clr(typ) else None, "the copy is of type %s" % show(typ))
                    V.put(True if size is n else False if clr(size) and not odd else None, "the copy has %s elements" % show(size))
                    if data.op not in ("data", "new"):
                        V.put(False if is_src(data, OBJ) else None, "the storage of the copy is %s" % show(data))
                        continue
                    if not alloc:
                        moved(o, V, data, n, ty, odd, src)
                c02.done(R, r, k, V, "copy")


def views(R, prog):
    f = heap_fn(prog, "View", "View", pred=lambda s: len(s) == 2 and "IHeap" in s[0] and s[1] == "bool")
    dim = mk("h:dim", OBJ, ZERO)
    n = add(scale(dim, 2), ONE)
    for alloc in (False, True):
        k = "View{copy%s}" % (",storage only" if alloc else "")
        with R.guard(k, "copy"):
            b = iarg(2)
            r = HeapRun(R, prog, f, VCLS, policy=Fresh, setup=lambda r: [NOT(eq(b, ZERO)) if alloc else eq(b, ZERO), NOT(eq(mk("h:view", OBJ), ZERO)), le(ZERO, dim)])
            V = Verdict(bool(r.rets()))

            def src(v, off):
                if off is not None:
                    if v.op != "ld":
                        return None
                    v = address(v)
                d = src_of(v, OBJ)
                if d is None:
                    return None
                return True if d is (off if off is not None else ZERO) else False if clr(d) else None
            for o in r.outs:
                if o.kind == "unw":
                    if any(e.kind == "throw" for e in walk(o.events())):
                        V.put(False if not odd_of(r, o) else None, "the copy is refused")
                    continue
                if o.kind != "ret":
                    continue
                odd = odd_of(r, o)
                ev = list(walk(o.events()))
                data, size, typ, mh = r.now(o.st, F_DATA, 8), r.now(o.st, F_SIZE, 4), r.now(o.st, F_TYPE, 8), r.now(o.st, F_HEAP, 8)
                V.put(True if typ is C(TAG["int"]) else False if clr(typ) else None, "the copy describes itself by type %s" % show(typ))
                V.put(True if size is n else False if clr(size) and not odd else None, "the copy describes itself by %s numbers" % show(size))
                hc = [e for e in ev if e.kind == "hctor" and e.args[0] is mh]
                if mh is mk("h:view", OBJ) or mh is OBJ:
                    V.put(False, "the copy is a view of the same array")
                elif len(hc) != 1 or "IHeap const&" not in hc[0].name:
                    V.put(None if hc or odd else False, "the array of the copy is made in another way")
                else:
                    e = hc[0]
                    V.put(True if e.args[1] is mk("h:view", OBJ) else False if clr(e.args[1]) else None, "the copy is a view of a copy of %s" % show(e.args[1]))
                    a = o.facts.decide(eq(e.args[2], ZERO)) if not is_c(e.args[2]) else e.args[2] is ZERO
                    if e.args[2].op == "b2i":
                        a = NOT(e.args[2].a[0])
                        a = o.facts.decide(a)
                    V.put(True if a is (not alloc) or alloc and a is True else False if a is not None else None, "the elements of the array are not copied with it")
                if data.op not in ("data", "new"):
                    V.put(None, "the description is %s" % show(data))
                    continue
                moved(o, V, data, n, "int", odd, src)
            c02.done(R, r, k, V, "copy")


def values(R, prog):
    for n, f in sorted(prog.defs.items()):
        if short(prog.dem(n)) == "libube::var::copy":
            break
    else:
        raise Vanished("no libube::var::copy")
    A0 = arg(0)
    HPA, TYA = hp_of(A0), ty_of(A0)
    for kind in ("nil", "scalar", "array", "ref"):
        for alloc in (False, True):
            k = "var::copy{%s%s}" % (kind, ",storage only" if alloc else "")
            with R.guard(k, "copy"):
                b = iarg(1)
                r = CoreRun(R, prog, f, setup=lambda r: kind_facts(A0, kind) + [NOT(eq(b, ZERO)) if alloc else eq(b, ZERO)], unwind=False)
                V = Verdict(bool(r.rets()))
                arr, vw = (HPA,), None
                for o in r.outs:
                    if o.kind != "ret":
                        if o.kind == "unw" and kind != "ref" and any(e.kind == "throw" for e in walk(o.events())):
                            V.put(False if not odd_of(r, o) else None, "the copy is refused")
                        continue
                    odd = odd_of(r, o)
                    ev = list(walk(o.events()))
                    g = lambda off, p: r.E.load(o.st, add(r.sret, C(off)), 8, p)
                    hp, ty = g(0, True), g(8, False)
                    dr = [e.res for e in ev if e.kind == "heap" and e.name == "derefHeap" and e.args[0] is HPA]
                    if kind in ("nil", "scalar"):
                        V.put(True if ty is TYA or o.facts.decide(eq(ty, TYA)) is True else False if clr(ty) and not odd else None, "the copy is of type %s" % show(ty))
                        if kind == "scalar":
                            V.put(True if hp is HPA else False if clr(hp) and not odd else None, "the copy is %s" % show(hp))
                        continue
                    if kind == "ref" and dr and o.facts.decide(eq(dr[0], ZERO)) is True:
                        continue        # a single element: reading references is decided by C02
                    src = HPA if kind == "array" else dr[0] if dr else None
                    hc = [e for e in ev if e.kind == "hctor"]
                    if hp is src or hp is HPA or hp.op == "ld" and not hc and not [e for e in ev if e.kind == "new"]:
                        V.put(False, "the copy shares the array")
                        continue
                    hc = [e for e in hc if e.args[0] is hp]
                    if len(hc) != 1 or src is None or "IHeap const&" not in hc[0].name:
                        V.put(None, "the copy is made in another way")
                        continue
                    e = hc[0]
                    V.put(True if e.args[1] is src else False if clr(e.args[1]) and not odd else None, "a copy of %s is made" % show(e.args[1]))
                    V.put(True if ty is ZERO or o.facts.decide(eq(ty, ZERO)) is True else False if clr(ty) else None, "the copy is of type %s" % show(ty))
                    x = e.args[2]
                    x = NOT(x.a[0]) if x.op == "b2i" else eq(x, ZERO)
                    a = o.facts.decide(x)
                    V.put(True if a is True or a is False and alloc else False if a is False else None, "the elements are not copied")
                    isview = [o.facts.decide(NOT(t)) for t in [q.res for q in ev if q.kind in ("op", "heap") and q.name.split("::")[-1] == "view" and q.res is not None]
                              if t.op in ("bool", "m:view")]
                    want = "View" if isview and isview[0] is False else "Heap" if isview and isview[0] is True else None
                    V.put(True if want and "libube::%s::%s(" % (want, want) in e.name else False if want else None,
                          "a %s is copied as %s" % ({"View": "view", "Heap": "plain array"}.get(want), e.name.split("(")[0]))
                c02.done(R, r, k, V, "copy")


def made(R, prog):
    """arrays from C data"""
    for ty, sig in (("char", "char const*"), ("int", "int const*"), ("cdouble", "std::complex<double> const*")):
        k = "Heap{%s data}" % ty
        with R.guard(k, "made"):
            f = heap_fn(prog, "Heap", "Heap", pred=lambda s: s == ["int", sig])
            r = HeapRun(R, prog, f, policy=Fresh, setup=lambda r: [le(ONE, iarg(1))])
            V = Verdict(bool(r.rets()))
            n, p = iarg(1), arg(2)

            def src(v, off):
                if off is not None:
                    if v.op != "ld":
                        return None
                    v = address(v)
                d = [sub(v, x) for x in (p, iarg(2)) if any(y is x for y in subterms(v))]
                if not d:
                    return None
                return True if d[0] is (off if off is not None else ZERO) else False if clr(d[0]) else None
            for o in r.outs:
                if o.kind == "unw" and any(e.kind == "throw" for e in walk(o.events())) and feasible(o):
                    V.v, V.msg = (False, "data is refused") if not odd_of(r, o) else (None, "data is refused")
                if o.kind != "ret":
                    continue
                odd = odd_of(r, o)
                data, size, typ = r.now(o.st, F_DATA, 8), r.now(o.st, F_SIZE, 4), r.now(o.st, F_TYPE, 8)
                V.put(True if typ is C(TAG[ty]) else False if clr(typ) else None, "the array is of type %s" % show(typ))
                V.put(True if size is n else False if clr(size) and not odd else None, "the array has %s elements" % show(size))
                moved(o, V, data, n, ty, odd, src)
            c02.done(R, r, k, V, "made")
    k = "Heap{size,type}"
    with R.guard(k, "made"):
        f = heap_fn(prog, "Heap", "Heap", pred=lambda s: s == ["int", "libube::ind"])
        for ty in ("array",) + tuple(ALLTYPES):
            r = HeapRun(R, prog, f, policy=Fresh, setup=lambda r: [le(ZERO, iarg(1)), eq(iarg(2), C(TAG.get(ty, 0)))])
            V = Verdict(bool(r.rets()))
            for o in r.outs:
                if o.kind != "ret":
                    continue
                odd = odd_of(r, o)
                size, typ = r.now(o.st, F_SIZE, 4), r.now(o.st, F_TYPE, 8)
                w = C(TAG["var" if ty == "array" else ty])
                V.put(True if typ is w or o.facts.decide(eq(typ, w)) is True else False if clr(typ) else None, "an array of %s is of type %s" % (ty, show(typ)))
                V.put(True if size is iarg(1) else False if clr(size) and not odd else None, "the array has %s elements" % show(size))
            c02.done(R, r, "Heap{size,%s}" % ty, V, "made")


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.rule("copy", "a copy has storage of its own, the type and size of the original, and element by element what the original holds")
    R.rule("made", "an array made from data has its type and length and holds that data in order")
    R.parallel([lambda R: arrays(R, prog), lambda R: views(R, prog), lambda R: values(R, prog), lambda R: made(R, prog)])
    return R.finish(MIN_DECIDED)
