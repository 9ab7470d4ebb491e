"""C02: what is stored in a typed array is what comes back"""
import re
from core import *
from heapm import *
from report import *

MIN_DECIDED = 60
MANGLE = {"char": "c", "int": "i", "long": "l", "float": "f", "double": "d", "cfloat": "St7complexIfE", "cdouble": "St7complexIdE"}
CPP = {"cfloat": "std::complex<float>", "cdouble": "std::complex<double>"}
BITS = {"char": 8, "int": 32, "long": 64}
THROWN = ("unw",)


def same(a, b):
    """two values agree; None when not comparable"""
    if a is b or norm(a) is norm(b):
        return True
    return False if clear(a) and clear(b) else None


class Verdict:
    """the worst of several comparisons"""
    def __init__(self, any_=True):
        self.v, self.msg = (True, "") if any_ else (None, "no outcome")

    def put(self, v, msg):
        if v is True or self.v is False:
            return
        if v is False or self.v is True:
            self.v, self.msg = v, msg

    def need(self, v, msg):
        self.put(v, msg)
        return v is True


def joined(r):
    return any("join@" in w for w in r.E.warn)


def done(R, r, key, V, rule):
    v = V.v
    if v is False and joined(r):
        v = None
    R.ob(key, v, V.msg, r.dem, rule)


# ---------------------------------------------------------------- elements
def elem_addr(ty, i, key=False):
    a = add(MDATA, scale(i, ESIZE[ty]))
    return add(a, C(16)) if ty == "pair" and not key else a


def stored(r, o, ty, i, key=False):
    """content of element i of an array of the type, by value"""
    if ty in ("var", "pair"):
        return mk("v0", elem_addr(ty, i, key), ZERO)
    return mk("num", mk("k", ty), mk("ld", elem_addr(ty, i), ZERO, ESIZE[ty], ZERO))


def read_elements(R, prog):
    """Heap::at"""
    f = heap_fn(prog, "Heap", "at", nargs=2)
    for ty in VALTYPES + ("var", "pair"):
        for key in ((False, True) if ty == "pair" else (False,)):
            k = "at{%s%s}" % (ty, ",key" if key else "")
            with R.guard(k, "read"):
                kt = {}
                r = HeapRun(R, prog, f, setup=lambda r: [eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO)),
                                                        le(ZERO, r.formals[0]), le(add(r.formals[0], ONE), MSIZE),
                                                        NOT(eq(r.formals[1], ZERO)) if key else eq(r.formals[1], ZERO)])
                V = Verdict(bool(r.rets()))
                i = r.formals[0]
                for o in r.outs:
                    if o.kind == "unw":
                        V.put(False, "an element within the array is refused")
                    if o.kind != "ret":
                        continue
                    got = r.pol.content(r.E, o.st, r.sret)
                    want = elem_addr(ty, i, key)
                    V.put(is_elem(got, ty, want), "element %s of the array reads as %s" % (show(i), show(got)))
                done(R, r, k, V, "read")


def is_elem(got, ty, addr):
    """is the content the element of that type at the address?"""
    if ty in ("var", "pair"):
        if got.op == "v0":
            return got.a[0] is addr
    elif got.op == "num":
        gty = got.a[0].a[0] if isinstance(got.a[0], T) else got.a[0]
        if gty != ty:
            return False
        v = got.a[1]
        if is_load(v, addr, ESIZE[ty]):
            return True
    return False if clear(got) else None


def is_load(v, addr, size):
    v = norm(v)
    if v.op == "ld":
        return add(v.a[0], v.a[1] if isinstance(v.a[1], T) else C(v.a[1])) is addr and v.a[2] == size
    if v.op in ("agg", "cat"):
        ps = parts(v)
        if ps and len(ps) == 2:
            return is_load(ps[0], addr, size // 2) and is_load(ps[1], add(addr, C(size // 2)), size // 2)
    return False


def dereferences(R, prog):
    """Heap::deref and what is read through it"""
    f = heap_fn(prog, "Heap", "deref")
    for ty in VALTYPES + ("var", "pair"):
        k = "deref{%s}" % ty
        with R.guard(k, "read"):
            r = HeapRun(R, prog, f, setup=lambda r: [eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO))])
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                want = elem_addr(ty, r.formals[0]) if ty in ("var", "pair") else ZERO
                V.put(True if o.val is want else False if clear(o.val) else None, "%s is returned" % show(o.val))
            done(R, r, k, V, "read")
    for meth, plain in (("derefType", MTYPE), ("derefAType", MTYPE), ("derefSize", ONE), ("defined", None), ("derefHeap", ZERO)):
        f = heap_fn(prog, "Heap", meth)
        for ty in VALTYPES + ("var", "pair"):
            k = "%s{%s}" % (meth, ty)
            with R.guard(k, "read"):
                r = HeapRun(R, prog, f, setup=lambda r: [eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO))])
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    v = o.val
                    if ty in ("var", "pair") and o.facts.decide(eq(elem_addr(ty, r.formals[0]), ZERO)) is True:
                        continue
                    if ty in ("var", "pair"):
                        e = mk("v0", elem_addr(ty, r.formals[0]), ZERO)
                        name = {"derefType": "m:type", "derefAType": "m:atype", "derefSize": "m:size", "defined": "m:defined", "derefHeap": "m:heap"}[meth]
                        hit = [x for x in subterms(v) if x.op == name and x.a[0] is e]
                        bad = [x for x in subterms(v) if x.op.startswith("m:") and (x.op != name or x.a[0] is not e)]
                        V.put(True if hit and not bad else False if bad and clear(v) else None, "%s of the element is %s" % (meth, show(v)))
                    elif plain is None:
                        V.put(o.facts.decide(NOT(eq(v, ZERO))) if not v.op == "bool" else None, "an element is not defined")
                    else:
                        d = o.facts.decide(eq(v, C(TAG[ty]) if plain is MTYPE else plain))
                        V.put(d if d is not None or not clear(v) else False, "%s of an element is %s" % (meth, show(v)))
                done(R, r, k, V, "read")


def says(m, e):
    return mk("m:heap", e) if m == "heap" else mk("m:" + m, e, ZERO)


def said(e, kind, t):
    """what an element that is nil, a value or an array of type t says of
    itself: the facts, and the answers"""
    ms = {m: says(m, e) for m in ("type", "atype", "size", "defined", "heap")}
    if kind == "nil":
        w = dict(type=ZERO, size=ZERO, defined=ZERO, heap=ZERO)
    elif kind == "value":
        w = dict(type=C(t), atype=C(t), size=ONE, defined=ONE, heap=ZERO)
    else:
        w = dict(type=ZERO, atype=C(t), defined=ONE)
    fs = [eq(ms[m], x) for m, x in w.items()]
    if kind == "array":
        fs.append(NOT(eq(ms["heap"], ZERO)))
    return fs


def dereferenced(R, prog):
    """The same for every content an element can have: what the element says
    is what is said of the reference to it"""
    names = {"derefType": "type", "derefAType": "atype", "derefSize": "size", "defined": "defined", "derefHeap": "heap"}
    for meth, m in names.items():
        f = heap_fn(prog, "Heap", meth)
        for ty in ("var", "pair"):
            for kind, t in [("nil", 0)] + [(k, t) for k in ("value", "array") for t in range(1, 8 if k == "value" else 10)]:
                if kind == "nil" and meth == "derefAType":
                    continue
                k = "%s{%s of %s %s}" % (meth, ty, kind, [n for n in TAG if TAG[n] == t][0])
                with R.guard(k, "read"):
                    def setup(r):
                        e = mk("v0", elem_addr(ty, r.formals[0]), ZERO)
                        return [eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO)), NOT(eq(elem_addr(ty, r.formals[0]), ZERO))] + said(e, kind, t)
                    r = HeapRun(R, prog, f, setup=setup)
                    w = says(m, mk("v0", elem_addr(ty, r.formals[0]), ZERO))
                    V = Verdict(bool(r.rets()))
                    for o in r.rets():
                        v = o.val
                        same = v is w or v.op == "bool" and v.a[0] is w or o.facts.decide(eq(v, w)) is True
                        other = not same and (o.facts.decide(eq(v, w)) is False or is_c(v) and o.facts.decide(eq(w, v)) is False
                                              or m == "size" and kind == "array" and is_c(v))
                        V.put(True if same else False if other else None, "%s of the element is %s" % (meth, show(v)))
                    done(R, r, k, V, "read")


def addresses(R, prog):
    """ptr<type>(i) of arrays and views"""
    for cls in ("Heap", "View"):
        for ty in VALTYPES + ("var", "pair"):
            k = "%s::ptr%s" % (cls, ty)
            with R.guard(k, "address"):
                f = heap_fn(prog, cls, "ptr" + ty)
                r = HeapRun(R, prog, f, HCLS if cls == "Heap" else VCLS, setup=lambda r: [NOT(eq(MDATA, ZERO))] + (
                    [eq(MTYPE, C(TAG[ty]))] if cls == "Heap" else []))
                V = Verdict(bool(r.rets()))
                i = r.formals[0]
                if cls == "Heap":
                    want = add(MDATA, scale(i, ESIZE[ty]))
                else:
                    b = mk("h:ptr" + ty, MHEAP)
                    b.ptr = True
                    want = add(b, scale(add(i, mk("ld", MDATA, ZERO, 4, ZERO)), ESIZE[ty]))
                for o in r.rets():
                    V.put(True if o.val is want else False if clear(o.val) and not any(x.op.startswith("h:") and x.op != "h:ptr" + ty
                          for x in subterms(o.val)) else None, "element %s is at %s" % (show(i), show(o.val)))
                done(R, r, k, V, "address")
    k = "View::at"
    with R.guard(k, "address"):
        f = heap_fn(prog, "View", "at", nargs=2)
        r = HeapRun(R, prog, f, VCLS, setup=lambda r: [NOT(eq(MDATA, ZERO)), NOT(eq(MHEAP, ZERO)), le(C(3), MSIZE)])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            got = r.pol.content(r.E, o.st, r.sret)
            want = add(r.formals[0], mk("ld", MDATA, ZERO, 4, ZERO))
            ok = got.op == "h:at" and got.a[0] is MHEAP and got.a[1] is want
            V.put(True if ok else False if got.op == "h:at" and clear(got.a[1]) else None, "element %s of a view reads as %s" % (show(r.formals[0]), show(got)))
        done(R, r, k, V, "address")
    k = "View::key"
    with R.guard(k, "address"):
        f = heap_fn(prog, "View", "key", nargs=1)
        r = HeapRun(R, prog, f, VCLS, setup=lambda r: [NOT(eq(MDATA, ZERO)), NOT(eq(MHEAP, ZERO)), le(C(3), MSIZE)])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            want = add(r.formals[0], mk("ld", MDATA, ZERO, 4, ZERO))
            ok = o.val.op == "h:key" and o.val.a[0] is MHEAP and o.val.a[1] is want
            V.put(True if ok else False if o.val.op == "h:key" and clear(o.val.a[1]) else None, "key %s of a view is %s" % (show(r.formals[0]), show(o.val)))
        done(R, r, k, V, "address")
    k = "Heap::key"
    with R.guard(k, "address"):
        f = heap_fn(prog, "Heap", "key", nargs=1)
        r = HeapRun(R, prog, f, setup=lambda r: [NOT(eq(MDATA, ZERO)), eq(MTYPE, C(9)), le(ZERO, r.formals[0]), le(add(r.formals[0], ONE), MSIZE)])
        V = Verdict(bool(r.rets()))
        for o in r.outs:
            if o.kind == "unw":
                V.put(False, "the key of an element is refused")
            elif o.kind == "ret":
                want = elem_addr("pair", r.formals[0], True)
                V.put(True if o.val is want else False if clear(o.val) else None, "the key is at %s" % show(o.val))
        done(R, r, k, V, "address")


# ---------------------------------------------------------------- writing
def vm(prog, pat):
    """a method of var by its demangled signature"""
    for n, f in sorted(prog.defs.items()):
        if f.order and re.search(pat, prog.dem(n)):
            return f
    raise Vanished("no " + pat)


def index_of(a):
    """a reference to element i has type -i-1"""
    return sub(C(-1), ty_of(a))


def hp(ty, p, i):
    t = mk("hp:" + ty, p, i)
    t.ptr = True
    return t


def writes_through(R, prog):
    f = vm(prog, r"^libube::var::operator=\(libube::var\)$")
    for ty in VALTYPES + ("var", "pair"):
        for x in ("scalar", "array", "nil"):
            k = "operator={ref to %s,%s}" % (ty, x)
            with R.guard(k, "write"):
                a, b = arg(0), None
                r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(arg(0), "ref") + kind_facts(r.formals[0], x) + [
                    eq(mk("h:type", hp_of(arg(0)), ZERO), C(TAG[ty]))])
                V = Verdict(bool(r.rets()))
                src = r.formals[0]
                for o in r.outs:
                    if o.kind != "ret":
                        continue
                    V.put(True if o.val is arg(0) else None, "the result is not the object")
                    p, i = hp_of(arg(0)), index_of(arg(0))
                    base = hp(ty, p, i)
                    mem = {bb: c for bb, c in o.st.mem.items() if bb.op.startswith("hp:")}
                    want = add(base, C(16)) if ty == "pair" else base
                    if ty in ("var", "pair"):
                        now = r.pol.vc(r.E, o.st, want)
                        got = mk("vc", hp_of(src), ty_of(src))
                        to = mk("vc", *[mk("ld", base, C(k), 8, ZERO) for k in ((16, 24) if ty == "pair" else (0, 8))])
                        ev = [e for e in walk(o.events()) if e.kind == "op" and e.name == "libube::var::operator="]
                        if len(ev) == 1 and len(ev[0].args) == 2:
                            V.put(True if ev[0].args[0] is to else False if clear_h(ev[0].args[0]) else None, "%s is assigned" % show(ev[0].args[0]))
                            V.put(True if ev[0].args[1] is got else None, "the element becomes %s" % show(ev[0].args[1]))
                        elif not ev and now is to:
                            V.put(False if not [e for e in walk(o.events()) if e.kind == "op"] else None, "nothing is assigned to the element")
                        else:
                            V.put(True if now is got else None, "the element becomes %s" % show(now))
                        continue
                    if not mem:
                        V.put(False, "nothing is stored in the array")
                        continue
                    if set(mem) != {base}:
                        bb = [x for x in mem if x is not base][0]
                        V.put(False if clear_h(bb) else None, "the value is stored at %s" % show(bb))
                        continue
                    cells = mem[base]
                    vals = [v for z, v in cells.values()]
                    casts = set()
                    for v in vals:
                        casts |= {y for y in subterms(v) if y.op.startswith("m:cast")}
                    srcs = [y for y in casts if y.op == "m:cast" and y.a[1] is mk("T", ty)]
                    if len(casts) != 1 or not srcs:
                        V.put(False if all(clear_h(v) for v in vals) and (casts or all(is_c(v) for v in vals)) else None,
                              "what is stored is %s" % ", ".join(map(show, vals)))
                        continue
                    s = srcs[0].a[0]
                    V.put(True if s is mk("vc", hp_of(src), ty_of(src)) else None, "what is stored comes from %s" % show(s))
                    if sum(z for z, v in cells.values()) != ESIZE[ty]:
                        V.put(False, "%d bytes of the element are stored" % sum(z for z, v in cells.values()))
                done(R, r, k, V, "write")


def clear_h(t):
    return all(x.op.startswith(("hp:", "h:", "m:", "vc")) or clear_op(x) for x in subterms(t))


def clear_op(x):
    from functor import OKOPS
    return bool(OKOPS.match(x.op))


def copies(R, prog):
    """the two words of a var are copied and moved as they are"""
    a, b = arg(0), None
    for pat, k, moved in ((r"^libube::var::var\(libube::var const&\)$", "copy", False), (r"^libube::var::var\(libube::var&&\)$", "move", True)):
        f = vm(prog, pat)
        for x in ("nil", "array", "scalar", "ref"):
            key = "var(%s){%s}" % (k, x)
            with R.guard(key, "value"):
                r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(r.formals[0], x))
                V = Verdict(bool(r.rets()))
                src = r.formals[0]
                for o in r.rets():
                    now = r.pol.vc(r.E, o.st, arg(0))
                    want = mk("vc", hp_of(src), ty_of(src))
                    V.put(eqvc(o, now, want), "the copy is %s" % show(now))
                    if moved:
                        left = r.pol.vc(r.E, o.st, src)
                        V.put(eqvc(o, left, mk("vc", ZERO, ZERO)), "what is left behind is %s" % show(left))
                    else:
                        left = r.pol.vc(r.E, o.st, src)
                        V.put(eqvc(o, left, want), "the original becomes %s" % show(left))
                done(R, r, key, V, "value")
    # the value constructors
    for ty in VALTYPES:
        if ty == "cdouble":
            continue
        key = "var(%s)" % ty
        with R.guard(key, "value"):
            f = vm(prog, r"^libube::var::var\(%s\)$" % re.escape({"cfloat": "std::complex<float>"}.get(ty, ty)))
            r = CoreRun(R, prog, f, unwind=False)
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                t = r.E.load(o.st, add(arg(0), C(8)), 8)
                v = r.E.load(o.st, arg(0), ESIZE[ty])
                V.put(True if t is C(TAG[ty]) else False if is_c(t) else None, "the type of the value is %s" % show(t))
                src = r.formals[0]
                ok = v is src or (v.op not in ("ld", "undef") and [x for x in subterms(v) if x is src])
                V.put(True if ok else False if is_c(v) or v.op == "ld" else None, "the value is %s" % show(v))
                c = o.st.mem.get(arg(0), {}).get(ZERO)
                if c is not None and ok:
                    V.put(c[0] >= ESIZE[ty], "%d bytes of the value are stored" % c[0])
            done(R, r, key, V, "value")


def eqvc(o, x, y):
    for p, q in zip(x.a, y.a):
        if p is q:
            continue
        d = o.facts.decide(eq(p, q))
        if d is not True:
            return d if d is not None else (False if clear_h(p) and clear_h(q) and p.op != "undef" else None)
    return True


def gets(R, prog):
    """get<T>(), ptr<T>(), and what a var which refers to an element reads"""
    for ty in VALTYPES:
        tn = CPP.get(ty, ty)
        tp = tn + " " if tn.endswith(">") else tn
        for kind in ("ref", "value"):
            if kind == "value" and ty == "cdouble":
                pass
            key = "get<%s>{%s}" % (ty, kind)
            with R.guard(key, "value"):
                f = vm(prog, r"libube::var::get<%s>\(\) const$" % re.escape(tp))
                k = "ref" if kind == "ref" else "array" if ty == "cdouble" else "scalar"
                r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(arg(0), k) + (
                    [eq(mk("h:deref", hp_of(arg(0)), index_of(arg(0))), ZERO)] if k == "ref" else []))
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    v = o.val
                    if v is None and r.sret is not None:
                        v = r.E.load(o.st, r.sret, ESIZE[ty])
                    want = (hp(ty, hp_of(arg(0)), index_of(arg(0))) if k == "ref" else
                            hp(ty, hp_of(arg(0)), ZERO) if k == "array" else arg(0))
                    V.put(True if is_load(v, want, ESIZE[ty]) else False if clear_h(v) else None, "the value read is %s" % show(v))
                done(R, r, key, V, "value")
        for kind in ("ref", "array", "scalar"):
            if kind == "scalar" and ty == "cdouble":
                continue
            key = "ptr<%s>{%s}" % (ty, kind)
            with R.guard(key, "value"):
                f = vm(prog, r"libube::var::ptr<%s>\(" % re.escape(tp))
                r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(arg(0), kind) + (
                    [eq(mk("h:type", hp_of(arg(0)), ZERO), C(TAG[ty]))] if kind != "scalar" else []))
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    want = (hp(ty, hp_of(arg(0)), index_of(arg(0))) if kind == "ref" else
                            hp(ty, hp_of(arg(0)), r.formals[0]) if kind == "array" else arg(0))
                    V.put(True if o.val is want else False if clear_h(o.val) else None, "the address is %s" % show(o.val))
                done(R, r, key, V, "value")
    f = vm(prog, r"^libube::var::dereference\(\)$")
    for ty in VALTYPES:
        key = "dereference{%s}" % ty
        with R.guard(key, "value"):
            r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(arg(0), "ref") + [
                eq(mk("h:type", hp_of(arg(0)), ZERO), C(TAG[ty]))])
            V = Verdict(bool(r.rets()))
            src = hp(ty, hp_of(arg(0)), index_of(arg(0)))
            for o in r.rets():
                V.put(True if o.val is arg(0) else None, "the result is not the object")
                t = r.E.load(o.st, add(arg(0), C(8)), 8)
                d = o.facts.decide(eq(t, C(0 if ty == "cdouble" else TAG[ty])))
                V.put(d if d is not None or not clear_h(t) else False, "the type is %s" % show(t))
                if ty == "cdouble":
                    c = [e for e in walk(o.events()) if e.kind == "hctor"]
                    V.put(True if len(c) == 1 and src in c[0].args and ONE in c[0].args else None, "the value is not one copied element")
                else:
                    v = r.E.load(o.st, arg(0), ESIZE[ty])
                    V.put(True if is_load(v, src, ESIZE[ty]) else False if clear_h(v) else None, "the value becomes %s" % show(v))
            done(R, r, key, V, "value")


# ---------------------------------------------------------------- conversion
def unconv(v):
    """conversions with the same result in one form"""
    v = norm(v)

    def f(t):
        a = [f(x) if isinstance(x, T) else x for x in t.a] if t.op != "aff" else t.a
        t = mk(t.op, *a) if tuple(a) != tuple(t.a) else t
        if t.op == "fptrunc" and t.a[0].op == "fpext":
            return t.a[0].a[0]
        if t.op == "f2i" and t.a[0].op == "fpext":
            t = mk("f2i", t.a[0].a[0], t.a[1])
        if t.op == "trunc8" and t.a[0].op == "f2i":
            return mk("f2i", t.a[0].a[0], "i8")
        if t.op == "trunc8" and t.a[0].op == "wrap32":
            return mk("trunc8", t.a[0].a[0])
        if t.op == "i2f" and t.a[0].op == "sext8":
            return mk("i2f", t.a[0].a[0], *t.a[1:])
        return t
    return f(v)


def parts(v):
    v = norm(v)
    if v.op == "agg":
        return list(v.a)
    if v.op == "cat" and len(v.a) == 7:
        return [v.a[3], v.a[6]]
    return None


def convert(T_, S, x):
    """the value of type T_ for x of type S, in the form of unconv; complex: pair"""
    if S in ("cfloat", "cdouble"):
        re_, im = part(x, S, 0), part(x, S, 1)
        if T_ in ("cfloat", "cdouble"):
            fl = "float" if S == "cfloat" else "double"
            tl = "float" if T_ == "cfloat" else "double"
            return [fconv(tl, fl, re_), fconv(tl, fl, im)]
        return [fconv(T_, "float" if S == "cfloat" else "double", re_)]
    if T_ in ("cfloat", "cdouble"):
        return [fconv("float" if T_ == "cfloat" else "double", S, x), mk("f", 0.0)]
    return [fconv(T_, S, x)]


def part(x, S, k):
    return ("part", x, S, k)


def is_part(v, p):
    _, x, S, k = p
    if v.op == "xv" and v.a[0] is x and v.a[1] == k:
        return True
    z = 4 if S == "cfloat" else 8
    return v.op == "ext" and v.a[0] is x and v.a[1] == k * z and v.a[2] == z


def fconv(T_, S, x):
    return (T_, S, x)


def matches(v, w):
    """value v against the wanted conversion"""
    if isinstance(w, T):
        return v is w
    T_, S, x = w
    fT, fS = T_ in ("float", "double"), S in ("float", "double")
    if T_ == S:
        inner = v
    elif fT and fS:
        if v.op != ("fpext" if T_ == "double" else "fptrunc"):
            return False
        inner = v.a[0]
    elif fT:
        if v.op != "i2f" or (len(v.a) > 1 and str(v.a[1]).find(T_) < 0):
            return False
        inner = v.a[0]
    elif fS:
        if v.op != "f2i":
            return False
        inner = v.a[0]
    else:
        inner = v
        if T_ == "int" and S == "long" and v.op == "wrap32":
            inner = v.a[0]
        if T_ == "char":
            if v.op != "trunc8":
                return False
            inner = v.a[0]
        elif S == "char":
            if v.op != "sext8":
                return False
            inner = v.a[0]
    return is_part(inner, x) if isinstance(x, tuple) else inner is x


def conversions(R):
    prog = R.program("lube/var.cpp", "lube/func.cpp", "lube/math.cpp")
    for T_ in VALTYPES:
        m = MANGLE[T_]
        for S in VALTYPES:
            key = "cast<%s>{%s}" % (T_, S)
            with R.guard(key, "convert"):
                def setup(r):
                    fs = r.kind(0, S, "scalar")
                    for g in [g for mod in prog.mods for g in mod.globals if "CastI%sE6scalar" % m in g and g.startswith("_ZZ")]:
                        t = mk("global", g)
                        t.ptr = True
                        v = mk("v0", t, ZERO)
                        fs += [eq(mk("m:type", v, ZERO), C(0 if T_ == "cdouble" else TAG[T_])), eq(mk("m:atype", v, ZERO), C(TAG[T_]))]
                    return fs
                r = Run(R, prog, "N6libube4CastI%sEE" % m, "scalar", 2, setup=setup)
                x = mk("m:get", r.c[0], mk("T", S), ZERO)
                V = Verdict(bool(r.rets()))
                out = mk("v0", r.formals[1], ZERO) if len(r.formals) > 1 else None
                for o in r.outs:
                    if o.kind == "unw":
                        V.put(False, "a %s is refused" % S)
                    if o.kind != "ret":
                        continue
                    ev = assigns(o.events())
                    alias = any(b.op == "bool" and any(y.op == "m:is" for y in subterms(b)) for b in o.facts.all())
                    if not ev:
                        if T_ == S and alias:
                            continue           # the result is the argument
                        V.put(False if not [e for e in walk(o.events()) if e.kind in ("method", "call")] else None, "no value is assigned to the result")
                        continue
                    v = ev[-1].args[-1]
                    if v is r.c[0]:
                        V.put(True if T_ == S else False, "the value keeps its type")
                        continue
                    if v.op != "num":
                        V.put(None, "the value is %s" % show(v))
                        continue
                    gty = v.a[0].a[0] if isinstance(v.a[0], T) else v.a[0]
                    if gty != T_:
                        V.put(False, "the result is a %s" % gty)
                        continue
                    w = convert(T_, S, x)
                    y = v.a[1]
                    ys = parts(y) if len(w) == 2 else [unconv(y)]
                    if len(w) == 2 and T_ == S and norm(y) is x:
                        continue
                    if not ys or len(ys) != len(w):
                        V.put(None, "the value is %s" % show(y))
                        continue
                    ys = [unconv(t) for t in ys]
                    ok = all(zero_f(t) if isinstance(u, T) else matches(t, u) for t, u in zip(ys, w))
                    V.put(True if ok else False if clear_h(y) else None, "a %s becomes the %s %s" % (S, T_, show(y)))
                done(R, r, key, V, "convert")
    return prog


def zero_f(t):
    return t.op == "f" and t.a[0] == 0.0


def cast_functors(R, prog):
    """cast<T>() applies the conversion of that type"""
    for ty in VALTYPES:
        key = "var::cast<%s>" % ty
        with R.guard(key, "convert"):
            tn = CPP.get(ty, ty)
            f = vm(prog, r"libube::var::cast<%s ?>\(\) const$" % re.escape(tn))
            r = Run(R, prog, None, None, 0, fn=f)
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                v = o.val
                if v is None and r.sret is not None:
                    v = r.E.load(o.st, r.sret, ESIZE[ty])
                ap = {x for x in subterms(v) if x.op == "m:apply"}
                gets = {x for x in subterms(v) if x.op == "m:get"}
                g = [x.a[0] for x in ap]
                if len(ap) != 1 or len(gets) != 1:
                    V.put(None, "the value is %s" % show(v))
                    continue
                cls = class_of(prog, g[0])
                V.put(None if cls is None else cls == MANGLE[ty], "the conversion applied is %s" % show(g[0]))
                V.put(list(ap)[0].a[1] is r.this, "what is converted is %s" % show(list(ap)[0].a[1]))
                t = list(gets)[0].a[1]
                V.put((t.a[0] if isinstance(t, T) else t) == ty, "the value is read as %s" % show(t))
            done(R, r, key, V, "convert")


def class_of(prog, g):
    """the T of the Cast<T> a global object is"""
    if g.op != "global":
        return None
    for mod in prog.mods:
        for n, f in mod.functions.items():
            if "cxx_global_var_init" not in n:
                continue
            for i in f.instrs():
                if i.op in ("call", "invoke") and i.args and i.args[0][1] == ("global", g.a[0]):
                    m = re.match(r"_ZN6libube4CastI(.+?)EC[12]Ev$", i.x["callee"][1])
                    if m and m.group(1) in MANGLE.values():
                        return m.group(1)
    return None


# ---------------------------------------------------------------- arrays and texts
NUMBERS = ("int", "long", "float", "double", "cfloat", "cdouble")


def array_casts(R, prog):
    """an array is converted element by element, into an array of T of the same shape; a text is read as a T"""
    for T_ in VALTYPES:
        cls = "N6libube4CastI%sEE" % MANGLE[T_]

        def setup(S):
            def f(r):
                fs = r.kind(0, S, "array")
                for g in [g for mod in prog.mods for g in mod.globals if "CastI%sE6scalar" % MANGLE[T_] in g and g.startswith("_ZZ")]:
                    t = mk("global", g)
                    t.ptr = True
                    v = mk("v0", t, ZERO)
                    fs += [eq(mk("m:type", v, ZERO), C(0 if T_ == "cdouble" else TAG[T_])), eq(mk("m:atype", v, ZERO), C(TAG[T_]))]
                return fs
            return f
        for S in NUMBERS + ("var",):
            key = "cast<%s>{array of %s}" % (T_, S)
            with R.guard(key, "arrays"):
                r = Run(R, prog, cls, "scalar", 2, setup=setup(S))
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    V.put(*converted_array(r, o, T_, S))
                done(R, r, key, V, "arrays")
            key = "cast<%s>{array of %s} result" % (T_, S)
            with R.guard(key, "arrays"):
                r = Run(R, prog, cls, "alloc", 1, setup=lambda r: r.kind(0, S, "array"))
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    V.put(*allocated(r, o, T_, S))
                done(R, r, key, V, "arrays")
        key = "cast<%s>{text}" % T_
        with R.guard(key, "texts"):
            r = Run(R, prog, cls, "scalar", 2, setup=setup("char"))
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                V.put(*read_text(r, o, T_))
            done(R, r, key, V, "texts")


def converted_array(r, o, T_, S):
    """the elements of the array are converted into those of the result"""
    out = mk("v0", r.formals[1], ZERO)
    evs = [e for e in walk(o.events()) if e.kind in ("method", "call", "new") or is_assign(e)]
    if any(isinstance(e, Loop) for e in o.events()):
        return None, "the elements are visited by a loop"
    for e in evs:
        if e.kind == "method" and e.name.endswith("::broadcast"):
            a = e.args
            return (True, "") if len(a) == 3 and a[1] is r.c[0] and a[2] is out else (None, "broadcast of %s" % show(a[1]))
    if not evs:
        if T_ == S == "cdouble":
            return True, ""                # the array is its own conversion
        return False, "the elements of an array of %s are not converted" % S
    if S == "cdouble" and o.facts.decide(eq(mk("m:size", r.c[0], ZERO), C(1))) is True:
        return True, ""                    # one complex number, decided by convert
    if T_ == S == "cdouble" and evs[-1].args[-1] is r.c[0]:
        return True, ""
    return None, "the result is %s" % show(evs[-1].args[-1])[:80]


def is_assign(e):
    return e.kind == "var" and e.name == "assign"


def allocated(r, o, T_, S):
    """what the conversion of an array is stored in"""
    a = r.c[0]
    v = r.pol.content(r.E, o.st, r.sret) if r.sret is not None else None
    if v is None:
        return None, "no result"
    if v is a or (v.op == "m:copy" and v.a[0] is a):
        if S in ("var", T_):
            return True, ""
        return False, "the conversion of an array of %s is stored in an array of %s" % (S, S)
    nums = {x.a[0].a[0] if isinstance(x.a[0], T) else x.a[0] for x in subterms(v) if x.op == "num"}
    if not nums:
        return None, "the result is %s" % show(v)[:80]
    if S == "var" and nums == {T_}:
        return False, "an array of vars, which can hold anything, becomes an array of %s" % T_
    if nums != {T_}:
        return (False if T_ not in nums and len(nums) == 1 else None), "the result is an array of %s" % ", ".join(sorted(nums))
    if v.op == "mut" and v.a[0] is mk("k", "resize"):
        n = v.a[3]
        if n is not mk("m:size", a, ZERO):
            return (False if clear(n) else None), "the result has %s elements" % show(n)
        many = mk("m:dim", a, ZERO)
        known = {x.op for b in o.facts.all() for x in subterms(b) if x.op.startswith("m:") and x.a[0] is a}
        if o.facts.decide(eq(many, C(1))) is not True and o.facts.decide(le(many, C(1))) is not True:
            return (None if known - {"m:type", "m:atype", "m:heap", "m:defined", "m:dim", "m:size"} else False), "the conversion of an array of many dimensions has one"
        return True, ""
    if v.op == "m:view":
        if v.a[1] is mk("m:shape", a, ZERO):
            return True, ""
        return None, "the result has the shape %s" % show(v.a[1])
    return None, "the result is %s" % show(v)[:80]


def read_text(r, o, T_):
    """the value is read from the text by a stream that says when there is none"""
    evs = [e for e in walk(o.events()) if e.kind != "read"]
    asg = [e for e in evs if is_assign(e)]
    if not asg:
        others = [e for e in evs if e.kind in ("method", "call")]
        return (None if others else False), "no value is assigned to the result"
    v = asg[-1].args[-1]
    if v.op != "num":
        return (False if v is r.c[0] and T_ != "char" else None), "the value is %s" % show(v)[:80]
    gty = v.a[0].a[0] if isinstance(v.a[0], T) else v.a[0]
    if gty != T_:
        return False, "the result is a %s" % gty
    places = {x.a[0] for x in subterms(v.a[1]) if x.op == "ld"}
    k = [i for i, e in enumerate(evs) if ">>" in e.name and e.args and e.args[-1] in places]
    if len(k) != 1:
        return None, "the value is %s" % show(v)[:80]
    k = k[0]
    state = [e for e in evs if re.search(r"::(fail|good|bad|rdstate|operator!|operator bool|operator void\*)\b|::operator!|::operator bool", e.name)]
    if state:
        return None, "the state of the stream is looked at"
    exc = [e for e in evs[:k] if e.name.split("(")[0].endswith("::exceptions") and len(e.args) == 2]
    if not exc:
        late = [e for e in evs[k:] if e.name.split("(")[0].endswith("::exceptions") and len(e.args) == 2]
        exc = late                         # exceptions() itself throws for the state the stream is in
    if not exc:
        return False, "a text that holds no %s is converted all the same" % T_
    m = exc[-1].args[1]
    bits = bits_of(m)
    if bits is None:
        return None, "the exceptions are %s" % show(m)
    return (bool(bits & 4)), "the stream does not say that a text holds no %s" % T_


def bits_of(m):
    """the value of an ios state"""
    if is_c(m):
        return m.a[0]
    if m.op == "call" and "operator|" in str(m.a[0]):
        b = [bits_of(x) for x in m.a[-2:]]
        return None if None in b else b[0] | b[1]
    return None


def single(R, prog):
    """only an array of one element is read as one value"""
    for ty in VALTYPES:
        key = "var::cast<%s> array" % ty
        with R.guard(key, "arrays"):
            f = vm(prog, r"libube::var::cast<%s ?>\(\) const$" % re.escape(CPP.get(ty, ty)))
            r = Run(R, prog, None, None, 0, fn=f)
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                ap = {x.a[0] for b in o.facts.all() for x in subterms(b) if x.op == "m:heap" and x.a[0].op == "m:apply"}
                for c in ap:
                    if o.facts.decide(eq(mk("m:heap", c), ZERO)) is not False:
                        continue
                    n = mk("m:size", c, ZERO)
                    one = o.facts.decide(eq(n, C(1)))
                    sz = any(x is n for b in o.facts.all() for x in subterms(b))
                    V.put(True if one is True else None if sz else False, "an array of any size is read as one value")
            done(R, r, key, V, "arrays")



def run(R):
    R.rule("read", "element i of an array of type T reads as the T at byte size*i of the storage, for pairs the value or the key as asked")
    R.rule("address", "the address of element i of an array is the storage plus size*i, and that of a view is element i+offset of the array viewed")
    R.rule("write", "an assignment to a reference stores the value cast to the type of the array at the element referred to, and nothing else")
    R.rule("value", "a var is copied and moved unchanged, and a value is read where it is written with the type it has")
    R.rule("convert", "the cast to T is the C++ conversion of the value to T, keeping the imaginary part between complex types and the real one otherwise")
    R.rule("arrays", "the cast of an array converts each element into an array of T of the same shape, an array of vars into one of vars; an array of several elements has no single value")
    R.rule("texts", "the cast of a text is the T read from it, and an error if there is none")
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    read_elements(R, prog)
    dereferences(R, prog)
    dereferenced(R, prog)
    addresses(R, prog)
    writes_through(R, prog)
    copies(R, prog)
    gets(R, prog)
    p2 = conversions(R)
    cast_functors(R, p2)
    array_casts(R, p2)
    single(R, p2)
