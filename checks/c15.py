"""C15 A transform computes in the type and size it was made for.

The constructor of the DFT base class is interpreted for each element type and
direction; its exits are the entry states for alloc(), scalar(), vector() and the
destructor.  Calls of the transform library are primitive: what counts is which
calls happen, in which order and with which arguments, on every path."""
import os
from functor import *
from fcheck import *
from effects import ptr
from c06 import Shape, m, dim, prep
from report import Vanished

UNITS = ("lube/dft-mkl.cpp",)
MIN_DECIDED = 8
CLS = "N6libube7DFTBaseE"
SMART = re.compile(r"std::(unique_ptr|__uniq_ptr|tuple|_Tuple_impl|_Head_base|get|__get_helper|default_delete|forward|move|"
                   r"swap|shared_ptr|make_unique|exchange|addressof|min|max)")
REALS = ("float", "double")
CPX = {"float": "cfloat", "double": "cdouble", "cfloat": "cfloat", "cdouble": "cdouble"}
DFTI_COMPLEX, DFTI_REAL, DFTI_SINGLE, DFTI_DOUBLE = 32, 33, 35, 36
PLACEMENT, INPLACE, NOT_INPLACE = 11, 43, 44
KINDS = {"s": DFTI_SINGLE, "d": DFTI_DOUBLE}


class DftPolicy(FunctorPolicy):
    def inline(self, name, dem):
        if SMART.match(short(dem)) or name.startswith(("_ZNSt5tuple", "_ZNSt10unique_ptr", "_ZNSt15__uniq")):
            return True
        return FunctorPolicy.inline(self, name, dem)

    def special(self, E, st, ins, name, dem, s, args):
        if name.startswith("Dfti") and name not in ("DftiErrorMessage", "DftiErrorClass"):
            s2 = st.copy()
            E.uid += 1
            r = mk("status", mk("k", name), E.uid)
            ev = list(args)
            if name.startswith(("DftiCreate", "DftiCopy")):
                p = args[-1] if name.startswith("DftiCopy") else args[0]
                h = mk("dfti", E.uid)
                h.ptr = True
                E.store(s2, p, 8, h)
                ev[0] = h
            elif name.startswith("DftiFree"):
                ev[0] = E.load(st, args[0], 8, True)
                E.store(s2, args[0], 8, ZERO)
            s2.emit(Ev("dfti", name, tuple(ev), r, ins, s2.facts))
            return [Outcome("ret", r, s2)]
        return FunctorPolicy.special(self, E, st, ins, name, dem, s, args)

    def var_method(self, E, st, ins, name, dem, meth, args):
        # the extent of the last dimension, however it is named
        if meth == "shape" and len(args) == 2:
            c = self.content(E, st, args[0])
            if sub(args[1], mk("m:dim", c, self.sver(st, c))) is C(-1):
                args = [args[0], C(-1)]
        return FunctorPolicy.var_method(self, E, st, ins, name, dem, meth, args)


def dfti(evs):
    return [e for e in walk(evs) if e.kind == "dfti"]


def odd(evs):
    """effects the rules know nothing about"""
    return [e for e in walk(evs) if e.kind in ("call", "store", "blas", "mkl", "JOIN", "functor", "stdsort") and e.name != "DftiErrorMessage"]


def okterm(t):
    return all(x.op in ("c", "iarg", "aff", "mul", "sdiv", "m:size", "m:shape", "m:atype", "v0", "arg", "k", "b2i", "f", "dfti", "srem", "lshr",
                        "ashr", "shr") for x in subterms(t))


def ctor_fn(P):
    h = [P.defs[f] for f in P.defs if short(P.dem(f)) == "libube::DFTBase::DFTBase" and len(sig_args(P.dem(f))) == 3]
    if not h:
        raise Vanished("no constructor DFTBase(int, bool, var)")
    return h[0]


def dtor_fn(P):
    h = [P.defs[f] for f in P.defs if short(P.dem(f)) == "libube::DFTBase::~DFTBase"]
    if not h:
        raise Vanished("no destructor of DFTBase")
    return h[0]


def plan(r, o, ty, n):
    """one descriptor of the right kind, out of place, committed"""
    ev = dfti(o.events())
    bad = odd(o.events())
    cr = [e for e in ev if e.name.startswith("DftiCreate")]
    if not cr:
        return (None if bad else False), "no descriptor is created"
    if len(cr) > 1:
        return None, "several descriptors"
    c = cr[0]
    mm = re.match(r"DftiCreateDescriptor_([sd])_1d$", c.name)
    if mm:
        prec, dom, d, size = KINDS[mm.group(1)], c.args[1], 1, c.args[2]
    elif c.name == "DftiCreateDescriptor" and len(c.args) >= 5 and is_c(c.args[1]) and is_c(c.args[3]):
        prec, dom, d, size = c.args[1].a[0], c.args[2], c.args[3].a[0], c.args[4]
    elif re.match(r"DftiCreateDescriptor_[sd]_md$", c.name) and len(c.args) >= 3 and is_c(c.args[2]) and c.args[2] is not ONE:
        return False, "%s: a transform of %d dimensions" % (c.where(), c.args[2].a[0])
    else:
        return None, c.name
    if not is_c(dom):
        return None, "domain %s" % show(dom)
    want = (DFTI_SINGLE if ty in ("float", "cfloat") else DFTI_DOUBLE, DFTI_REAL if ty in REALS else DFTI_COMPLEX, 1)
    if (prec, dom.a[0], d) != want:
        return False, "%s: a %s %s transform of %d dimensions for elements of type %s" % (
            c.where(), {35: "single", 36: "double"}.get(prec, prec), {32: "complex", 33: "real"}.get(dom.a[0], dom.a[0]), d, ty)
    if size is not n:
        return (False if okterm(size) else None), "%s: size %s" % (c.where(), show(size))
    h = c.args[0]
    place, done = None, False
    for e in ev[ev.index(c) + 1:]:
        if e.name.startswith("DftiFree") and e.args[0] is h:
            return False, "%s: the descriptor is released while the object lives" % e.where()
        if e.args[0] is not h:
            return None, "another descriptor"
        if e.name == "DftiSetValue" and is_c(e.args[1]):
            if e.args[1].a[0] == PLACEMENT:
                place = e.args[2]
                done = False
            else:
                return None, "sets parameter %s" % show(e.args[1])
        elif e.name == "DftiCommitDescriptor":
            done = True
        else:
            return None, e.name
    if place is None or is_c(place) and place.a[0] != NOT_INPLACE:
        return False, "the transform overwrites its argument"
    if not is_c(place):
        return None, "placement %s" % show(place)
    if not done:
        return False, "the descriptor is not committed after it was configured"
    dims = r.E.load(o.st, add(arg(0), C(8)), 4)
    if dims is not ONE:
        return (False if is_c(dims) else None), "the operation is broadcast over %s dimensions" % show(dims)
    for e in ev:
        d = o.facts.decide(eq(e.res, ZERO))
        if d is not True:
            return False if d is False or not bad and not [b for b in o.facts.all() if e.res in subterms(b)] else None, \
                "%s: a failure of %s goes unnoticed" % (e.where(), e.name)
    return True, "%s, out of place, committed, every status checked" % c.name


def released(r, o):
    """a descriptor that was created does not survive a constructor that throws"""
    ev = dfti(o.events())
    cr = [e for e in ev if e.name.startswith("DftiCreate")]
    fr = [e.args[0] for e in ev if e.name.startswith("DftiFree")]
    for e in cr:
        if o.facts.decide(eq(e.args[0], ZERO)) is True or o.facts.decide(eq(e.res, ZERO)) is False:
            continue
        n = sum(1 for x in fr if x is e.args[0])
        if n == 0:
            bad = odd(o.events())
            return (None if bad else False), "%s: the descriptor is lost if the constructor fails" % e.where()
        if n > 1:
            return False, "%s: the descriptor is released twice" % e.where()
    return True, "released" if cr else "none yet"


def carry(o, E):
    """entry state of a method: the object as the constructor left it"""
    def prep(q):
        q.st.mem = dict(o.st.mem)
        q.st.mem.pop(arg(1), None)
        q.st.aux.update({k: v for k, v in o.st.aux.items() if k[0] in ("v", "s", "e") and not (k[0] == "v" and k[1] in q.formals)})
        nf = q.st.facts
        for b in o.facts.all():
            x = nf.assume(b)
            nf = x if x is not None else nf
        q.st.facts = nf
        q.E.uid = max(q.E.uid, E.uid) + 1000
        q.made = o
    return prep


def renamed(o, E, r):
    """the constructor's formals under names of their own"""
    return o


def vec(o, r, h, inv, ti, to):
    """one transform from the input at its offset to the output at its offset"""
    ev = dfti(o.events())
    bad = odd(o.events()) + [e for e in walk(o.events()) if e.kind == "var" and not e.name.startswith("elem.")] + \
        [e for e in walk(o.events()) if isinstance(e, Loop)]
    cp = [e for e in ev if e.name.startswith("DftiCompute")]
    if not cp:
        return (None if bad or ev else False), "nothing is computed"
    if len(cp) > 1 or len(ev) > 1:
        return None, "several library calls"
    e = cp[0]
    wantn = "DftiComputeBackward" if inv else "DftiComputeForward"
    if e.name != wantn:
        return False, "%s: %s instead of %s" % (e.where(), e.name, wantn)
    if e.args[0] is not h:
        return (None if bad else False) if okterm(e.args[0]) else None, "%s: descriptor %s" % (e.where(), show(e.args[0]))
    if len(e.args) < 3:
        return False, "%s: in place" % e.where()
    for what, g, w, c, off, t in (("from", e.args[1], ptr(r.c[0], ti, r.c[1]), r.c[0], r.c[1], ti),
                                  ("to", e.args[2], ptr(r.c[2], to, r.c[3]), r.c[2], r.c[3], to)):
        if g is w:
            continue
        b = [x for x in lin(g)[1] if x.op == "m:ptr"]
        same = len(b) == 1 and g.op in ("m:ptr", "aff") and all(
            x.op in ("m:ptr", "v0", "arg", "T", "k", "iarg", "c", "aff", "mul") for x in subterms(g))
        # the same address through another type
        if same and len(b) == 1 and b[0].a[0] is c and addr_of(g) is addr_of(w) and addr_of(g) is not None:
            continue
        return (False if same and not bad else None), "%s: transforms %s %s, expected %s" % (e.where(), what, show(g), show(w))
    d = o.facts.decide(eq(e.res, ZERO))
    if d is not True:
        return (False if d is False or not [b for b in o.facts.all() if e.res in subterms(b)] else None), "%s: a failure goes unnoticed" % e.where()
    if bad:
        return None, "further effects: %s" % str(bad[0])[:80]
    return True, "%s(%s, %s)" % (e.name, show(e.args[1]), show(e.args[2]))


def addr_of(g):
    """byte offset of a pointer into an array"""
    c, d = lin(g)
    off = C(c)
    for x, k in d.items():
        if x.op == "m:ptr":
            if k != 1 or len(x.a) < 2:
                return None
            t = x.a[1].a[0]
            if len(x.a) > 2:
                off = add(off, scale(x.a[2], SIZEOF.get(t, 0)))
        else:
            off = add(off, scale(x, k))
    return off


def apply_(o, r, inv, n):
    """every vector is transformed once; the inverse is divided by the size"""
    evs = [e for e in walk(o.events()) if e.kind in ("method", "call", "store", "blas", "mkl", "dfti", "functor", "JOIN") or
           e.kind == "var" and not e.name.startswith("elem.")]
    ms = [e for e in evs if e.kind == "method" and e.name.endswith("::broadcast")]
    loops = [e for e in o.events() if isinstance(e, Loop)]
    if not ms:
        return (False if not evs and not loops else None), "nothing is transformed"
    if len(ms) > 1:
        return None, "several broadcasts"
    b = ms[0]
    if b.args[1] is not r.c[0] or b.args[2] is not r.c[1]:
        ok = all(x in (r.c[0], r.c[1]) for x in b.args[1:])
        return (False if ok else None), "%s: transforms %s into %s" % (b.where(), show(b.args[1]), show(b.args[2]))
    rest = [e for e in evs if e is not b]
    if not inv:
        if not rest and not loops:
            return True, "broadcast(input, output)"
        s = [e for e in rest if e.kind == "var" and e.name in ("operator/=", "operator*=", "operator+=", "operator-=") and e.args[0] is r.c[1]]
        if s and len(rest) == 1:
            return False, "%s: a forward transform is scaled" % s[0].where()
        return None, "further effects: %s" % str((rest + loops)[0])[:80]
    if not rest and not loops:
        return False, "the inverse is not divided by its size"
    if len(rest) == 1 and not loops and rest[0].kind == "var" and rest[0].name == "operator/=":
        e = rest[0]
        order = [x for x in walk(o.events()) if x is e or x is b]
        if e.args[0] is not r.c[1]:
            return (False if e.args[0] is r.c[0] else None), "%s: divides %s" % (e.where(), show(e.args[0]))
        if order[0] is not b:
            return False, "%s: divided before it is computed" % e.where()
        x = e.args[1]
        if x.op == "num" and x.a[0] in ("int", "long", "float", "double"):
            v = x.a[1]
            while v.op in ("i2f", "sitofp", "fpext") and isinstance(v.a[-1], T):
                v = v.a[-1]
            if v is n:
                return True, "broadcast, then divided by the size"
            return (False if okterm(v) else None), "%s: divided by %s, not by the size" % (e.where(), show(v))
    return None, "effects: %s" % [str(e)[:60] for e in rest + loops][:3]


def alloc(o, r, n, ty):
    v = o.st.aux.get(("v", r.sret))
    if v is None:
        return None, "no result"
    if v.op == "nil":
        return False, "nothing is allocated"
    if v.op != "m:free.view" or len(v.a) < 2:
        return None, show(v)
    S, iv = v.a[0], v.a[1]
    if S is not m("shape", r.c[0]):
        return None, "shape %s" % show(S)
    if iv.op == "num" and iv.a[0] in SIZEOF:
        if iv.a[0] != ty:
            return False, "allocates elements of type %s, not %s" % (iv.a[0], ty)
    else:
        d = o.facts.decide(eq(mk("m:atype", iv, ZERO), C(TAG[ty])))
        if d is not True:
            k = [t for t in TYPES if o.facts.decide(eq(mk("m:atype", iv, ZERO), C(TAG[t]))) is True]
            return (False if k or iv.op == "nil" else None), "allocates elements of the type of %s (%s), not %s" % (show(iv), k, ty)
    sh = Shape(o, S, r.c[0])
    if not sh.ok:
        return None, "shape"
    for i in set(sh.val) | {C(-1)}:
        g = sh.get(i)
        w = n if i is C(-1) else mk("sh", i)
        if g is not w:
            return (False if is_c(i) and (okterm(g) or g.op == "sh") else None), "extent %s becomes %s, expected %s" % (show(i), show(g), show(w))
    return True, "shape of the argument with last extent %s, elements of type %s" % (show(n), ty)


def refused(R, key, r, what):
    """nothing is computed: an exception"""
    for o in r.outs:
        if o.kind == "ret":
            ev = [e for e in walk(o.events()) if e.kind in ("method", "dfti")]
            bad = odd(o.events())
            und = bad or [e for e in o.events() if isinstance(e, Loop)] or \
                [b for b in set(o.facts.all()) - set(r.st.facts.all()) if not okfact(b)]
            if ev and not und:
                return R.ob(key, False, "%s: %s is transformed" % (ev[0].where(), what), r.dem, "guard")
            if not ev and not und:
                return R.ob(key, False, "%s is ignored without notice" % what, r.dem, "guard")
            return R.ob(key, None, "not decided for %s" % what, r.dem, "guard")
    if not r.throws():
        return R.ob(key, None, "no outcome", r.dem, "guard")
    return R.ob(key, True, "%s throws" % what, r.dem, "guard")


def okfact(b):
    return all(okterm(x) for x in b.a if isinstance(x, T)) if b.op in ("eq0", "le0", "bool") else \
        okfact(b.a[0]) if b.op == "not" else False


def array(q, i, ty):
    v = q.c[i]
    return [mk("bool", mk("m:defined", v, ZERO)), eq(mk("m:atype", v, ZERO), C(TAG[ty])), eq(mk("m:type", v, ZERO), ZERO),
            NOT(eq(mk("m:heap", v), ZERO)), le(ONE, mk("m:dim", v, ZERO))]


def ext(q, i, n, same=True):
    s = mk("m:shape", q.c[i], C(-1), ZERO)
    return eq(s, n) if same else NOT(eq(s, n))


def one(R, P, ty, inv):
    name = ("IDFT." if inv else "DFT.") + ty
    n = mk("iarg", "n")
    half = None
    fn = ctor_fn(P)

    def mkrun(unwind):
        def setup(q):
            return [eq(q.c[1], C(inv)), eq(mk("m:atype", q.c[2], ZERO), C(TAG[ty]))]

        def pre(q):
            # names that no method's formals have
            t = mk("v0", arg(93), ZERO)
            q.pol.setc(q.st, q.formals[2], t)
            q.c[2] = t
            k0 = 1
            q.args[k0] = n
            q.c[0] = n
        return Run(R, P, None, None, 3, setup, policy=DftPolicy, unwind=unwind, fn=fn, prep=pre)
    key = name + ".plan"
    made = []
    with R.guard(key, "plan"):
        r = mkrun(False)
        verdict_all(R, key, r, lambda o: plan(r, o, ty, n), "plan", True)
        made = [(o, r.E) for o in r.rets() if [e for e in dfti(o.events()) if e.name.startswith("DftiCreate")]]
    key = name + ".failed"
    with R.guard(key, "release"):
        r = mkrun(True)
        res = [released(r, o) for o in r.throws()]
        bad = [x for x in res if x[0] is False]
        R.ob(key, False if bad else None if not res or any(x[0] is None for x in res) else True,
             (bad or res or [(0, "no exception")])[0][1], r.dem, "release")
    if len(made) != 1:
        R.ob(name + ".methods", None, "%d ways to construct" % len(made), "", "compute")
        return
    o0, E0 = made[0]
    pre = carry(o0, E0)
    h = [e for e in dfti(o0.events()) if e.name.startswith("DftiCreate")][0].args[0]
    half = add(sdiv_(n, 2), ONE)
    real = ty in REALS
    ti, to = (CPX[ty], ty) if inv else (ty, CPX[ty])
    ni = half if real and inv else n
    no = half if real and not inv else n

    key = name + ".vector"
    with R.guard(key, "compute"):
        r = Run(R, P, CLS, "vector", 4, lambda q: array(q, 0, ti) + array(q, 2, to) + distinct(q, 0, 2), policy=DftPolicy, prep=pre)
        verdict_all(R, key, r, lambda o: vec(o, r, h, inv, ti, to), "compute", True)
    key = name + ".vector.inplace"
    with R.guard(key, "guard"):
        r = Run(R, P, CLS, "vector", 4, lambda q: array(q, 0, ti) + distinct(q, 0, 2), policy=DftPolicy, prep=pre, alias={2: 0})
        if all(o.kind == "unw" for o in r.outs) and r.outs:
            R.ob(key, True, "an array cannot be its own transform: throws", r.dem, "guard")
        else:
            # the plan is out of place
            cp = [e for o in r.rets() for e in dfti(o.events()) if e.name.startswith("DftiCompute")]
            clash = [e for e in cp if len(e.args) < 3 or e.args[1] is e.args[2]]
            R.ob(key, False if clash else None, "%s: an out of place transform is applied in place" % clash[0].where() if clash else "may return",
                 r.dem, "guard")
    key = name + ".apply"
    with R.guard(key, "compute"):
        r = Run(R, P, CLS, "scalar", 2, lambda q: array(q, 0, ti) + array(q, 1, to) + distinct(q, 0, 1) + [ext(q, 0, ni), ext(q, 1, no)],
                policy=DftPolicy, prep=pre)
        verdict_all(R, key, r, lambda o: apply_(o, r, inv, n), "compute")
    for t in TYPES:
        for i, w, what in ((0, ti, "input"), (1, to, "output")):
            if t == w:
                continue
            key = "%s.%s.%s" % (name, what, t)
            with R.guard(key, "guard"):
                r = Run(R, P, CLS, "scalar", 2, lambda q: array(q, 0, t if i == 0 else ti) + array(q, 1, t if i == 1 else to) + distinct(q, 0, 1) +
                        [ext(q, 0, ni), ext(q, 1, no)], policy=DftPolicy, prep=pre)
                refused(R, key, r, "an %s of type %s" % (what, t))
    for i, what in ((0, "input"), (1, "output")):
        key = "%s.%s.size" % (name, what)
        with R.guard(key, "guard"):
            r = Run(R, P, CLS, "scalar", 2, lambda q: array(q, 0, ti) + array(q, 1, to) + distinct(q, 0, 1) +
                    [ext(q, 0, ni, i != 0), ext(q, 1, no, i != 1)], policy=DftPolicy, prep=pre)
            refused(R, key, r, "an %s of another size" % what)
    key = name + ".alloc"
    with R.guard(key, "alloc"):
        r = Run(R, P, CLS, "alloc", 1, lambda q: array(q, 0, ti), policy=DftPolicy, prep=pre)
        verdict_all(R, key, r, lambda o: alloc(o, r, no, to), "alloc")
    key = name + ".destroyed"
    with R.guard(key, "release"):
        r = Run(R, P, None, None, 0, lambda q: [], policy=DftPolicy, prep=pre, fn=dtor_fn(P))
        res = []
        for o in r.rets():
            if o.facts.decide(eq(h, ZERO)) is True:
                continue
            fr = [e for e in dfti(o.events()) if e.name.startswith("DftiFree")]
            if len(fr) == 1 and fr[0].args[0] is h:
                res.append((True, "the descriptor is released once"))
            elif odd(o.events()):
                res.append((None, "calls %s" % odd(o.events())[0].name))
            elif not fr:
                res.append((False, "the descriptor is not released"))
            else:
                res.append((False if len([x for x in fr if x.args[0] is h]) > 1 else None, "releases %s" % [show(x.args[0]) for x in fr]))
        v = False if any(x[0] is False for x in res) else None if not res or any(x[0] is None for x in res) else True
        R.ob(key, v, ([x for x in res if x[0] is v] or [(0, "no outcome")])[0][1], r.dem, "release")


def sdiv_(a, k):
    return mk("sdiv", a, C(k))


class ClassPolicy(DftPolicy):
    def special(self, E, st, ins, name, dem, s, args):
        if s in ("libube::DFTBase::DFTBase", "libube::DFTBase::~DFTBase"):
            s2 = st.copy()
            recv, av = self.decode(E, st, ins, dem, args, True, False)
            s2.emit(Ev("made" if "~" not in s else "gone", s, (recv,) + tuple(av), None, ins, s2.facts))
            return [Outcome("ret", None, s2)]
        return DftPolicy.special(self, E, st, ins, name, dem, s, args)


def classes(R):
    """DFT is the forward transform and IDFT the inverse, of single precision unless told otherwise"""
    P = R.program(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib", "probe", "dft.cpp"))
    for fnm, inv, nargs in (("probe_dft", 0, 2), ("probe_idft", 1, 2), ("probe_dft1", 0, 1), ("probe_idft1", 1, 1)):
        key = "%s.construct%s" % ("IDFT" if inv else "DFT", "" if nargs == 2 else ".default")
        with R.guard(key, "plan"):
            r = Run(R, P, None, None, nargs, lambda q: [], policy=ClassPolicy, fn=[P.defs[f] for f in P.defs if short(P.dem(f)) == fnm][0])

            def f(o):
                mk_ = [e for e in walk(o.events()) if e.kind == "made"]
                if len(mk_) != 1 or odd(o.events()):
                    return None, "not one object"
                a = mk_[0].args
                if a[1] is not r.c[0]:
                    return (False if okterm(a[1]) else None), "size %s" % show(a[1])
                if not is_c(a[2]) or a[2].a[0] not in (0, 1):
                    return None, "direction %s" % show(a[2])
                if a[2].a[0] != inv:
                    return False, "the transform is constructed with inverse=%s" % a[2].a[0]
                t = a[3]
                if nargs == 2:
                    return (True, "forward type as given") if t is r.c[1] else (False if t.op in ("num", "nil") else None, "type of %s" % show(t))
                if t.op == "num" and t.a[0] in SIZEOF:
                    return t.a[0] == "float", "default element type %s" % t.a[0]
                return (False if t.op == "nil" else None), "default type %s" % show(t)
            verdict_all(R, key, r, f, "plan")


def unknown_type(R, P):
    for inv in (0, 1):
        for t in ("char", "int", "long", "var", "pair"):
            key = "%s.%s" % ("IDFT" if inv else "DFT", t)
            with R.guard(key, "guard"):
                r = Run(R, P, None, None, 3, lambda q: [eq(q.c[1], C(inv)), eq(mk("m:atype", q.c[2], ZERO), C(TAG[t]))], policy=DftPolicy, fn=ctor_fn(P))
                rt = r.rets()
                if rt:
                    R.ob(key, None if odd(rt[0].events()) else False, "a transform of elements of type %s is constructed" % t, r.dem, "guard")
                else:
                    R.ob(key, True, "throws", r.dem, "guard")


def run(R):
    R.rule("plan", "the constructor creates one descriptor with the precision and domain of the element type and the given size, out of place, "
                   "commits it, and throws if any of the calls reports an error")
    R.rule("compute", "each vector is transformed once, forward or backward as the class says, from the input at its offset to the output at its "
                      "offset, with the object's own descriptor; only the inverse is divided, by the size; a reported error throws")
    R.rule("guard", "arguments of another type or size than the descriptor's, an argument that is its own output, and element types that have no "
                    "transform are refused by an exception")
    R.rule("alloc", "the result has the shape of the argument with the last extent and the type of the transform's output")
    R.rule("release", "the descriptor is released exactly once: by the destructor, or when the constructor fails")
    R.assumptions.append("the transform library computes what its descriptor says")
    P = R.program(*UNITS)
    tasks = [lambda R, ty=ty, inv=inv: one(R, P, ty, inv) for ty in ("float", "double", "cfloat", "cdouble") for inv in (0, 1)]
    tasks.append(lambda R: unknown_type(R, P))
    tasks.append(classes)
    R.parallel(tasks)
