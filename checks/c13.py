"""C13: equality and order of values agree"""
import itertools
from seqm import *
from report import *
from loops import closed, all_loops
import c02
from c02 import Verdict
from c08 import V0, A1, HP, DEF
from c10 import clr
from fcheck import PROBE

MIN_DECIDED = 18
REL = {"lt": (0, 1), "eq": (0, 0), "gt": (1, 0)}
SIMPLE = ("char", "int", "long", "float", "double")


# ------------------------------------------------ truth of a term in a world
def value(t, W):
    """the term where the world W gives its leaves; None when it does not"""
    r = W(t)
    if r is not None:
        return r
    if t.op == "c":
        return t.a[0]
    if t.op == "aff":
        s = t.a[0]
        for q, x in t.a[1]:
            q, x = (x, q) if isinstance(q, T) else (q, x)
            v = value(x, W)
            if v is None:
                return None
            s += q * v
        return s
    if t.op == "le0":
        v = value(t.a[0], W)
        return None if v is None else v <= 0
    if t.op == "eq0":
        v = value(t.a[0], W)
        return None if v is None else v == 0
    if t.op == "not":
        v = value(t.a[0], W)
        return None if v is None else not v
    if t.op in ("wrap32", "wrap64"):
        v = value(t.a[0], W)
        if v is None:
            return None
        h = 1 << (int(t.op[4:]) - 1)
        return (v + h) % (2 * h) - h
    if t.op in ("bool", "b2i") or t.op.startswith("sext") or t.op.startswith("zext") or t.op == "fpext":
        return value(t.a[0], W)
    if t.op == "fcmp":
        x, y = value(t.a[1], W), value(t.a[2], W)
        if x is None or y is None:
            return None
        p = str(t.a[0].a[0] if isinstance(t.a[0], T) else t.a[0])[1:]
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}.get(p)
    if t.op in ("fsub", "fadd", "fmul", "fdiv") and len(t.a) == 2:
        x, y = value(t.a[0], W), value(t.a[1], W)
        if x is None or y is None or t.op == "fdiv" and y == 0:
            return None
        return x - y if t.op == "fsub" else x + y if t.op == "fadd" else x * y if t.op == "fmul" else x / y
    if t.op in ("fneg", "fn:abs", "fn:fabs") and len(t.a) == 1:
        x = value(t.a[0], W)
        return None if x is None else -x if t.op == "fneg" else abs(x)
    if t.op == "f":
        return t.a[0]
    if t.op in ("and", "or", "xor") and len(t.a) == 2:
        x, y = value(t.a[0], W), value(t.a[1], W)
        if x is None or y is None:
            return None
        return {"and": x and y, "or": x or y, "xor": bool(x) != bool(y)}[t.op]
    return None


def holds(facts, W, skip=()):
    """True: all facts hold in the world; False: one does not; None: unknown"""
    v = True
    for x in facts.all():
        if any(x is s for s in skip):
            continue
        r = value(x, W)
        if r is None:
            v = None
        elif not r:
            return False
    return v


def decide(outs, W, V, want, what, odd=()):
    """every outcome possible in the world gives what is wanted (None: no exception of
    its own is wanted either, but any answer)"""
    got = set()
    for o in outs:
        h = holds(o.facts, W)
        if h is False:
            continue
        if o.kind == "unw":
            if any(e.kind == "throw" for e in walk(o.events())):
                V.put(False if h and not odd else None, "%s: refused" % what)
            continue
        if o.kind != "ret":
            continue
        r = value(o.val, W)
        if r is None or h is None:
            V.put(None, "%s: %s" % (what, show(o.val)))
            got.add(None)
            continue
        got.add(bool(r))
        if want is not None:
            V.put(True if bool(r) == want else False if not odd else None, "%s: gives %s" % (what, bool(r)))
    return got


# ------------------------------------------------ values
T0, T1 = m("type", V0), m("type", A1)
S0, S1 = m("size", V0), m("size", A1)


def leaf_get(t):
    """(side, type, part) of a read value"""
    part = "v"
    if t.op in ("xv", "ext"):
        part = {0: "re", 1: "im", 4: "im", 8: "im"}.get(t.a[1].a[0] if isinstance(t.a[1], T) else t.a[1])
        t = t.a[0]
    elif t.op == "fn:abs":
        part, t = "abs", t.a[0]
    if t.op != "m:get" or part is None:
        return None
    side = 0 if t.a[0] is V0 else 1 if t.a[0] is A1 else None
    return (side, t.a[1].a[0].a[0] if isinstance(t.a[1].a[0], T) else t.a[1].a[0], part)


def world(ty, vals=None, sizes=(1, 1), heaps=(1, 1), hop=None, types=None, bad=None):
    tg = types or (TAG.get(ty, 0), TAG.get(ty, 0))

    def W(t):
        if t.op == "m:type":
            return tg[0] if t.a[0] is V0 else tg[1] if t.a[0] is A1 else None
        if t.op == "m:atype":
            return None
        if t.op == "m:size":
            return sizes[0] if t.a[0] is V0 else sizes[1] if t.a[0] is A1 else None
        if t.op == "m:heap":
            return heaps[0] if t.a[0] is V0 else heaps[1] if t.a[0] is A1 else None
        if t.op == "m:defined":
            if tg[0] != 0:
                return True
            return bool(heaps[0]) if t.a[0] is V0 else bool(heaps[1]) if t.a[0] is A1 else None
        if t.op in ("h:neq", "h:lt"):
            ok = t.a[0] is mk("m:heap", V0) and t.a[1] is mk("m:heap", A1)
            back = t.a[1] is mk("m:heap", V0) and t.a[0] is mk("m:heap", A1)
            if hop is None:
                return None
            if ok:
                return hop[t.op]
            if back:
                return hop.get(t.op + "'")
            return None
        l = leaf_get(t)
        if l and l[0] is not None and vals:
            if l[1] != ty:
                if bad is not None:
                    bad.append(l[1])
                return None
            return vals.get((l[0], l[2]))
        return None
    return W


def complexes():
    """relations of magnitude, real and imaginary part that two complex values can have"""
    for a, r, i in itertools.product(REL, REL, REL):
        if r == "eq" and i == "eq" and a != "eq":
            continue
        yield a, r, i, {(s, p): REL[x][s] for s in (0, 1) for p, x in (("abs", a), ("re", r), ("im", i))}


class Exact(SeqPolicy):
    """differences and narrowed values may not be what they seem"""
    exact = True


def fact_types(a, b):
    return lambda r: [eq(T0, C(a)), eq(T1, C(b))]


def values(R, prog):
    for meth in ("operator!=", "operator<"):
        f = var_fn(prog, meth, nargs=1)
        lt = meth == "operator<"
        for ty in SIMPLE + ("cfloat", "cdouble"):
            k = "var::%s{%s}" % (meth, ty)
            with R.guard(k, "order" if lt else "equal"):
                r = SeqRun(R, prog, f, setup=fact_types(TAG[ty], TAG[ty]), policy=Exact)
                V = Verdict(bool(r.rets()))
                odd = [e for o in r.outs for e in walk(o.events()) if e.kind == "call"] + list(r.E.warn)
                bad = []
                if ty in SIMPLE:
                    for n, xy in REL.items():
                        for d in (1, 2, 1000) + (("tiny", "near") if ty in ("float", "double") else ()) + ((1 << 31, 1 << 32, 1 << 62, "span") if ty == "long" else ("span",) if ty == "int" else ()):
                            vals = {(s, "v"): xy[s] * 2.0 ** -100 if d == "tiny" else 1 + xy[s] * 2.0 ** (-20 if ty == "float" else -50) if d == "near" else xy[s] * d if d != "span" else (2 * xy[s] - 1 if n != "eq" else 1) * ((1 << (63 if ty == "long" else 31)) - 1)
                                    for s in (0, 1)}
                            decide(r.outs, world(ty, vals, bad=bad), V, n == "lt" if lt else n != "eq", "%s values" % n, odd)
                else:
                    res = {}
                    for a, re_, im, vals in complexes():
                        want = (None if a == "eq" else a == "lt") if lt else not (re_ == im == "eq")
                        if not lt:
                            # values are compared as wholes
                            for s in (0, 1):
                                vals[(s, "v")] = (vals[(s, "re")], vals[(s, "im")])
                        got = decide(r.outs, world(ty, vals, bad=bad), V, want, "magnitude %s, real part %s, imaginary part %s" % (a, re_, im), odd)
                        res[a, re_, im] = got
                    inv = {"lt": "gt", "gt": "lt", "eq": "eq"}
                    for (a, re_, im), got in res.items():
                        if lt and a == "eq" and None not in got:
                            rev = res[a, inv[re_], inv[im]]
                            if None in rev or len(got) != 1 or len(rev) != 1:
                                continue
                            x, y = list(got)[0], list(rev)[0]
                            ok = not (x or y) if re_ == im == "eq" else x != y
                            V.put(True if ok else False if not odd else None, "values of the same magnitude that differ are %s" % (
                                "each less than the other" if x and y else "not ordered"))
                if bad and V.v is not False:
                    V.put(False, "values of type %s are read as %s" % (ty, bad[0]))
                c02.done(R, r, k, V, "order" if lt else "equal")
        with R.guard("var::%s{types}" % meth, "order" if lt else "equal"):
            V = Verdict()
            less = {}
            for a, b in itertools.permutations(range(0, 8), 2):
                r = SeqRun(R, prog, f, setup=fact_types(a, b))
                g = set()
                for hs in ((1, 1),) if a and b else ((0, 1), (1, 1)) if a == 0 else ((1, 0), (1, 1)):
                    for ss in ((1, 1), (1, 2), (2, 1)):
                        if any(s != 1 and t for s, t in zip(ss, (a, b))):
                            continue
                        g |= decide(r.outs, world(None, types=(a, b), sizes=ss, heaps=hs), V, None if lt else True, "types %d and %d" % (a, b))
                less[a, b] = g
            if lt and all(len(g) == 1 and None not in g for g in less.values()):
                L = {k for k, g in less.items() if list(g)[0]}
                for a, b in itertools.combinations(range(0, 8), 2):
                    V.put(((a, b) in L) != ((b, a) in L), "values of types %d and %d are %s" % (a, b, "each less than the other" if (a, b) in L else "not ordered"))
                for a, b, c in itertools.permutations(range(0, 8), 3):
                    if (a, b) in L and (b, c) in L:
                        V.put((a, c) in L, "types %d, %d and %d are ordered in a circle" % (a, b, c))
            elif lt:
                V.put(None, "the order of types is not decided")
            c02.done(R, r, "var::%s{types}" % meth, V, "order" if lt else "equal")
        k = "var::%s{arrays}" % meth
        with R.guard(k, "order" if lt else "equal"):
            r = SeqRun(R, prog, f, setup=fact_types(0, 0))
            V = Verdict(bool(r.rets()))
            odd = [e for o in r.outs for e in walk(o.events()) if e.kind == "call"] + list(r.E.warn)
            for h0, h1 in itertools.product((0, 1), (0, 1)):
                for s0, s1 in ((0, 0), (1, 1), (1, 2), (2, 1), (0, 1), (1, 0)):
                    if not h0 and s0 or not h1 and s1:
                        continue
                    for x in (False, True):
                        hop = {"h:lt": x, "h:neq": x, "h:neq'": x}
                        if lt:
                            hop["h:lt'"] = False if x else None
                        if lt:
                            want = x if h0 and h1 else bool(h1 and not h0)
                        else:
                            want = True if h0 and h1 and s0 != s1 else x if h0 and h1 else bool(h0 != h1)
                            if s0 != s1 and h0 and h1 and neq_sizes(R, prog):
                                hop = {"h:neq": True, "h:neq'": True}
                        decide(r.outs, world(None, sizes=(s0, s1), heaps=(h0, h1), hop=hop), V, want,
                               "%s, %s%s" % ("array of %d" % s0 if h0 else "nil", "array of %d" % s1 if h1 else "nil",
                                             " whose elements %s" % ("differ" if x and not lt else "are less" if x else "are equal") if h0 and h1 else ""), odd)
            c02.done(R, r, k, V, "order" if lt else "equal")


def derived(R):
    """the other comparisons follow from these two"""
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp", PROBE)
    spec = {"operator==": lambda e, l, g: e, "operator>": lambda e, l, g: g, "operator<=": lambda e, l, g: l or e, "operator>=": lambda e, l, g: g or e}
    for meth, sp in spec.items():
        k = "var::" + meth
        with R.guard(k, "derived"):
            r = SeqRun(R, prog, var_fn(prog, meth, nargs=1))
            V = Verdict(bool(r.rets()))
            odd = [e for o in r.outs for e in walk(o.events()) if e.kind == "call"] + list(r.E.warn)
            for n, (e, l, g) in {"equal": (1, 0, 0), "less": (0, 1, 0), "greater": (0, 0, 1)}.items():
                def W(t):
                    if t.op not in ("m:==", "m:<"):
                        return None
                    a, b = t.a[:2]
                    if {a, b} != {V0, A1}:
                        return None
                    if t.op == "m:==":
                        return bool(e)
                    return bool(l) if a is V0 else bool(g)
                decide(r.outs, W, V, bool(sp(e, l, g)), n + " values", odd)
            c02.done(R, r, k, V, "derived")


# ------------------------------------------------ arrays
class Elems(HeapPolicy):
    """elements, keys, size and type of this array are as abstract as those of the other"""
    PURE = ("at", "key", "size", "type")

    def vcall(self, E, st, ins, c, slot, args):
        nm = self.slots[slot] if slot < len(self.slots) else None
        g = self.prog.defs.get(nm) if nm else None
        if g is not None:
            g.params
            mt = short(self.prog.dem(nm)).split("::")[-1]
            if mt in self.PURE and args[1 if g.sret else 0] is self.this_obj:
                return self.hcall(E, st, ins, mt, args, self.prog.dem(nm), bool(g.sret))
        return HeapPolicy.vcall(self, E, st, ins, c, slot, args)


O0, O1 = arg(0), iarg(1)
N0, N1 = mk("h:size", O0, ZERO), mk("h:size", O1, ZERO)


def cell(t):
    """(which, side, index) of an element or key read"""
    if t.op == "v0" and t.a[0].op == "h:key":
        t = t.a[0]
    if t.op in ("h:at", "h:key") and len(t.a) >= 2:
        s = 0 if t.a[0] is O0 else 1 if t.a[0] is O1 else None
        if s is not None:
            return t.op[2:], s, t.a[1]
    return None


def slot_of(prog, meth):
    for i, nm in enumerate(prog.vtables()[HCLS]):
        if nm in prog.defs and short(prog.dem(nm)) == "libube::Heap::" + meth:
            return i
    raise Vanished("Heap::%s is not virtual" % meth)


def arun(R, prog, meth, a, b, cls=HCLS, extra=lambda: []):
    f = prog.defs.get(prog.vtables()[cls][slot_of(prog, meth)]) or heap_fn(prog, "Heap", meth)
    own = [eq(MSIZE, N0), eq(MTYPE, mk("h:type", O0, ZERO))] if cls == HCLS else []
    return HeapRun(R, prog, f, cls, policy=Elems, setup=lambda r: [eq(mk("h:type", O0, ZERO), C(a)), eq(mk("h:type", O1, ZERO), C(b)), le(ZERO, N0), le(ZERO, N1)] + own + extra())


_SZ = {}


def neq_sizes(R, prog):
    """arrays of different size are told apart by the comparison of arrays itself"""
    if "v" not in _SZ:
        try:
            r = arun(R, prog, "neq", 8, 8, extra=lambda: [NOT(eq(N0, N1))])
            _SZ["v"] = all(o.val is ONE for o in r.rets()) and bool(r.rets())
        except AnalysisError:
            _SZ["v"] = False
    return _SZ["v"]


def cells_in(facts):
    s = set()
    for x in facts.all():
        for t in subterms(x):
            if t.op in ("m:<", "m:=="):
                c = [cell(y) for y in t.a[:2]]
                s.add((t, c[0], c[1]))
    return s


def relworld(rels, idx, sizes=None, misc=None):
    """elements at index idx are related as rels says; anything at another index is unknown"""
    def W(t):
        if t.op in ("m:<", "m:=="):
            a, b = cell(t.a[0]), cell(t.a[1])
            if a and b and a[0] == b[0] and a[1] != b[1] and a[2] is b[2] and a[2] is idx and a[0] in rels:
                x, y = REL[rels[a[0]]]
                if a[1] == 1:
                    x, y = y, x
                return x < y if t.op == "m:<" else x == y
            return None
        if sizes is not None and t in (N0, N1):
            return sizes[0] if t is N0 else sizes[1]
        if misc:
            return misc(t)
        return None
    return W


def relevant(facts):
    """the facts which compare elements"""
    return [x for x in facts.all() if any(t.op in ("m:<", "m:==") for t in subterms(x))]


def possible(fs, W):
    v = True
    for x in fs:
        r = value(x, W)
        if r is None:
            v = None
        elif not r:
            return False
    return v


def arrays(R, prog):
    for cls, cn in ((HCLS, "Heap"), (VCLS, "View")):
        for a, b, name in ((8, 8, "elements"), (4, 4, "floats"), (1, 1, "characters"), (9, 9, "maps"), (2, 8, "mixed"), (1, 5, "text and numbers")):
            k = "%s::neq{%s}" % (cn, name)
            with R.guard(k, "equal"):
                r = arun(R, prog, "neq", a, b, cls, extra=lambda: [eq(N0, N1)])
                V = Verdict(bool(r.rets()))
                which = ("key", "at") if a == 9 else ("at",)
                for o in r.outs:
                    odd = [e for e in walk(o.events()) if e.kind in ("call", "JOIN", "memcpy", "store")] + list(r.E.warn)
                    if o.kind == "unw" and any(e.kind == "throw" for e in walk(o.events())):
                        V.put(None, "refused")
                    if o.kind != "ret":
                        continue
                    if o.val is not ZERO and o.val is not ONE:
                        # the answer depends on something: both ways
                        cnd = o.val if o.val.op in ("le0", "eq0", "not", "bool", "fcmp") else mk("bool", o.val)
                        if any(x.op in ("m:==", "m:<") or x.op.startswith("call") for x in subterms(cnd)) or not clr(cnd):
                            V.put(None, "gives %s" % show(o.val))
                            continue
                        g = o.facts.assume(NOT(cnd))
                        ne = [(t, c) for t, c, d in cells_in(o.facts) if c and d and c[0] == d[0] and c[1] != d[1] and c[2] is d[2] and
                              (t.op == "m:==" and o.facts.decide(mk("bool", t)) is False or t.op == "m:<" and o.facts.decide(mk("bool", t)) is True)]
                        if g is not None and ne:
                            V.put(False if not odd else None, "arrays with a pair of elements that differ are equal, if %s" % show(NOT(cnd)))
                        else:
                            V.put(None, "gives %s" % show(o.val))
                        continue
                    if o.val is ZERO:
                        for w in which:
                            covered(o, w, V, odd)
                    elif o.val is ONE:
                        ne = [(t, c) for t, c, d in cells_in(o.facts) if c and d and c[0] == d[0] and c[1] != d[1] and c[2] is d[2] and
                              (t.op == "m:==" and o.facts.decide(mk("bool", t)) is False or t.op == "m:<" and o.facts.decide(mk("bool", t)) is True)]
                        other = [t for t, c, d in cells_in(o.facts) if not c or not d or c[2] is not d[2]]
                        V.put(True if ne else None if other or odd else False, "arrays are different although no element is found to differ")
                    else:
                        V.put(None, "gives %s" % show(o.val))
                c02.done(R, r, k, V, "equal")
            k = "%s::lt{%s}" % (cn, name)
            if a == 1 and b == 1:
                if cls == HCLS:
                    text(R, prog, k)
                continue
            with R.guard(k, "order"):
                r = arun(R, prog, "lt", a, b, cls)
                V = Verdict(bool(r.rets()))
                which = ("key", "at") if a == 9 else ("at",)
                for o in r.outs:
                    odd = [e for e in walk(o.events()) if e.kind in ("call", "JOIN", "memcpy", "store")] + list(r.E.warn)
                    if o.kind == "unw" and any(e.kind == "throw" for e in walk(o.events())):
                        V.put(None, "refused")
                    if o.kind != "ret":
                        continue
                    lex(o, which, V, odd)
                c02.done(R, r, k, V, "order")
        for meth, rule in (("neq", "equal"), ("lt", "order")):
            k = "%s::%s{map and array}" % (cn, meth)
            with R.guard(k, rule):
                V = Verdict()
                res = {}
                for a, b in ((9, 8), (8, 9), (9, 4), (4, 9)):
                    r = arun(R, prog, meth, a, b, cls, extra=lambda: [eq(N0, N1)])
                    res[a, b] = {{True: ONE, False: ZERO}.get(o.facts.decide(o.val), o.val) if o.val.op != "c" else o.val for o in r.rets()}
                    if not r.rets():
                        V.put(None, "no outcome")
                if meth == "neq":
                    for p, g in res.items():
                        V.put(True if g == {ONE} else False if ZERO in g else None, "a map can be equal to an array")
                else:
                    for p, g in res.items():
                        q = res[p[1], p[0]]
                        one = lambda s: len(s) == 1 and list(s)[0] in (ZERO, ONE)
                        V.put(True if one(g) and one(q) and g != q else False if all(x.op == "c" for x in g | q) else None,
                              "a map and an array are not ordered")
                c02.done(R, r, k, V, rule)


def covered(o, w, V, odd):
    """the arrays are equal only after all w were found equal"""
    seen = []
    for L in all_loops(o.events()):
        c = closed(L, o.facts)
        for f, b in L.bodies:
            for t, x, y in cells_in(f):
                if x and y and x[0] == y[0] == w and x[1] != y[1]:
                    seen.append((L, c, f, t, x, y))
    if not seen:
        V.put(None if odd else False, "%s are not compared" % {"at": "elements", "key": "keys"}[w])
        return
    L, c = seen[0][:2]
    if c is None:
        V.put(None, "a loop is not counted")
        return
    for f, b in L.bodies:
        mine = [s for s in seen if s[2] is f]
        ok = False
        for _, _, _, t, x, y in mine:
            same = x[2] is y[2]
            if not same:
                V.put(False if clr(c.at(x[2])) and clr(c.at(y[2])) else None, "%s %s is compared with %s" % (w, show(c.at(x[2])), show(c.at(y[2]))))
                continue
            i = c.at(x[2])
            if i is not c.k and i is not sub(sub(c.n, ONE), c.k):
                V.put(False if clr(i) else None, "in round %s, %s is compared" % (show(c.k), show(i)))
                continue
            if t.op == "m:==" and f.decide(mk("bool", t)) is True:
                ok = True
            elif t.op == "m:==":
                V.put(False, "arrays with a difference are taken for equal")
            else:
                ok = None if ok is False else ok
        V.put(True if ok else None if ok is None or odd or mine else False, "some %s are not compared" % w)
    n = c.n
    okn = n in (N0, N1) or o.facts.decide(eq(n, N0)) is True
    V.put(True if okn else False if clr(n) and not odd else None, "%s of %s are compared" % (show(n), show(N0)))


def lex(o, which, V, odd):
    """lexicographic comparison"""
    loops = [L for L in all_loops(o.events())]
    idx = {x[2] for t, c, d in cells_in(o.facts) for x in (c, d) if x}
    spec = lambda rels: next((rels[w] == "lt" for w in which if rels[w] != "eq"), None)
    worlds = [dict(zip(which, p)) for p in itertools.product(REL, repeat=len(which))]
    if len(loops) != 1:
        if not loops and not idx:
            # decided by the sizes alone: one of the arrays is empty
            V.put(None, "decided without looking at elements")
            return
        V.put(None, "not a single loop over the elements")
        return
    L = loops[0]
    # going on to the next element means this one does not decide
    bidx = {x[2] for f, b in L.bodies for t, c, d in cells_in(f) for x in (c, d) if x}
    if len(bidx) != 1 or any(x is not list(bidx)[0] for x in idx):
        V.put(None if bidx else False if not odd else None, "elements are compared at %s" % ", ".join(sorted(show(x) for x in bidx | idx)))
        return
    ix = list(bidx)[0]
    for f, b in L.bodies:
        fs = relevant(f)
        for w in worlds:
            if spec(w) is None:
                continue
            p = possible(fs, relworld(w, ix))
            V.put(False if p is True and not odd else None if p is None else True, "the comparison goes on where %s decides" % ", ".join("%s is %s" % x for x in w.items()))
    iv = L.ivs.get(ix)
    if iv is None:
        V.put(None, "the index is %s" % show(ix))
        return
    i0, ns = iv
    V.put(True if i0 is ZERO else False if clr(i0) else None, "the comparison begins at %s" % show(i0))
    for n in ns:
        V.put(True if sub(n, ix) is ONE else False if clr(sub(n, ix)) else None, "the comparison goes from %s to %s" % (show(ix), show(n)))
    inside = o.facts.entails_le(add(sub(ix, N0), ONE)) and o.facts.entails_le(add(sub(ix, N1), ONE))
    after = o.facts.entails_le(sub(N0, ix)) or o.facts.entails_le(sub(N1, ix))
    if after:
        if idx:
            V.put(None, "elements beyond the shorter array")
            return
        for s in ((0, 1), (1, 1), (1, 0), (3, 5), (5, 3)):
            W = relworld({}, ix, s)
            v = value(o.val, W)
            # which of the two is the shorter is among the facts
            fs = [x for x in o.facts.all() if not any(t in L.ivs for t in subterms(x))]
            p = possible(fs, W)
            if p is False:
                continue
            if v is None:
                V.put(None, "gives %s" % show(o.val))
            else:
                V.put(True if bool(v) == (s[0] < s[1]) else False if not odd else None, "of arrays that agree up to the shorter one, of %d and %d elements, the first is %s" % (
                    s[0], s[1], "less" if v else "not less"))
    elif inside and idx:
        for w in worlds:
            W = relworld(w, ix)
            p = possible(relevant(o.facts), W)
            if p is False:
                continue
            v = value(o.val, W)
            if v is None or p is None:
                V.put(None, "gives %s" % show(o.val))
                continue
            V.put(True if spec(w) is not None and bool(v) == spec(w) else False if not odd else None,
                  "where %s the first array is %s" % (", ".join("%s is %s" % x for x in w.items()), "less" if v else "not less"))
    else:
        left = o.facts.assume(le(add(ix, ONE), N0))
        left = left and left.assume(le(add(ix, ONE), N1))
        ends = [x for x in o.facts.les if lin(x)[1].get(ix) == -1 and len(lin(x)[1]) == 2 and all(y in (ix, N0, N1) for y in lin(x)[1])]
        V.put(False if left is not None and ends and not idx and not odd else None, "the comparison ends before the shorter array does")


def text(R, prog, k):
    with R.guard(k, "order"):
        r = arun(R, prog, "lt", 1, 1)
        V = Verdict(bool(r.rets()))
        mem = {t for o in r.outs for x in list(o.facts.all()) + ([o.val] if o.kind == "ret" else []) for t in subterms(x) if t.op == "call"}
        odd = []
        for t in mem:
            nm = t.a[0] if isinstance(t.a[0], str) else (t.a[0].a[0] if t.a[0].a else "")
            if str(nm) != "memcmp":
                odd.append(t)
                continue
            p, q, n = t.a[2:5]
            mine = lambda x, obj: x.op.startswith("h:ptr") and x.a[0] is obj or x.op == "ld" and (add(x.a[0], x.a[1]) is add(obj, C(F_DATA)) or x.a[1] is add(obj, C(F_DATA)))
            if not (mine(p, O0) and mine(q, O1)) and not (mine(p, O1) and mine(q, O0)):
                odd.append(t)
            ok = n in (N0, N1) or n.op in ("min", "smin")
            if not ok:
                odd.append(t)
        # the characters are looked at only where there are characters
        for t0, t1 in ((1, 5), (5, 1), (5, 5)):
            for o in arun(R, prog, "lt", t0, t1).rets():
                for x in list(o.facts.all()) + ([o.val] if o.val is not None else []):
                    for y in subterms(x):
                        if y.op == "call" and "memcmp" in show(y)[:14]:
                            V.put(False, "arrays of types %d and %d are compared as text" % (t0, t1))
        for o in r.outs:
            for t in {y for x in list(o.facts.all()) + ([o.val] if o.kind == "ret" else []) for y in subterms(x) if y in mem}:
                for s0, s1 in ((1, 2), (2, 1), (0, 1)):
                    W = lambda x: s0 if x is N0 or x is MSIZE else s1 if x is N1 else 1 if x.op == "h:type" or x is MTYPE else None
                    p = possible([x for x in o.facts.all() if not any(y.op == "call" for y in subterms(x))], W)
                    n = value(t.a[4], W)
                    if p is True and n is not None and n > min(s0, s1):
                        V.put(False if t not in odd else None, "%d characters of texts of %d and %d are compared" % (n, s0, s1))

        def side(t):
            return 0 if subterms_has(t.a[2], O0) else 1
        for cm, (s0, s1) in itertools.product((-1, 0, 1), ((1, 2), (2, 2), (2, 1))):
            def W(t):
                if t in (N0, N1):
                    return s0 if t is N0 else s1
                if t.op == "call" and t in mem and t not in odd:
                    n = value(t.a[4], W)
                    if n is not None and n > min(s0, s1):
                        return None
                    return cm if side(t) == 0 else -cm
                if t is MSIZE:
                    return s0
                if t.op == "h:type" or t is MTYPE:
                    return 1
                return None
            decide(r.outs, W, V, cm < 0 or cm == 0 and s0 < s1, "text of %d and %d characters, %s" % (s0, s1, {-1: "less", 0: "equal", 1: "greater"}[cm]), odd)
        c02.done(R, r, k, V, "order")


def subterms_has(t, x):
    return any(y is x for y in subterms(t))


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.rule("equal", "values are equal exactly if they have the same type, size and content, maps also the same keys")
    R.rule("order", "of two values that are not equal exactly one is less; arrays and text are ordered lexicographically")
    R.rule("derived", "==, >, <= and >= are what != and < imply")
    R.parallel([lambda R: values(R, prog), lambda R: derived(R), lambda R: arrays(R, prog)])
    return R.finish(MIN_DECIDED)
