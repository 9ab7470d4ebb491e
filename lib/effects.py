"""What one analysed run of a functor method does to the elements of arrays.

Every region of elements is named by its first address.  The effect of a run is
  vec   {address: (element type, count, element formula)}   whole regions
  one   [(content, element type, index, formula)]           single elements
  calls [method event]                                      protocol calls
Formulas are over el(content, type, index) / ev(address): the elements as they
were on entry.  BLAS calls are interpreted by their published definition."""
from functor import *

F0, F1 = mk("f", 0.0), mk("f", 1.0)


class Unmodelled(Exception):
    pass


class Contradiction(Exception):
    """a construct that is definitely wrong whatever the rest does"""


def fsimp(op, *a):
    """floating point formula with the exact identities only"""
    a = list(a)
    if op == "fmul":
        for i in (0, 1):
            x, y = a[i], a[1 - i]
            if isone(x):
                return y
            if isone(x, -1.0):
                return fsimp("fneg", y)
        a.sort(key=lambda t: t.id)
    elif op == "fadd":
        for i in (0, 1):
            if a[i].op == "fneg":
                return fsimp("fsub", a[1 - i], a[i].a[0])
        a.sort(key=lambda t: t.id)
    elif op == "fsub":
        if a[1].op == "fneg":
            return fsimp("fadd", a[0], a[1].a[0])
        if isone(a[0], 0.0):
            return fsimp("fneg", a[1])
    elif op == "fneg":
        if a[0].op == "fneg":
            return a[0].a[0]
        if a[0].op == "f":
            return mk("f", -a[0].a[0])
    elif op == "fdiv":
        if isone(a[1]):
            return a[0]
    return mk(op, *a)


def isone(t, v=1.0):
    if t.op == "f":
        return t.a[0] == v
    if t.op == "c":
        return t.a[0] == v
    if t.op == "cplx":
        return isone(t.a[0], v) and isone(t.a[1], 0.0)
    return False


def canon(t, types=None, memo=None):
    """element formula in canonical form.  types: {content: type} of scalars
    whose type is known on this path, so that a cast to it is a plain read"""
    types = types or {}
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    rec = lambda x: canon(x, types, memo)
    if t.op in ("m:get", "m:cast") and len(t.a) >= 2 and t.a[1].op == "T":
        c, ty = t.a[0], t.a[1].a[0]
        if t.op == "m:get" or types.get(c) == ty:
            r = mk("el", c, t.a[1], ZERO, t.a[2])
        else:
            r = mk("cast", c, t.a[1], t.a[2])
    elif t.op == "ld" and len(t.a) == 4:
        b, off = t.a[0], t.a[1]
        if b.op == "m:ptr":
            ty = b.a[1].a[0]
            z = SIZEOF.get(ty)
            k = lin(off)
            if z and k[0] % z == 0 and all(v % z == 0 for v in k[1].values()):
                i = from_lin(k[0] // z, {x: v // z for x, v in k[1].items()})
                r = mk("el", b.a[0], b.a[1], add(b.a[2], i), ZERO)
        if r is None:
            r = t
    elif t.op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
        r = fsimp(t.op, *[rec(x) for x in t.a])
    elif t.op == "fptrunc" and t.a[0].op in ("fadd", "fsub", "fmul", "fdiv") and \
            all(x.op in ("fpext", "f") for x in t.a[0].a):
        # float operation carried out in double and rounded back is the float operation
        r = rec(mk(t.a[0].op, *[x.a[0] if x.op == "fpext" else x for x in t.a[0].a]))
    elif t.op in ("fptrunc", "fpext") and t.a[0].op in ("fptrunc", "fpext") and t.op != t.a[0].op and t.op == "fptrunc":
        r = rec(t.a[0].a[0])
    elif t.op in ("cat", "agg"):
        n = norm(t)
        r = rec(n) if n is not t else mk(t.op, *[rec(x) if isinstance(x, T) else x for x in t.a])
    elif t.op == "trunc8" and isinstance(t.a[0], T):
        r = mk("trunc8", strip_ext(rec(t.a[0])))
    elif t.op in ("aff",):
        c, d = lin(t)
        r = C(c)
        for x, k in d.items():
            r = add(r, scale(rec(x), k))
    elif t.op == "mul":
        r = ONE
        for x in t.a:
            r = mul(r, rec(x))
    elif t.op in ("c", "f", "v0", "T", "k", "global", "iarg", "arg"):
        r = t
    else:
        r = mk(t.op, *[rec(x) if isinstance(x, T) else x for x in t.a])
    memo[t] = r
    return r


SHAPE_OPS = {"m:size", "m:shape", "m:stride", "m:dim", "c", "aff", "k", "v0", "ver", "iarg", "m:offset", "elem", "m:atype", "T", "arg", "mul", "sdiv"}


def plain_count(t):
    """a count built from sizes and dimensions only, so that two different
    ones differ for some arrays"""
    return all(x.op in SHAPE_OPS for x in subterms(t))


def same_count(a, b, facts=None):
    """True / False / None"""
    if a is b:
        return True
    if facts is not None:
        d = facts.decide(eq(a, b))
        if d is not None:
            return d
    d = sub(a, b)
    if is_c(d):
        return d.a[0] == 0
    if plain_count(a) and plain_count(b):
        return False
    return None


class Eff:
    def __init__(self):
        self.vec = {}
        self.one = []
        self.calls = []
        self.others = []
        self.order = []


def effect(run, o, types=None):
    e = Eff()
    cell = {}
    facts = o.facts

    def ev(p):
        return e.vec[p][2] if p in e.vec else mk("ev", p)

    def need(x, v, what):
        if x is v:
            return
        if is_c(x) or x.op in ("ch", "f"):
            raise Contradiction("%s is %s rather than %s" % (what, show(x), show(v)))
        raise Unmodelled("%s is %s" % (what, show(x)))

    def cnt(n, p):
        if p in e.vec and same_count(e.vec[p][1], n, facts) is not True:
            raise Unmodelled("regions of different lengths at one address")

    def put(p, ty, n, x):
        cnt(n, p)
        e.vec[p] = (ty, n, x)

    for x in o.events():
        if isinstance(x, Loop):
            r = loop_effect(run, x, facts)
            if r is None:
                if any(True for _ in stores_in(x)) or any(y.kind in ("blas", "mkl", "stdsort", "method") or (
                        y.kind == "var") and not y.name.startswith("elem.") for y in walk([x])):
                    raise Unmodelled("loop at %s" % x.where())
                continue
            for p, (ty, n, f) in r.items():
                put(p, ty, n, substev(f, e))
            continue
        if x.kind == "JOIN":
            raise Unmodelled("join")
        if x.kind == "store":
            a, z, v = x.args
            b, off = split_ptr(a)
            if b is None:
                raise Unmodelled("store to %s" % show(a))
            ty, at = b.a[1].a[0], add(b.a[2], off)
            e.one.append([b.a[0], ty, at, v, z.a[0], x])
            continue
        if x.kind == "var" and x.name in ("assign", "assign_elem"):
            c, v = x.args
            if c.op == "elem":
                c, i = c.a[0], c.a[1]
            else:
                i = ZERO
            if v.op != "num":
                e.others.append(x)
                continue
            e.one.append([c, v.a[0], i, v.a[1], SIZEOF.get(v.a[0], 0), x])
            continue
        if x.kind == "var" and not x.name.startswith("elem."):
            e.others.append(x)
            continue
        if x.kind == "method":
            e.calls.append(x)
            continue
        if x.kind in ("call", "stdsort", "mkl"):
            e.others.append(x)
            continue
        if x.kind in ("memcpy", "memmove", "memset"):
            if any(y.op == "m:ptr" for y in lin(x.args[0])[1]):
                e.others.append(x)
            continue
        if x.kind != "blas":
            continue
        op, ty = x.name.split(":")
        a = x.args
        if op in ("dot", "dotc", "dotu", "asum", "iamax"):
            continue
        if op == "copy":
            n, p, ip, q, iq = a
            need(ip, ONE, "increment of x"), need(iq, ONE, "increment of y")
            if p in e.vec:
                cnt(n, p)
            put(q, ty, n, ev(p))
        elif op == "axpy":
            n, al, p, ip, q, iq = a
            need(ip, ONE, "increment of x"), need(iq, ONE, "increment of y")
            if p in e.vec:
                cnt(n, p)
            put(q, ty, n, fsimp("fadd", fsimp("fmul", canon(al, types), ev(p)), ev(q)))
        elif op == "scal":
            n, al, p, ip = a
            need(ip, ONE, "increment of x")
            put(p, ty, n, fsimp("fmul", canon(al, types), ev(p)))
        elif op == "tbmv":
            u, tr, dg, n, k, A, lda, p, ip = a
            need(k, ZERO, "bandwidth"), need(ip, ONE, "increment of x")
            if not (u.op == tr.op == dg.op == "ch"):
                raise Unmodelled("tbmv options")
            need(lda, ONE, "leading dimension")
            if dg.a[0].upper() == "U":
                x2 = ev(p)
            else:
                x2 = fsimp("fmul", ev(A), ev(p))
            put(p, ty, n, x2)
        elif op == "sbmv":
            u, n, k, al, A, lda, p, ip, be, q, iq = a
            need(k, ZERO, "bandwidth"), need(lda, ONE, "leading dimension")
            need(ip, ONE, "increment of x"), need(iq, ONE, "increment of y")
            if p is q or A is q:
                raise Contradiction("%s: the output of the product overlaps an input" % x.where())
            r = fsimp("fmul", canon(al, types), fsimp("fmul", ev(A), ev(p)))
            if not isone(be, 0.0):
                r = fsimp("fadd", r, fsimp("fmul", canon(be, types), ev(q)))
            put(q, ty, n, r)
        elif op == "swap":
            n, p, ip, q, iq = a
            need(ip, ONE, "increment of x"), need(iq, ONE, "increment of y")
            x1, x2 = ev(p), ev(q)
            put(p, ty, n, x2)
            put(q, ty, n, x1)
        else:
            e.others.append(x)
    # assemble complex values stored in halves
    merged = []
    for r in e.one:
        c, ty, at, v, z, x = r
        if ty in ("cdouble", "cfloat") and z == SIZEOF[ty] // 2:
            h = SIZEOF[ty] // 2
            # at is in units of the element when whole, else bytes were kept
            if merged and merged[-1][0] is c and merged[-1][1] == ty and merged[-1][5].kind == "store" and merged[-1][4] == h:
                m = merged[-1]
                merged[-1] = [c, ty, m[2], mk("agg", m[3], v), 2 * h, m[5]]
                continue
        merged.append(r)
    e.one = [(c, ty, at, canon(norm(v), types), z, x) for c, ty, at, v, z, x in merged]
    return e


def split_ptr(a):
    """m:ptr(content, type, index) + k*sizeof -> (ptr term, k)"""
    c, d = lin(a)
    for x, k in d.items():
        if k == 1 and x.op == "m:ptr":
            rest = sub(a, x)
            z = SIZEOF.get(x.a[1].a[0])
            if not z:
                return None, None
            c2, d2 = lin(rest)
            if c2 % z == z // 2 and x.a[1].a[0].startswith("c") and x.a[1].a[0] != "char":
                c2 -= z // 2
            if c2 % z or any(v % z for v in d2.values()):
                return None, None
            return x, from_lin(c2 // z, {y: v // z for y, v in d2.items()})
    return None, None


def stores_in(L):
    for y in walk([L]):
        if y.kind == "store":
            yield y


def substev(f, e):
    m = {}
    for x in subterms(f):
        if x.op == "ev" and x.a[0] in e.vec:
            m[x] = e.vec[x.a[0]][2]
    return subst(f, m) if m else f


def index_of(L):
    """[(induction term, init, step)] of the loop's counters"""
    r = []
    for t, (i0, ns) in L.ivs.items():
        ds = {sub(n, t) for n in ns}
        if len(ds) == 1:
            d = ds.pop()
            if is_c(d):
                r.append((t, i0, d.a[0]))
    return r


def trip(L, exit_facts):
    """(counter, N) when the loop visits counter = 0..N-1 exactly, for some
    counter normalised to start at 0 with step 1"""
    for t, i0, s in index_of(L):
        if s == 1 and i0 is ZERO and not t.ptr:
            ub = []
            for f, _ in L.bodies:
                c = []
                for x in f.les:
                    k = lin(x)[1].get(t)
                    if k == 1 and not any(y.op == "iv" for y in lin(x)[1] if y is not t):
                        c.append(sub(t, add(x, C(-1))))     # x = t - N + 1 <= 0
                ub.append(set(c))
            if not ub:
                continue
            common = set.intersection(*ub)
            for n in common:
                if exit_facts.entails_le(sub(n, t)) is True:
                    return t, n
    return None


def loop_effect(run, L, facts):
    """elementwise loop: one store of f(elements at i) to element i"""
    if len(L.bodies) != 1:
        return None
    bf, evs = L.bodies[0]
    if any(isinstance(x, Loop) for x in evs):
        return None
    if any(x.kind in ("blas", "mkl", "call", "method", "throws", "throw") or (
            x.kind == "var" and not x.name.startswith("elem.")) for x in evs):
        return None
    st = [x for x in evs if x.kind == "store"]
    if not st:
        return None
    tr = trip(L, facts)
    if tr is None:
        return None
    t, n = tr
    res = {}
    groups = {}
    for x in st:
        a, z, v = x.args
        b, off = split_ptr(a)
        if b is None:
            return None
        groups.setdefault((b, off), []).append((z.a[0], v))
    for (b, off), ps in groups.items():
        ty = b.a[1].a[0]
        if sub(off, t) is not ZERO or sum(p[0] for p in ps) != SIZEOF[ty]:
            return None
        v = ps[0][1] if len(ps) == 1 else mk("agg", *[p[1] for p in ps])
        v = canon(norm(v))
        m = {}
        for x in subterms(v):
            if x.op == "el" and contains(x.a[2], t):
                base = sub(x.a[2], t)
                if contains(base, t):
                    return None
                m[x] = mk("ev", ptr(x.a[0], x.a[1].a[0], base))
        v = subst(v, m)
        if contains(v, t):
            return None
        if b in res:
            return None
        res[b] = (ty, n, v)
    return res


def ptr(c, ty, off):
    t = mk("m:ptr", c, mk("T", ty), off)
    t.ptr = True
    return t
