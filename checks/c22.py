"""C22: a var made from C++ data holds exactly that data

The constructors of var that take pointers, lists, sizes and shapes, append()
and the ranges, and the array constructors under them, are interpreted; what
they store is followed through the summaries of their loops for every size at
which the guards of those loops can differ."""
import re
from core import *
from heapm import *
from seqm import *
from report import *
from loops import *
from bytem import bval
from fmtm import Env, instantiate, truth, Unclear
import c02, c09
from c02 import Verdict, clear, vm

MIN_DECIDED = 12
SIZES = range(0, 5)
UNITS = ("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")


def done(R, r, k, V, rule):
    c02.done(R, r, k, V, rule)


def at(t, base, env):
    """t - base as a number, or None"""
    v = bval(sub(t, base), env) if lin(t)[1].get(base) == 1 else None
    if v is None:
        a, b = bval(t, env), bval(base, env)
        v = a - b if a is not None and b is not None else None
    return v


def addr(t):
    """address a load is from"""
    b, o = t.a[0], t.a[1]
    o = o if isinstance(o, T) else C(o)
    return o if b.op == "abs" else add(b, o)


# ---------------------------------------------------------------- contents
class Content:
    """what a var holds at a point of a path: the values put into it, in order"""
    def __init__(self, name, what):
        self.name, self.what = name, what
        self.begun = False
        self.els = None           # list of values, or
        self.all = None           # a whole value
        self.size = None
        self.set = {}


def follow(o, look, value):
    """the content of the var constructed at the end of path o; value(x, env)
    names what is stored.  None when the path is not taken"""
    env = Env(look)
    K = Content(None, None)

    def emit(e, env):
        if e.kind == "life" and e.args and e.args[0] is arg(0):
            v = e.args[1] if len(e.args) > 1 else None
            if v is None or v.op == "uninit":
                return
            K.begun = True
            if v.op == "nil":
                K.els, K.all = [], None
            else:
                K.els, K.all = None, v
            return
        if e.kind == "hctor":
            K.hctor = e
            return
        if e.kind != "var" or not e.args or not isinstance(e.args[0], T):
            return
        t = e.args[0]
        nm = e.name
        if nm == "push":
            if K.els is None or not any(x is arg(0) for x in subterms(t)) and t.op != "nil":
                raise Unclear("push")
            K.els.append(value(e.args[1], env))
        elif nm == "assign":
            if any(x is arg(0) for x in subterms(t)) or t.op == "nil":
                K.begun = True
                K.els, K.all, K.set = None, e.args[1], {}
            else:
                raise Unclear("assignment")
        elif not K.begun:
            return                # another var's
        elif nm == "resize":
            K.size = bval(e.args[1], env)
            if K.size is None:
                raise Unclear("size")
        elif nm == "assign_elem":
            x = t
            if x.op != "elem":
                raise Unclear("element")
            k = bval(x.a[1], env)
            if k is None:
                raise Unclear("which element")
            K.set[k] = value(e.args[1], env)
        elif nm in WRITERS:
            raise Unclear(nm)
    for f in o.facts.all():
        # conditions on what is known from the start
        if not any(x.op in ("iv", "ivm", "ivx", "ivv") or x.op.startswith("iv") for x in subterms(f)):
            y = truth(f, env)
            if y is False:
                return None
    instantiate(list(o.events()), env, emit, frozenset(f for f in o.facts.all() if truth(f, env) is None))
    if any(truth(f, env) is False for f in o.facts.all()):
        return None
    return K


def texts(p, n, terminated, ln):
    """a list of n texts at p, each ln characters long"""
    def look(t, env):
        if t.op == "ld" and t.a[2] == 8:
            k = at(addr(t), p, env)
            if k is not None and k % 8 == 0:
                k //= 8
                return 4096 * (k + 1) if 0 <= k < n else 0 if k == n and terminated else None
        if t.op == "ld" and t.a[2] == 1:
            for x in lin(addr(t))[1]:
                if x.op == "ld" and x.a[2] == 8:
                    k = look(x, env)
                    j = bval(sub(addr(t), x), env)
                    if k and j is not None and 0 <= j <= ln:
                        return 120 if j < ln else 0
        if t.op == "call" and t.a[0] == "strlen" and t.a[-1].op == "ld":
            return ln if look(t.a[-1], env) else None
        return None

    def value(x, env):
        y = x.a[0] if x.op == "str" else x.a[1] if x.op == "strn" and x.a[0].op == "call" and x.a[0].a[0] == "strlen" and x.a[0].a[-1] is x.a[1] else None
        if y is None or y.op != "ld":
            raise Unclear(show(x))
        k = at(addr(y), p, env)
        if k is None or k % 8:
            raise Unclear(show(x))
        return k // 8
    return look, value


FACETS = {"nil": dict(defined=0, type=0, size=0, heap=0), "value": dict(defined=1, type=2, atype=2, size=1, heap=0),
          "array": dict(defined=1, type=0, atype=2, size=3, heap=1), "empty": dict(defined=1, type=0, atype=1, size=0, heap=1)}


def varlist(p, n, kind):
    """a list of n vars of a kind at p"""
    def index(c, env):
        if c.op != "v0":
            return None
        k = at(c.a[0], p, env)
        return k // 16 if k is not None and k % 16 == 0 and 0 <= k < 16 * n else None

    def look(t, env):
        if t.op.startswith("m:") and t.op[2:] in FACETS[kind] and t.a and isinstance(t.a[0], T):
            return FACETS[kind][t.op[2:]] if index(t.a[0], env) is not None else None
        return None

    def value(x, env):
        k = index(x, env)
        if k is None:
            raise Unclear(show(x))
        return k
    return look, value


def with_(look, vals):
    def f(t, env):
        v = vals.get(t)
        return v if v is not None else look(t, env)
    return f


def lists(R, prog):
    """the constructors from lists"""
    P1, P2 = iarg(1), iarg(2)
    CASES = []
    for ln in (0, 1):
        CASES += [("var(texts)", r"^libube::var::var\(char const\* const\*\)$", "%d characters each" % ln,
                   lambda n, ln=ln: texts(P1, n, True, ln) + ({P1: 1 << 20},)),
                  ("var(int, texts)", r"^libube::var::var\(int, char const\* const\*\)$", "%d characters each" % ln,
                   lambda n, ln=ln: texts(P2, n, False, ln) + ({P1: n, P2: 1 << 20},))]
    for kind in FACETS:
        CASES.append(("var{...}", r"^libube::var::var\(std::initializer_list<libube::var>\)$", kind,
                      lambda n, kind=kind: varlist(arg(1), n, kind) + ({mk("iarg", "i1n"): n, arg(1): 1 << 20},)))
    for nm, pat, what, mk_ in CASES:
        k = "%s of %s" % (nm, what)
        with R.guard(k, "list"):
            f = vm(prog, pat)
            r = SeqRun(R, prog, f)
            V = Verdict(bool(r.rets()))
            for n in SIZES:
                look, value, vals = mk_(n)
                got = []
                for o in r.rets():
                    try:
                        K = follow(o, with_(look, vals), value)
                    except Unclear as e:
                        V.put(None, "a list of %d: %s" % (n, e))
                        continue
                    if K is not None:
                        got.append(K)
                if len(got) != 1:
                    V.put(None, "a list of %d: %d ways" % (n, len(got)))
                    continue
                if got[0].els is None:
                    V.put(None, "made of %s" % show(got[0].all) if got[0].all is not None else "not known")
                    continue
                V.put(got[0].els == list(range(n)), "a list of %d becomes the elements %s of it" % (n, got[0].els))
            done(R, r, k, V, "list")


def filled(R, prog):
    """the constructors from a size or a shape and a value"""
    v2 = mk("v0", arg(2), ZERO)
    for nm, pat in (("var(size, value)", r"^libube::var::var\(int, libube::var\)$"), ("var(shape, value)", r"^libube::var::var\(std::initializer_list<int>, libube::var\)$")):
        shape = "list" in pat
        k = nm
        with R.guard(k, "fill"):
            f = vm(prog, pat)
            r = SeqRun(R, prog, f, setup=lambda r: [mk("bool", mk("m:defined", v2, ZERO)), NOT(eq(mk("m:type", v2, ZERO), ZERO))])
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                made = [e.args[1] for e in walk(o.events()) if e.kind == "var" and e.name == "assign" and len(e.args) > 1]
                if len(made) != 1:
                    V.put(None, "made in another way")
                    continue
                for n, dims in ((1, (1,)), (3, (3,)), (2, (1, 2)), (4, (2, 2)), (3, (3, 1)), (4, (1, 4)), (8, (2, 2, 2)), (6, (1, 3, 2))):
                    def look(t, env):
                        if shape and t.op == "m:size":
                            return n
                        if shape and t.op == "ld" and t.a[2] == 4:
                            k = at(addr(t), iarg(1), env)
                            return dims[k // 4] if k is not None and k % 4 == 0 and 0 <= k // 4 < len(dims) else None
                        if shape and t.op == "m:shape" and len(t.a) > 1 and isinstance(t.a[1], T):
                            k = bval(t.a[1], env)
                            return dims[k] if k is not None and -len(dims) <= k < len(dims) else None
                        if t is mk("m:defined", v2, ZERO) or t is mk("m:type", v2, ZERO):
                            return 2 if t.op == "m:type" else 1
                        if shape and t.op == "m:dim":
                            return len(dims)
                        return None

                    def value(x, env):
                        return x
                    vals = {mk("iarg", "i1n"): len(dims), iarg(1): 1 << 20} if shape else {iarg(1): n}
                    try:
                        K = follow(o, with_(look, vals), value)
                    except Unclear as e:
                        V.put(None, "%d elements: %s" % (n, e))
                        continue
                    if K is None:
                        continue
                    els = dict(K.set)
                    if not shape:
                        V.put(K.size == n if K.size is not None else None, "%s elements instead of %d" % (K.size, n))
                        if made[0] is v2:
                            els.setdefault(0, v2)
                    else:
                        b = made[0]
                        V.put(True if b.op == "m:view" and any(x.op == "il" and x.a[0] is iarg(1) for x in subterms(b)) else None, "shape")
                    bad = [i for i, x in els.items() if not (x is v2 or x.op == "m:copy" and x.a[0] is v2) and i < n]
                    V.put(None if bad else True, "element %s is %s" % (bad[:1], show(els[bad[0]]) if bad else ""))
                    miss = [i for i in range(n) if i not in els]
                    V.put(not miss, "element %s of %d is not given the value" % (miss[:1], n))
                    over = [i for i in els if not 0 <= i < n]
                    V.put(not over, "element %s of %d is set" % (over[:1], n))
            done(R, r, k, V, "fill")


def length(N, p, n=None):
    """is N the length of the text at p (or the number n)?"""
    bad = None
    for v in (0, 1, 5, 127, 128, 300, 40000, 70000):
        def look(t, env):
            if n is None and t.op == "ld" and t.a[2] == 1 and is_c(sub(addr(t), p)):
                k = sub(addr(t), p).a[0]
                return 120 if 0 <= k < v else 0 if k == v else None
            return v if t is n or n is None and t.op == "call" and t.a[0] == "strlen" and t.a[-1] is p else None
        x = bval(N, Env(look))
        if x is None:
            return None
        if x != v:
            return False
    return True


def attached(R, prog):
    """the constructors that make an array of what they are given"""
    for nm, pat, n, p in (("var(text)", r"^libube::var::var\(char const\*\)$", None, iarg(1)), ("var(int, text)", r"^libube::var::var\(int, char const\*\)$", iarg(1), iarg(2)),
                          ("var(int, ints)", r"^libube::var::var\(int, int const\*\)$", iarg(1), iarg(2)), ("var(cdouble)", r"^libube::var::var\(std::complex<double>\)$", ONE, None)):
        with R.guard(nm, "array"):
            f = vm(prog, pat)
            r = SeqRun(R, prog, f, setup=lambda r: [le(ZERO, n)] if n is not None else [])
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                c = o.st.aux.get(("v", arg(0)))
                evs = list(walk(o.events()))
                if c is not None and c.op == "strn":
                    N, D = c.a[0], c.a[1]
                elif c is not None and c.op == "str":
                    V.put(True if n is None and c.a[0] is p else None, "the text is %s" % show(c))
                    continue
                else:
                    h = [e for e in evs if e.kind == "hctor" and len(e.args) == 3]
                    if len(h) != 1 or c is None or c.op != "mut" or c.a[0].a != ("attach",) or c.a[-1] is not h[0].args[0]:
                        V.put(None, "made in another way")
                        continue
                    N, D = h[0].args[1:]
                    ty = re.search(r"\(int, (.*?) const\*\)", str(h[0].name))
                    w = {"var(int, text)": "char", "var(text)": "char", "var(int, ints)": "int", "var(cdouble)": "std::complex<double>"}[nm]
                    V.put(ty.group(1) == w if ty else None, "an array of %s is made" % (ty.group(1) if ty else "?"))
                if n is None:
                    V.put(length(N, p), "the length of the text is taken to be %s" % show(N))
                else:
                    V.put(True if N is n or o.facts.decide(eq(N, n)) is True else length(N, None, n) if not is_c(n) else False if is_c(N) else None, "the size is %s" % show(N))
                if p is not None:
                    V.put(True if D is p else False if lin(D)[1].get(p) == 1 and is_c(sub(D, p)) else None, "the data are taken from %s" % show(D))
                else:
                    x = r.E.load(o.st, D, 8) if D.op == "alloca" else None
                    y = r.E.load(o.st, add(D, C(8)), 8) if D.op == "alloca" else None
                    V.put(None if x is None else True if x is iarg(1) or x.op not in ("undef", "c") else False if is_c(x) else None, "the real part is %s" % (x is not None and show(x)))
                    V.put(None if y is None else True if y.op not in ("undef", "c") else False if is_c(y) else None, "the imaginary part is %s" % (y is not None and show(y)))
            done(R, r, nm, V, "array")
    with R.guard("append(text)", "array"):
        f = var_fn(prog, "append", pred=lambda s: len(s) == 1 and s[0].strip() == "char const*")
        r = SeqRun(R, prog, f)
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            evs = list(walk(o.events()))
            ap = [e for e in evs if e.kind == "heap" and e.name == "append"]
            if len(ap) != 1 or len(ap[0].args) != 3:
                V.put(None, "appended in another way")
                continue
            h, N, D = ap[0].args
            V.put(length(N, iarg(1)), "%s characters are appended" % show(N))
            V.put(True if D is iarg(1) else False if is_c(sub(D, iarg(1))) else None, "what is appended is at %s" % show(D))
        done(R, r, "append(text)", V, "array")
    for ty in ("char", "int", "std::complex<double>"):
        k = "append<%s>(n, data)" % ty
        with R.guard(k, "array"):
            f = vm(prog, r"libube::var::append<%s ?>\(int" % re.escape(ty))
            r = SeqRun(R, prog, f)
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                ap = [e for e in walk(o.events()) if e.kind == "heap" and e.name == "append"]
                if len(ap) != 1 or len(ap[0].args) != 3:
                    V.put(None, "appended in another way")
                    continue
                h, N, D = ap[0].args
                V.put(True if N is iarg(1) else False if set(lin(N)[1]) <= {iarg(1)} else None, "%s elements are appended" % show(N))
                V.put(True if D is iarg(2) else False if is_c(sub(D, iarg(2))) else None, "what is appended is at %s" % show(D))
            done(R, r, k, V, "array")


# ---------------------------------------------------------------- arrays
class Store(c09.Own):
    opaque_methods = ("resize",)
    unwind = False


ES = {"char": 1, "int": 4, "std::complex<double>": 16}


def arrays(R, prog):
    """Heap::append and the constructors of arrays from data"""
    for ty, es in ES.items():
        for ctor in (False, True):
            k = ("Heap(n, %s*)" if ctor else "Heap::append(n, %s*)") % ty
            with R.guard(k, "store"):
                f = next((f for n, f in sorted(prog.defs.items()) if f.order and "C1E" not in n and re.match(
                    r"^libube::Heap::%s\(int, %s const\*\)$" % ("Heap" if ctor else "append", re.escape(ty)), prog.dem(n))), None)
                if f is None:
                    raise Vanished("no " + k)
                n, p = iarg(1), iarg(2)
                tag = TAG[{"std::complex<double>": "cdouble"}.get(ty, ty)]
                r = HeapRun(R, prog, f, policy=Store, setup=lambda r: [le(ZERO, n)] + ([] if ctor else [eq(MTYPE, C(tag)), le(ZERO, MSIZE)]))
                V = Verdict(bool(r.outs))
                for m0 in ((0,) if ctor else (0, 1, 3)):
                    for N in range(0, 4):
                        one(r, V, m0, N, es, n, p, ctor)
                done(R, r, k, V, "store")


def one(r, V, m0, N, es, n, p, ctor):
    said = "%d to an array of %d" % (N, m0)

    def look(t, env):
        if t is n:
            return N
        if t.op == "ld" and t.a[0] is arg(0) and is_c(t.a[1]) and t.a[1].a[0] == 16:
            return m0
        return None
    taken = 0
    for o in r.outs:
        env = Env(look)
        if any(truth(f, env) is False for f in o.facts.all() if not any(x.op.startswith("iv") for x in subterms(f))):
            continue
        if o.kind != "ret":
            V.put(False if not any(x.op.startswith("iv") for f in o.facts.all() for x in subterms(f)) else None, "%s: it throws" % said)
            taken += 1
            continue
        got, sizes = {}, []

        def put(dst, size, src, env, k=0):
            base = [x for x in lin(dst)[1] if x.op == "data" or x.op == "ld" and x.a[0] is arg(0) and is_c(x.a[1]) and x.a[1].a[0] == 8]
            if len(base) != 1:
                raise Unclear("stored at %s" % show(dst))
            d = at(dst, base[0], env)
            s = at(src, p, env) if src is not None else None
            if d is None or src is not None and s is None:
                raise Unclear("stored at %s" % show(dst))
            for j in range(size):
                got[d + j] = s + j if src is not None else None

        def emit(e, env):
            if e.kind == "self" and e.name == "resize":
                x = bval(e.args[0], env)
                if x is None:
                    raise Unclear("size")
                sizes.append(x)
                got.clear()
            elif e.kind == "store":
                a, z, v = e.args
                if v.op == "ld":
                    put(a, z.a[0], addr(v), env)
                elif v.op == "agg" and all(x.op == "ld" for x in v.a):
                    put(a, z.a[0] // 2, addr(v.a[0]), env)
                    put(add(a, C(z.a[0] // 2)), z.a[0] // 2, addr(v.a[1]), env)
                elif is_c(v):
                    put(a, z.a[0], None, env)
                else:
                    raise Unclear("stores %s" % show(v))
            elif e.kind in ("memcpy", "memmove"):
                z = bval(e.args[2], env)
                if z is None:
                    raise Unclear("copied")
                put(e.args[0], z, e.args[1], env)
            elif e.kind not in ("self", "life", "read", "JOIN"):
                raise Unclear(e.kind)
        try:
            instantiate(list(o.events()), env, emit, frozenset(o.facts.all()))
        except Unclear as e:
            V.put(None, "%s: %s" % (said, e))
            taken += 1
            continue
        taken += 1
        w = {es * m0 + j: j for j in range(es * N)}
        if sizes:
            V.put(sizes[-1] == m0 + N, "%s: the array has %d elements afterwards" % (said, sizes[-1]))
        else:
            V.put(False if N and not ctor else None if N else True, "%s: the size stays" % said)
        bad = sorted(x for x in set(w) | set(got) if w.get(x, -1) != got.get(x, -1))
        V.put(not bad, "%s: byte %s is %s" % (said, bad[:1], "byte %s of the data" % got[bad[0]] if bad and got.get(bad[0]) is not None else "not stored"))
    if not taken:
        V.put(None, "%s: no path" % said)


# ---------------------------------------------------------------- ranges
def ranges(R, prog):
    for nm in ("range", "irange"):
        for k in (3, 1):
            key = "%s(%s)" % (nm, "from, to, step" if k == 3 else "to")
            with R.guard(key, "range"):
                f = var_fn(prog, nm, nargs=k, ns="libube::")
                r = SeqRun(R, prog, f)
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    one_range(r, o, V, nm, k)
                done(R, r, key, V, "range")


def origin(t):
    """the var a content comes from"""
    while t.op in ("mut", "vx", "ivx") and len(t.a) > 1:
        t = t.a[1] if t.op == "mut" else t.a[-1]
    return t


def one_range(r, o, V, nm, k):
    args = r.c
    if k == 1:
        calls = [e for e in walk(o.events()) if re.search(r"libube::i?range\(", str(e.name))]
        if calls:
            V.put(None, "made in another way")
            return
        hi = args[0]
        z = mk("m:operator-", hi, hi, ZERO)
        first = z if nm == "irange" else mk("m:operator+", z, mk("num", "int", ONE), ZERO)
    else:
        hi, first = args[1], args[0]
    Ls = [e for e in o.events() if isinstance(e, Loop)]
    if len(Ls) != 1 or len(Ls[0].bodies) != 1:
        V.put(None, "not one loop")
        return
    fs, body = Ls[0].bodies[0]
    ev = [e for e in body if not isinstance(e, Loop) and e.kind == "var" and e.name in ("push", "operator+=", "assign", "append", "insert")]
    names = [e.name for e in ev]
    if names != ["push", "operator+="]:
        V.put(None if len(names) != 1 else None, "an iteration does %s" % names)
        return
    x, (t, s) = ev[0].args[1], ev[1].args[:2]
    V.put(True if x is t else None, "pushed %s, stepped %s" % (show(x), show(t)))
    # what is stepped is a var of this function: an argument may be a reference
    mine = t.op == "m:copy" or t.op.startswith("m:operator")
    V.put(True if mine else False if t in args and t.op == "v0" else None, "the argument %s, which can be a reference, is changed" % show(t))
    cond = [c for c in fs.all() if any(y.op in ("m:<", "m:==", "m:!=") for y in subterms(c))]
    for lo, hi, st in INSTANCES:
        if k == 1:
            lo, st = 0 if nm == "irange" else 1, 1
        w = []
        T_ = "float" if any(isinstance(x, float) for x in (lo, hi, st)) else "int"
        v = lo
        while v <= hi if nm == "range" else v < hi:
            w.append((T_, v))
            v += st
        env = dict(zip(args, (lo, hi, st) if k == 3 else (hi,)))
        say = "from %s to %s in steps of %s" % (lo, hi, st)
        try:
            cur, got = number(t, env), []
            while len(got) < 20 and all(holds(c, env, t, cur) for c in cond):
                got.append(cur)
                d = number(s, env) if k == 3 or s.op != "num" else (T_, s.a[1].a[0])
                cur = (cur[0], cur[1] + d[1])
        except Unclear as e:
            V.put(None, "%s: %s" % (say, e))
            continue
        V.put(got == w, "%s: %s instead of %s" % (say, *(", ".join("%s%s" % (x[1], "" if x[0] == T_ else " as " + x[0]) for x in y) or "nothing" for y in (got, w))))


INSTANCES = ((1, 5, 1), (0, 5, 1), (0, 5, 2), (1, 6, 2), (2, 2, 1), (3, 2, 1), (3, 1, 1), (0, 0, 1), (-2, 2, 3),
             (0.5, 2.5, 0.5), (0.25, 1.75, 0.5), (1.0, 2.5, 1.0))


def number(t, env, t0=None, cur=None):
    """(type, number) of a content"""
    if t is t0:
        return cur
    if t in env:
        return "float" if any(isinstance(x, float) for x in env.values()) else "int", env[t]
    if t.op == "num" and isinstance(t.a[0], str) and is_c(t.a[1]):
        return t.a[0], t.a[1].a[0]
    if t.op == "m:copy":
        return number(t.a[0], env, t0, cur)
    if t.op in ("m:operator+", "m:operator-", "m:operator*"):
        a, b = number(t.a[0], env, t0, cur), number(t.a[1], env, t0, cur)
        if a[0] == "int" and b[1] != int(b[1]):
            raise Unclear("converted")
        return a[0], a[1] + b[1] if t.op[-1] == "+" else a[1] - b[1] if t.op[-1] == "-" else a[1] * b[1]
    raise Unclear(show(t))


def holds(c, env, t0, cur):
    if c.op == "not":
        return not holds(c.a[0], env, t0, cur)
    if c.op == "bool":
        return holds(c.a[0], env, t0, cur)
    if c.op in ("m:<", "m:==", "m:!="):
        a, b = number(c.a[0], env, t0, cur), number(c.a[1], env, t0, cur)
        if a[0] != b[0]:
            # values of different types are ordered by their types
            return TAG[a[0]] < TAG[b[0]] if c.op == "m:<" else c.op == "m:!="
        return a[1] < b[1] if c.op == "m:<" else (a[1] == b[1]) == (c.op == "m:==")
    raise Unclear(show(c))


def run(R):
    prog = R.program(*UNITS)
    R.rule("list", "the constructors from a list push each element of the list once, in order, whatever the elements are, and nothing else; list sizes 0 to 4 through the loop summaries")
    R.rule("fill", "the constructors from a size or shape and a value make that many elements and give each of them the value")
    R.rule("array", "the constructors from a pointer and append() make or extend an array of that type with exactly the elements given: strlen(text) characters, or the size given")
    R.rule("store", "Heap(n, data) and Heap::append(n, data): the size grows by n and the bytes of the n elements are those of the data, nothing else is written; sizes 0 to 3 through the loop summaries")
    R.rule("range", "range() and irange(): the first value, the step and the bound are those given; each value below the bound (or equal, for range) is pushed once; the arguments, which can be references, are not changed")
    lists(R, prog)
    filled(R, prog)
    attached(R, prog)
    arrays(R, prog)
    ranges(R, prog)
