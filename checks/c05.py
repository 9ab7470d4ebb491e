"""C05: mathematical functions apply the named function in the type of the argument"""
from fcheck import *

MIN_DECIDED = 30
SAME = {"Sin": "sin", "Cos": "cos", "Tan": "tan", "ATan": "atan", "Sqrt": "sqrt", "Log": "log", "Exp": "exp"}
REAL = {"Real": "real", "Imag": "imag", "Abs": "abs", "Arg": "arg", "Norm": "norm"}
RT = {"float": "float", "double": "double", "cfloat": "float", "cdouble": "double"}
CLS = "N6libube%d%sE"


def cls(n):
    return CLS % (len(n), n)


def forms(f, x):
    r = [mk("fn:" + f, x)]
    if f in ("floor", "abs"):
        r += [mk("m:" + f, x), mk("fn:f" + f, x), mk("m:f" + f, x)]
    return r


def scalars(R, P):
    for n in list(SAME) + ["Floor"] + list(REAL):
        f = SAME.get(n) or REAL.get(n) or "floor"
        for ty in ("float", "double", "cfloat", "cdouble"):
            for place in ("out", "in"):
                key = "%s.scalar.%s.%s" % (n, ty, place)
                with R.guard(key, "scalar"):
                    r = Run(R, P, cls(n), "scalar", 2, lambda q: q.kind(0, ty, "scalar") + distinct(q, 0, 1),
                            alias={1: 0} if place == "in" else None)
                    if n == "Floor" and ty[0] == "c":
                        rejects(R, key, r, "reject")
                        continue
                    rt = RT[ty] if n in REAL else ty
                    verdict_all(R, key, r, lambda o: result(r, o, rt, forms(f, el(r.c[0], ty)), ty), "scalar")
        for ty in ("char", "int", "long"):
            key = "%s.scalar.%s" % (n, ty)
            with R.guard(key, "reject"):
                r = Run(R, P, cls(n), "scalar", 2, lambda q: q.kind(0, ty, "scalar") + distinct(q, 0, 1))
                # accepting more types is not an error as long as the result is right
                if r.rets():
                    v, t = None, "accepted"
                    for o in r.rets():
                        ev = list(walk(o.events()))
                        if not [e for e in ev if e.kind != "read"] and not r.E.warn:
                            v, t = False, "a value of type %s is accepted, nothing is written" % ty
                    R.ob(key, v, t, r.dem, "reject")
                else:
                    rejects(R, key, r, "reject")
        for ty in ("float", "cdouble"):
            key = "%s.dispatch.%s" % (n, ty)
            with R.guard(key, "dispatch"):
                r = Run(R, P, cls(n), "scalar", 2, lambda q: q.kind(0, ty, "array2" if ty == "cdouble" else "array") + distinct(q, 0, 1))
                verdict_all(R, key, r, lambda o: delegates(r, o, "broadcast", r.c), "dispatch")


def result(r, o, rt, fs, ty):
    """the imaginary part and argument of a real value are constant on the
    non-negative axis, so only the function form is required"""
    # the same function computed from its definition is not judged
    def vague(v):
        sub_ = set(subterms(v))
        return any(x.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "f", "fn:pow", "fn:hypot", "fn:atan2") for x in sub_) and \
            not any(canon(f) in sub_ for f in fs)
    return match_one(r, o, r.c[1], rt, fs, vague=vague)


def m(n, c, *a):
    return mk("m:" + n, c, *(list(a) + [ZERO]))


def tracked(o, c):
    return o.st.aux.get(("v", c))


def view_of(o, ret):
    """(shape term, initial value content) when the result is a new view"""
    if ret is None:
        return None
    if ret.op == "m:view" or ret.op.startswith("m:ctor") or ret.op == "fn:view":
        return ret
    return ret


def allocs(R, P):
    """results of the real valued functions have the shape of the argument and
    the real type"""
    for n in REAL:
        for ty in ("float", "double", "cfloat", "cdouble"):
            key = "%s.alloc.%s" % (n, ty)
            with R.guard(key, "alloc"):
                r = Run(R, P, cls(n), "alloc", 1, lambda q: q.kind(0, ty, "array"))
                verdict_all(R, key, r, lambda o: newview(r, o, m("shape", r.c[0]), RT[ty]), "alloc")


def newview(r, o, shape, ty):
    v = tracked(o, r.sret)
    if v is None:
        return None, "no result"
    s = show(v)
    if v.op == "m:free.view":
        sh, iv = v.a[0], v.a[1]
        if iv.op == "num" and iv.a[0] in SIZEOF:
            if iv.a[0] != ty:
                return False, "allocates elements of type %s, not %s" % (iv.a[0], ty)
            if sh is shape:
                return True, s
            return None, "shape %s" % show(sh)
    if v.op == "nil":
        return False, "nothing is allocated"
    if v.op == "num" and v.a[0] in SIZEOF:
        return False, "allocates a single value"
    return None, s


def members(R):
    P = R.program(PROBE, "lube/var.cpp")
    for meth, f in (("floor", "floor"), ("sin", "sin"), ("cos", "cos"), ("sqrt", "sqrt"), ("log", "log"), ("exp", "exp"),
                    ("real", "real"), ("imag", "imag"), ("abs", "abs"), ("arg", "arg"), ("norm", "norm")):
        key = "member." + meth
        with R.guard(key, "member"):
            fn = method_of(P, "libube::var::" + meth, 0)
            r = Run(R, P, None, None, 0, fn=fn, policy=HeaderPolicy)
            g = mk("global", "_ZN6libube%d%sE" % (len(f), f))
            verdict_all(R, key, r, lambda o: applies2(r, o, g), "member")
    key = "member.pow"
    with R.guard(key, "member"):
        fn = method_of(P, "libube::var::pow", 1)
        r = Run(R, P, None, None, 0, fn=fn, policy=HeaderPolicy)
        verdict_all(R, key, r, lambda o: applies2(r, o, mk("global", "_ZN6libube3powE"), r.c[0]), "member")


def applies2(r, o, g, *more):
    v, t = applies(r, o, g, [r.this] + list(more) + [r.this], True)
    if v is None or v is False:
        v2, t2 = applies(r, o, g, [r.this] + list(more), False)
        if v2 is True:
            return False, t2 + ": the object is not updated"
    return v, t


def objects(R, P):
    """each global function object is an instance of the class it names"""
    vt = P.vtables()
    for n in list(SAME) + ["Floor", "Pow", "Set", "Swap", "Add", "Sub", "Mul", "Dot", "Div", "ASum", "Sum", "IAMax", "Concatenate",
                           "Roots", "Poly", "Sort", "Transpose"] + list(REAL):
        g = "_ZN6libube%d%sE" % (len(n), n.lower())
        key = "object." + n
        with R.guard(key, "object"):
            hit = None
            for mo in P.mods:
                d = mo.globals.get(g)
                if d is not None and "external global" not in d:
                    hit = d
            if hit is None:
                R.ob(key, None, "no definition of %s" % P.dem(g), "", "object")
                continue
            mm = re.search(r'(?:%|class\.|struct\.)"?(?:class\.|struct\.)?(libube::\w+)', hit)
            if mm is None:
                R.ob(key, None, hit[:80], "", "object")
            else:
                v = re.search(r"_ZTV(\w+)", hit)
                got = mm.group(1)
                R.ob(key, True if got == "libube::" + n else False, "%s is a %s" % (P.dem(g), got), P.dem(g), "object")


def run(R):
    R.rule("scalar", "for a value of each floating type the result is the named function of it, computed in its own type (real valued "
                     "functions give the corresponding real type)")
    R.rule("reject", "types without the function are rejected by an exception with nothing written")
    R.rule("dispatch", "an array goes to the broadcaster with argument and result in order")
    R.rule("alloc", "a real valued function allocates the shape of its argument with the corresponding real type")
    R.rule("member", "the member form applies the function of the same name to the object in place and returns it")
    R.rule("object", "each function object is an instance of the operation it names")
    P = R.program(*UNITS)
    scalars(R, P)
    allocs(R, P)
    members(R)
    objects(R, P)
