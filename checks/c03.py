"""C03: element-wise arithmetic computes the operation it names"""
from fcheck import *

MIN_DECIDED = 25
OPS = {"N6libube3AddE": "fadd", "N6libube3SubE": "fsub", "N6libube3MulE": "fmul", "N6libube3DivE": "fdiv"}
NAMES = {"fadd": "Add", "fsub": "Sub", "fmul": "Mul", "fdiv": "Div"}
INT = {"fadd": lambda a, b: add(a, b), "fsub": lambda a, b: sub(a, b), "fmul": lambda a, b: mul(a, b), "fdiv": lambda a, b: mk("sdiv", a, b)}


def formula(op, ty, a, b):
    if ty == "char":
        w = lambda x: x if op != "fdiv" else mk("sext8", x)
        return mk("trunc8", strip_ext(INT[op](w(a), w(b))))
    if ty in ("int", "long"):
        return INT[op](a, b)
    return fsimp(op, a, b)


def scalars(R, P):
    for cls, op in OPS.items():
        n = NAMES[op]
        for ty in TYPES:
            for place in ("out", "in"):
                key = "%s.scalar.%s.%s" % (n, ty, place)
                with R.guard(key, "scalar"):
                    al = {2: 0} if place == "in" else None
                    r = Run(R, P, cls, "scalar", 3, lambda q: q.kind(0, ty, "scalar") + distinct(q, 0, 1, 2), alias=al)
                    want = formula(op, ty, el(r.c[0], ty), castt(r.c[1], ty))
                    wants = [want]
                    verdict_all(R, key, r, lambda o: match_one(r, o, r.c[2], ty, [want, formula(op, ty, el(r.c[0], ty), el(r.c[1], ty))] if known_types(r, o).get(r.c[1]) == ty else want), "scalar")


def powset(R, P):
    for ty in ("float", "double", "cfloat", "cdouble"):
        for place in ("out", "in"):
            key = "Pow.scalar.%s.%s" % (ty, place)
            with R.guard(key, "scalar"):
                r = Run(R, P, "N6libube3PowE", "scalar", 3, lambda q: q.kind(0, ty, "scalar") + distinct(q, 0, 1, 2),
                        alias={2: 0} if place == "in" else None)
                verdict_all(R, key, r, lambda o: match_one(r, o, r.c[2], ty, mk("fn:pow", el(r.c[0], ty), castt(r.c[1], ty))), "scalar")
    for ty in TYPES:
        key = "Set.scalar.%s" % ty
        with R.guard(key, "scalar"):
            r = Run(R, P, "N6libube3SetE", "scalar", 3, lambda q: q.kind(2, ty, "scalar") + distinct(q, 0, 1, 2))
            verdict_all(R, key, r, lambda o: match_one(r, o, r.c[2], ty, castt(r.c[1], ty)), "scalar")


VEC = [("Add", "fadd", ("float", "double", "cfloat", "cdouble"), ("float", "double")),
       ("Sub", "fsub", ("float", "double", "cfloat", "cdouble"), ("float", "double")),
       ("Mul", "fmul", ("float", "double", "cfloat", "cdouble"), ("float", "double"))]


def vectors(R, P):
    for n, op, tys, must in VEC:
        cls = "N6libube%d%sE" % (len(n), n)
        for ty in tys:
            for place in ("out", "in"):
                key = "%s.vector.%s.%s" % (n, ty, place)
                with R.guard(key, "vector"):
                    al = {4: 0, 5: 1} if place == "in" else None
                    r = Run(R, P, cls, "vector", 6, lambda q: q.kind(0, ty, "array") + q.kind(2, ty, "array") +
                            q.kind(4, ty, "array") + distinct(q, 0, 2, 4), alias=al)
                    p1, p2, po = ptr(r.c[0], ty, r.c[1]), ptr(r.c[2], ty, r.c[3]), ptr(r.c[4], ty, r.c[5])
                    want = {po: (ty, fsimp(op, mk("ev", p1), mk("ev", p2)))}
                    if ty not in must and not r.rets():
                        R.ob(key, True, "rejected by an exception", r.dem, "vector")
                        continue
                    verdict_all(R, key, r, lambda o: match_vec(r, o, want, [mk("m:size", r.c[2], ZERO)]), "vector")
    for ty in ("float", "double"):
        key = "Set.vector.%s" % ty
        with R.guard(key, "vector"):
            r = Run(R, P, "N6libube3SetE", "vector", 6, lambda q: q.kind(0, ty, "array") + q.kind(2, ty, "array") +
                    q.kind(4, ty, "array") + distinct(q, 0, 2, 4))
            p2, po = ptr(r.c[2], ty, r.c[3]), ptr(r.c[4], ty, r.c[5])
            verdict_all(R, key, r, lambda o: match_vec(r, o, {po: (ty, mk("ev", p2))}, [mk("m:size", r.c[2], ZERO)]), "vector")
    # multiplication of an array by a single value
    for ty in ("float", "double"):
        for place in ("out", "in"):
            key = "Mul.scale.%s.%s" % (ty, place)
            with R.guard(key, "vector"):
                r = Run(R, P, "N6libube3MulE", "broadcast", 3, lambda q: q.kind(0, ty, "array") + q.kind(2, ty, "array") + distinct(q, 0, 1, 2) +
                        [eq(mk("m:dim", q.c[1], ZERO), ONE), eq(mk("m:size", q.c[1], ZERO), ONE)],
                        alias={2: 0} if place == "in" else None)
                p1, po = ptr(r.c[0], ty, ZERO), ptr(r.c[2], ty, ZERO)
                w = {po: (ty, fsimp("fmul", castt(r.c[1], ty), mk("ev", p1)))}

                def m(o):
                    v, t = match_vec(r, o, w, [mk("m:size", r.c[0], ZERO)])
                    if v is not True:
                        v2, t2 = elementwise(r, o)
                        if v2 is True:
                            return v2, t2
                    return v, t
                verdict_all(R, key, r, m, "vector")


def elementwise(r, o):
    return None, ""


def dispatch(R, P):
    """a whole array as first operand is handed to the broadcaster"""
    for n in ("Add", "Sub", "Mul", "Div", "Pow", "Set"):
        cls = "N6libube%d%sE" % (len(n), n)
        for ty in ("float", "cdouble"):
            key = "%s.dispatch.%s" % (n, ty)
            with R.guard(key, "dispatch"):
                k = 2 if n == "Set" else 0
                r = Run(R, P, cls, "scalar", 3, lambda q: q.kind(k, ty, "array2" if ty == "cdouble" else "array") + distinct(q, 0, 1, 2))
                verdict_all(R, key, r, lambda o: delegates(r, o, "broadcast", [r.c[0], r.c[1], r.c[2]]), "dispatch")


OPNAME = {"+": "add", "-": "sub", "*": "mul", "/": "div"}


def operators(R):
    P = R.program(PROBE, "lube/var.cpp")
    two = mk("num", mk("T", "int"), C(-1))
    for op, f in OPNAME.items():
        g = mk("global", "_ZN6libube3%sE" % f)
        for suffix, const in (("", " const"), ("=", "")):
            key = "operator" + op + suffix
            with R.guard(key, "operator"):
                fn = method_of(P, "libube::var::operator" + op + suffix, 1)
                r = Run(R, P, None, None, 0, fn=fn, policy=HeaderPolicy, setup=None)
                a, b = r.this, r.c[0]
                verdict_all(R, key, r, lambda o: applies(r, o, g, [a, b] + ([a] if suffix else []), bool(suffix)), "operator")
    with R.guard("operator-unary", "operator"):
        fn = method_of(P, "libube::var::operator-", 0)
        r = Run(R, P, None, None, 0, fn=fn, policy=HeaderPolicy)
        verdict_all(R, "operator-unary", r, lambda o: negates(r, o), "operator")


def negates(r, o):
    g = mk("global", "_ZN6libube3mulE")
    fs = [x for x in walk(o.events()) if x.kind == "functor"]
    if len(fs) == 1 and len(fs[0].args) == 3 and fs[0].args[0] is g:
        m = [x for x in fs[0].args[1:] if x.op == "num"]
        if len(m) == 1 and r.this in fs[0].args[1:]:
            if not is_c(m[0].a[1]) and m[0].a[1].op != "f":
                return None, "multiplies by %s" % show(m[0])
            return m[0].a[1].a[0] == -1, "%s: multiplies by %s" % (fs[0].where(), show(m[0]))
    return None, "not a multiplication"


def protocol(R, P):
    """applying a functor object: allocate, compute into it, return it; with a
    result argument: compute into that and return it"""
    for cls, n in (("Unary", 1), ("Binary", 2), ("Nary", 1)):
        for withres in (False, True):
            key = "%sFunctor.apply%d" % (cls, n + withres)
            with R.guard(key, "protocol"):
                fn = method_of(P, "libube::%sFunctor::operator()" % cls, n + withres)
                r = Run(R, P, None, None, 0, fn=fn)
                verdict_all(R, key, r, lambda o: applied(r, o, cls, n, withres), "protocol")


def applied(r, o, cls, n, withres):
    ms = [x for x in walk(o.events()) if x.kind == "method"]
    names = [x.name.split("::")[-1] for x in ms]
    ins = r.c[:n]
    if [x for x in walk(o.events()) if x.kind in ("call", "var")]:
        return None, "other operations"
    if withres:
        if names != ["scalar"]:
            return None, "calls %s" % names
        if list(ms[0].args[1:]) != ins + [r.c[n]]:
            return False, "%s: computes %s" % (ms[0].where(), [show(x) for x in ms[0].args[1:]])
        v = o.st.aux.get(("v", r.sret)) if r.sret is not None else None
        if v is None:
            return None, "no result"
        return (v is r.c[n]) or (False if v.op in ("nil", "v0") else None), "returns %s" % show(v)
    if names == ["scalar"] and ms[0].args[-1] in ins:
        return False, "%s: computes into an operand" % ms[0].where()
    if names != ["alloc", "scalar"]:
        return None, "calls %s" % names
    if list(ms[0].args[1:]) != ins:
        return False, "%s: allocates for %s" % (ms[0].where(), [show(x) for x in ms[0].args[1:]])
    res = mk("m:alloc", *ms[0].args)
    if list(ms[1].args[1:]) != ins + [res]:
        return False, "%s: computes %s" % (ms[1].where(), [show(x) for x in ms[1].args[1:]])
    v = o.st.aux.get(("v", r.sret))
    if v is None:
        return None, "no result"
    return (v is res) or (False if v.op in ("nil", "v0") else None), "returns %s" % show(v)


def run(R):
    R.rule("scalar", "for a scalar of each type the result location receives op(first operand, second operand converted to the "
                     "type of the first), out of place and in place, and nothing else is written")
    R.rule("vector", "for arrays every element of the result region receives op of the corresponding elements; the operands are "
                     "only changed when the result is the first operand")
    R.rule("dispatch", "an array as first operand (destination, for assignment) goes to the broadcaster with the operands in order")
    R.rule("operator", "each arithmetic operator of the public type applies the operation it names to its operands in order; the "
                       "compound form stores into and returns the left operand")
    R.rule("protocol", "applying an operation without a result argument computes into newly allocated storage and returns it; "
                       "with one, computes into it and returns it")
    P = R.program(*UNITS)
    scalars(R, P)
    powset(R, P)
    vectors(R, P)
    dispatch(R, P)
    protocol(R, P)
    operators(R)
