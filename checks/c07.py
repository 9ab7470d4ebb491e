"""C07: what a var says of itself is what it holds

The queries on which everything else is built (size, type, element type,
definedness, identity, text) are interpreted for every kind of content: nil, a
value of each type, an array, and a reference to an element."""
import re
from core import *
from heapm import *
from report import *
from bytem import cstring
import c02
from c02 import Verdict, vm, clear_h, index_of, hp, VALTYPES

MIN_DECIDED = 40
KINDS = ("nil", "array", "scalar", "ref")
A = arg(0)
NAMES = ["array", "char", "int", "long", "float", "double", "cfloat", "cdouble", "var", "pair"]


def done(R, r, k, V, rule):
    c02.done(R, r, k, V, rule)


def hq(name, *a):
    return mk("h:" + name, *a, ZERO)


def want(meth):
    p, i = hp_of(A), index_of(A)
    dh = mk("h:derefHeap", p, i)
    return {
        "size": dict(nil=ZERO, array=hq("size", p), scalar=ONE, ref=hq("derefSize", p, i)),
        "type": dict(nil=ZERO, array=ZERO, scalar=ty_of(A), ref=hq("derefType", p, i)),
        "atype": dict(nil=None, array=hq("type", p), scalar=ty_of(A), ref=hq("derefAType", p, i)),
        "defined": dict(nil=ZERO, array=ONE, scalar=ONE, ref=hq("defined", p, i)),
        "heap": dict(nil=ZERO, array=p, scalar=ZERO, ref=dh),
    }[meth]


def truth(o, v):
    """the truth a value has on a path"""
    return o.facts.decide(NOT(eq(v, ZERO))) if v.op != "bool" else o.facts.decide(v)


def agrees(o, v, w, boolean=False):
    """the value is the one wanted: True, False, or None"""
    if v is w:
        return True
    if boolean:
        core = v.a[0] if v.op == "bool" else v
        if core is w or norm(core) is norm(w):
            return True
        if is_c(w):
            t = truth(o, v)
            return t if t is None else t == (w is not ZERO)
        if is_c(v):
            t = o.facts.decide(mk("bool", w))
            if t is None:
                t = o.facts.decide(NOT(eq(w, ZERO)))
            if t is not None:
                return t == (v is not ZERO)
            return False if not unknown(o) else None
        return False if clear_h(v) and v.op == "bool" and core.op.startswith("h:") else None
    d = o.facts.decide(eq(v, w))
    if d is not None:
        return d
    return False if clear_h(v) else None


def unknown(o):
    return any(e.kind in ("call", "JOIN") for e in walk(o.events())) or \
        any(x.op in ("call", "unk", "ft", "fh", "undef") for y in o.facts.all() for x in subterms(y))


def queries(R, prog):
    for meth in ("size", "type", "atype", "defined", "heap"):
        f = vm(prog, r"^libube::var::%s\(\) const$" % meth)
        for kind in KINDS:
            k = "%s{%s}" % (meth, kind)
            with R.guard(k, "query"):
                r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(A, kind))
                w = want(meth)[kind]
                V = Verdict(bool(r.outs))
                for o in r.outs:
                    if o.kind != "ret":
                        und = o.facts.decide(mk("bool", hq("defined", hp_of(A), index_of(A))))
                        if meth == "atype" and (kind == "nil" or kind == "ref" and und is False):
                            continue
                        V.put(False if o.kind == "unw" and not unknown(o) and not (meth == "atype" and kind == "ref") else None, "it is refused")
                        continue
                    if w is None:
                        V.put(False if not unknown(o) else None, "nil has an element type, %s" % show(o.val))
                        continue
                    V.put(agrees(o, o.val, w, meth == "defined"), "%s of %s is %s" % (meth, kind, show(o.val)))
                done(R, r, k, V, "query")


def types(R, prog):
    """atype<T>()"""
    tys = VALTYPES + ("var", "pair")
    for ty in tys:
        tn = {"var": "libube::var", "pair": "libube::pair"}.get(ty, c02.CPP.get(ty, ty))
        tp = tn + " " if tn.endswith(">") else tn
        for kind in ("array", "ref", "scalar"):
            if kind == "scalar" and ty in ("cdouble", "var", "pair"):
                continue
            k = "atype<%s>{%s}" % (ty, kind)
            with R.guard(k, "type"):
                f = vm(prog, r"libube::var::atype<%s>\(\) const$" % re.escape(tp))
                V = Verdict()
                for other in range(1, 10 if kind != "scalar" else 7):
                    q = {"array": hq("type", hp_of(A)), "ref": hq("derefAType", hp_of(A), index_of(A)), "scalar": ty_of(A)}[kind]
                    d = [mk("bool", hq("defined", hp_of(A), index_of(A)))] if kind == "ref" else []
                    r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(A, kind) + d + [eq(q, C(other))])
                    rets = r.rets()
                    V.put(True if rets else None, "no outcome")
                    for o in rets:
                        t = truth(o, o.val)
                        V.put(None if t is None else t == (other == TAG[ty]), "it is %s for %s of %s" % (t, "an element" if kind == "ref" else "a " + kind, NAMES[other]))
                done(R, r, k, V, "type")


def identity(R, prog):
    f = vm(prog, r"^libube::var::is\(libube::var&\) const$")
    for k0 in KINDS:
        for k1 in KINDS:
            k = "is{%s,%s}" % (k0, k1)
            with R.guard(k, "same storage"):
                r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(A, k0) + kind_facts(r.formals[0], k1) + [NOT(eq(A, r.formals[0]))])
                b = r.formals[0]

                def heap_of(a, kind):
                    return hp_of(a) if kind == "array" else mk("h:derefHeap", hp_of(a), index_of(a))
                V = Verdict(bool(r.rets()))
                for o in r.rets():
                    t = truth(o, o.val)
                    if not {k0, k1} <= {"array", "ref"}:
                        V.put(None if t is None else not t, "what has no array has the same storage")
                        continue
                    p, q = heap_of(A, k0), heap_of(b, k1)
                    null = [o.facts.decide(eq(x, ZERO)) for x in (p, q)]
                    if True in null:
                        V.put(None if t is None else not t, "what has no array has the same storage")
                        continue
                    e = o.facts.decide(eq(hp("char", p, ZERO), hp("char", q, ZERO)))
                    if t is None and o.val.op in ("bool", "eq0"):
                        xs = set(subterms(o.val))
                        V.put(True if {hp("char", p, ZERO), hp("char", q, ZERO)} <= xs else None, "what is compared")
                        continue
                    if p is q:
                        V.put(None if t is None else t, "one array is not the same storage as itself")
                    elif e is None:
                        same = o.facts.decide(eq(p, q))
                        V.put(None if same is True or unknown(o) or t is None else False, "storage %s although the elements of the arrays are not compared" % ("shared" if t else "distinct"))
                    else:
                        V.put(None if t is None else t == e, "arrays whose elements are %s storage" % ("in the same place are not the same" if e else "in different places are the same"))
                done(R, r, k, V, "same storage")
    k = "is{itself}"
    with R.guard(k, "same storage"):
        def prep(run):
            run.formals[0] = A
        r = CoreRun(R, prog, f, unwind=False, setup=lambda r: [eq(A, r.formals[0])])
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            if o.facts.decide(eq(A, r.formals[0])) is not True:
                V.put(None, "not the same object")
                continue
            t = truth(o, o.val)
            V.put(t, "a var is not the same as itself")
        done(R, r, k, V, "same storage")


def views(R, prog):
    f = vm(prog, r"^libube::var::view\(\) const$")
    for kind in KINDS:
        k = "view(){%s}" % kind
        with R.guard(k, "query"):
            r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(A, kind))
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                t = truth(o, o.val)
                p = hp_of(A) if kind == "array" else mk("h:derefHeap", hp_of(A), index_of(A))
                if kind in ("nil", "scalar") or kind == "ref" and o.facts.decide(eq(p, ZERO)) is True:
                    V.put(None if t is None else not t, "what is not an array is a view")
                    continue
                v = mk("h:view", p)
                v.ptr = True
                isv = o.facts.decide(NOT(eq(v, ZERO)))
                if o.val in (NOT(eq(v, ZERO)), mk("bool", v)):
                    V.put(True, "")
                elif isv is None:
                    V.put(False if t is not None and not unknown(o) else None, "whether the array is a view is not asked")
                else:
                    V.put(None if t is None else t == isv, "an array which is %sa view is said %sto be one" % ("" if isv else "not ", "" if t else "not "))
            done(R, r, k, V, "query")


def text(R, prog):
    f = vm(prog, r"^libube::var::str\(\) const$")
    for kind in KINDS:
        k = "str(){%s}" % kind
        with R.guard(k, "text"):
            r = CoreRun(R, prog, f, unwind=False, setup=lambda r: kind_facts(A, kind))
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                p = hp_of(A) if kind == "array" else mk("h:derefHeap", hp_of(A), index_of(A))
                if kind == "array" or kind == "ref" and o.facts.decide(eq(p, ZERO)) is False:
                    w = hp("char", p, ZERO)
                    V.put(True if o.val is w else False if clear_h(o.val) or o.val.op == "global" and not unknown(o) else None, "the text of an array is at %s" % show(o.val))
                else:
                    b, off = r.E.split(o.val)
                    V.put(True if b.op in ("global", "str") else False if is_c(o.val) or o.val.op.startswith("hp:") else None, "the text of what is not an array is at %s" % show(o.val))
            done(R, r, k, V, "text")


def names(R, prog):
    f = vm(prog, r"^libube::typeStr\(libube::ind\)$")
    for t, n in enumerate(NAMES + [None]):
        k = "typeStr(%s)" % (n or "other")
        with R.guard(k, "name"):
            r = CoreRun(R, prog, f, unwind=False, setup=lambda r: [eq(r.args[0], C(t if n else 10))])
            V = Verdict(bool(r.outs))
            for o in r.outs:
                if o.kind != "ret":
                    V.put(False if n else True, "the type has no name")
                    continue
                if not n:
                    V.put(False if o.val.op in ("str", "global") else None, "what is not a type is %s" % show(o.val))
                    continue
                w = cstring(prog, o.val)
                w = None if w is None else w.split(b"\0")[0].decode("latin-1")
                V.put(True if w == n else False if w is not None else None, "%s is called %s" % (n, show(o.val)))
            done(R, r, k, V, "name")


# ---------------------------------------------------------------- no array, no call
PRIVATE = ("data", "varderef", "reference", "attach", "detach", "binary", "~var", "get", "ptr")


class QuickPolicy(CorePolicy):
    cap = 200
    maxout = 400
    budget = 50000
    raw = RAW | {"view", "array"}


def publics(prog):
    seen = set()
    for n, f in sorted(prog.defs.items()):
        d = prog.dem(n)
        s = short(d)
        if not s.startswith("libube::var::") or not f.order:
            continue
        m = re.sub(r"<.*>$", "", s[13:])
        k = re.sub(r"^.*?libube::var::", "", d)
        if m in PRIVATE or k in seen or m == "var" and not sig_args(d):
            continue
        seen.add(k)
        f.params
        yield f, d, k, m, sig_args(d)


def null_calls(R, prog, f, d, k, m, sig, ks):
    key = "%s{%s}" % (k, ",".join(ks))
    R.functions.add(d)
    with R.guard(key, "no array"):
        nv = [i for i, s in enumerate(sig) if re.match(r"libube::var( const)?&{0,2}$", s)]
        bad = {}

        def setup(r):
            fs = []
            for a, x in zip(([] if m == "var" else [A]) + [r.formals[i] for i in nv], ks):
                fs += kind_facts(a, x)
                if x in ("nil", "scalar"):
                    bad[hp_of(a)] = x
            return fs
        r = CoreRun(R, prog, f, unwind=False, policy=QuickPolicy, setup=setup)
        V = Verdict(bool(r.outs))
        R.sites += len(r.outs)
        for o in r.outs:
            for e in walk(o.events()):
                if e.kind == "heap" and e.args and isinstance(e.args[0], T):
                    p = e.args[0]
                    if p is ZERO or p in bad:
                        V.put(False, "%s() of an array is called through %s at %s" % (e.name, "nil" if bad.get(p, "nil") == "nil" else "a value", e.where()))
        done(R, r, key, V, "no array")


def tasks_null(R, prog):
    import itertools
    for f, d, k, m, sig in publics(prog):
        n = sum(1 for s in sig if re.match(r"libube::var( const)?&{0,2}$", s)) + (m != "var")
        for ks in itertools.product(*[("nil", "scalar", "array")] * n):
            if set(ks) - {"array"}:
                yield lambda R, f=f, d=d, k=k, m=m, sig=sig, ks=ks: null_calls(R, prog, f, d, k, m, sig, ks)


def run(R):
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.rule("query", "size, type, element type, definedness and array of a var are those of its array, of its value, or of the element it refers to; nil has none")
    R.rule("type", "atype<T>() holds for the type T of the elements and for no other")
    R.rule("same storage", "is() holds for the same var and for arrays whose elements are in the same place, and not otherwise")
    R.rule("text", "str() is the storage of an array, or a place that holds an empty text")
    R.rule("no array", "a method of an array is never called through a var that is nil or a value")
    R.rule("name", "each type has the name it has in the documentation")
    R.parallel([lambda R: queries(R, prog), lambda R: types(R, prog), lambda R: identity(R, prog), lambda R: views(R, prog), lambda R: text(R, prog),
                lambda R: names(R, prog)] + list(tasks_null(R, prog)))
    return R.finish(MIN_DECIDED)
