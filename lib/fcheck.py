"""Rules shared by the functor checks."""
import os
from effects import *

PROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "probe", "ops.cpp")
UNITS = ("lube/math.cpp", "lube/func.cpp", "lube/clapack.cpp", "lube/transpose-mkl.cpp")


def el(c, ty, i=ZERO):
    return mk("el", c, mk("T", ty), i, ZERO)


def castt(c, ty):
    return mk("cast", c, mk("T", ty), ZERO)


def evp(c, ty, off):
    return mk("ev", ptr(c, ty, off))


def known_types(run, o):
    """{content: type} for scalars whose type is decided on this path"""
    r = {}
    for c in run.c:
        if c.op != "v0":
            continue
        for ty in TYPES:
            if o.facts.decide(eq(mk("m:type", c, ZERO), C(TAG[ty]))) is True:
                r[c] = ty
        if c not in r and o.facts.decide(eq(mk("m:atype", c, ZERO), C(TAG["cdouble"]))) is True and \
                o.facts.decide(eq(mk("m:size", c, ZERO), ONE)) is True:
            r[c] = "cdouble"
    return r


def clearf(t):
    for x in subterms(t):
        if x.op in ("el", "ev", "cast"):
            continue
        if not OKOPS.match(x.op):
            return False
    return True


def where(run):
    f, l = run.fn.loc_decl() if hasattr(run.fn, "loc_decl") else ("", 0)
    return run.dem.split("(")[0]


def distinct(run, *idx):
    """the formals are different arrays"""
    fs = []
    for a in idx:
        for b in idx:
            if a < b and run.c[a] is not run.c[b]:
                x, y = run.c[a], run.c[b]
                fs += [NOT(mk("bool", mk("m:is", x, y, ZERO))), NOT(mk("bool", mk("m:is", y, x, ZERO))),
                       NOT(eq(mk("m:heap", x), mk("m:heap", y)))]
            elif a < b:
                x = run.c[a]
                fs.append(mk("bool", mk("m:is", x, x, ZERO)))
    return fs


def match_one(run, o, dst, ty, want, rule="effect", vague=None):
    """(verdict, message): the run writes exactly `want` of type ty to dst[0]"""
    try:
        e = effect(run, o, known_types(run, o))
    except Contradiction as x:
        return False, str(x)
    except Unmodelled as x:
        return None, str(x)
    if e.vec or e.others or e.calls:
        return None, "other effects: %s" % [str(z)[:80] for z in list(e.vec) + e.others + e.calls][:3]
    if not e.one:
        return False, "nothing is written to the result"
    last = None
    for c, t, at, v, z, x in e.one:
        if c is not dst:
            return False, "%s: writes to %s, which is not the result" % (x.where(), show(c))
        last = (t, at, v, x)
    t, at, v, x = last
    if at is not ZERO:
        return (False if is_c(at) else None), "%s: writes element %s" % (x.where(), show(at))
    if t != ty:
        return False, "%s: writes a value of type %s, not %s" % (x.where(), t, ty)
    ws = want if isinstance(want, (list, tuple)) else [want]
    for w in ws:
        if v is canon(w):
            return True, "%s := %s" % (show(dst), show(v))
    if clearf(v) and not (vague and vague(v)):
        return False, "%s: writes %s, expected %s" % (x.where(), show(v), show(canon(ws[0])))
    return None, "%s: writes %s" % (x.where(), show(v))


def match_vec(run, o, want, counts, allow_one=False):
    """want {address: (type, formula or [formulas])}; counts: acceptable counts"""
    try:
        e = effect(run, o, known_types(run, o))
    except Contradiction as x:
        return False, str(x)
    except Unmodelled as x:
        return None, str(x)
    if e.others or e.calls or e.one:
        return None, "other effects: %s" % [str(z)[:120] for z in e.others + e.calls + e.one][:3]
    for p, (ty, n, f) in e.vec.items():
        if p not in want:
            if p.op == "m:ptr" and any(p.a[0] is q.a[0] for q in want):
                return False, "elements at %s are overwritten" % show(p)
            return False, "elements at %s, which is not the result, are overwritten" % show(p)
    for p, (wt, wf) in want.items():
        if p not in e.vec:
            return False, "the elements of the result at %s are not written" % show(p)
        ty, n, f = e.vec[p]
        if ty != wt:
            return False, "elements are processed as %s, not %s" % (ty, wt)
        cs = [same_count(n, c, o.facts) for c in counts]
        if True not in cs:
            return (False if all(c is False for c in cs) else None), "%s elements are processed, expected %s" % (show(n), show(counts[0]))
        fs = wf if isinstance(wf, (list, tuple)) else [wf]
        if f not in fs:
            return (False if clearf(f) else None), "each element becomes %s, expected %s" % (show(f), show(fs[0]))
    return True, "; ".join("%s[0..%s) := %s" % (show(p), show(v[1]), show(v[2])) for p, v in e.vec.items())


def verdict_all(R, key, run, matcher, rule, throws_ok=False):
    """every outcome of the run satisfies the matcher"""
    outs = [o for o in run.outs if o.kind in ("ret", "unw")]
    if not outs:
        return R.ob(key, None, "no outcome", run.dem, rule)
    rets = [o for o in outs if o.kind == "ret"]
    thr = [o for o in outs if o.kind == "unw"]
    if not rets:
        if throws_ok:
            return R.ob(key, True, "rejected", run.dem, rule)
        return R.ob(key, False, "always throws for a supported type", run.dem, rule)
    res = [matcher(o) for o in rets]
    for v, m in res:
        if v is False:
            return R.ob(key, False, m, run.dem, rule)
    if thr and not throws_ok:
        return R.ob(key, None, "may throw", run.dem, rule)
    for v, m in res:
        if v is None:
            return R.ob(key, None, m, run.dem, rule)
    return R.ob(key, True, res[0][1], run.dem, rule)


def rejects(R, key, run, rule, clean=True):
    """every outcome is an exception, before any element is written"""
    outs = [o for o in run.outs if o.kind in ("ret", "unw")]
    for o in outs:
        if o.kind == "ret":
            if [x for x in walk(o.events()) if x.kind == "throws"]:
                pass
            unknown = [x for x in walk(o.events()) if x.kind == "call"]
            if unknown:
                return R.ob(key, None, "calls %s" % unknown[0].name, run.dem, rule)
            return R.ob(key, False, "returns normally", run.dem, rule)
    for o in outs:
        if clean and [x for x in walk(o.events()) if x.kind in ("store", "blas") or (x.kind == "var" and x.name.startswith("assign"))]:
            return R.ob(key, False, "writes before throwing", run.dem, rule)
    if not outs:
        return R.ob(key, None, "no outcome", run.dem, rule)
    return R.ob(key, True, "throws", run.dem, rule)


def method_of(prog, name, nargs):
    """defined function with this qualified name and number of arguments"""
    hits = [f for n, f in prog.defs.items() if short(prog.dem(n)) == name and len(sig_args(prog.dem(n))) == nargs]
    if not hits:
        raise Vanished("no function %s/%d" % (name, nargs))
    return hits[0]


def delegates(run, o, name, args):
    """the only effect is one call of the protocol method with these operands"""
    evs = [x for x in walk(o.events()) if x.kind not in ("read",)]
    ms = [x for x in evs if x.kind == "method"]
    eff = [x for x in evs if x.kind in ("store", "blas", "var", "call", "mkl", "stdsort", "functor")]
    if len(ms) == 1 and ms[0].name.split("::")[-1] == name:
        if list(ms[0].args[1:]) == list(args):
            late = evs[evs.index(ms[0]) + 1:]
            for x in late:
                if x.kind == "var" and x.name == "assign" and x.args[0] is args[-1] and x.args[1].op == "num" and x in eff:
                    return False, "%s: what %s computed is overwritten with %s" % (x.where(), name, show(x.args[1])[:80])
            return (True, "calls %s" % ms[0].name) if not eff else (None, "further effects")
        if len(ms[0].args) == len(args) + 1 and all(x in args or x.op in ("nil", "num") for x in ms[0].args[1:]):
            return False, "%s: calls %s with %s" % (ms[0].where(), ms[0].name, [show(x) for x in ms[0].args[1:]])
        return None, "calls %s with %s" % (ms[0].name, [show(x) for x in ms[0].args[1:]])
    if not ms and not eff:
        return False, "does nothing"
    return None, "effects %s" % [str(x)[:80] for x in (ms + eff)[:3]]


def applies(run, o, g, args, inplace=False):
    """the only effect is the application of the functor object g"""
    fs = [x for x in walk(o.events()) if x.kind == "functor"]
    eff = [x for x in walk(o.events()) if x.kind in ("var", "call", "store", "blas", "method")]
    if eff or len(fs) != 1:
        return None, "effects %s" % [str(x)[:80] for x in (fs + eff)[:3]]
    x = fs[0]
    if x.args[0].op != "global":
        return None, "unknown functor"
    if x.args[0] is not g:
        return False, "%s: applies %s, not %s" % (x.where(), show(x.args[0]), show(g))
    if list(x.args[1:]) != list(args):
        if inplace and len(x.args) == len(args):
            return False, "%s: the result is discarded" % x.where()
        return False, "%s: applied to %s, expected %s" % (x.where(), [show(y) for y in x.args[1:]], [show(y) for y in args])
    if run.sret is not None:
        v = o.st.aux.get(("v", run.sret))
        if v is x.res or (inplace and v is args[-1]):
            return True, str(x)[:200]
        return (False if v is None or v.op in ("v0", "nil") else None), "%s: returns %s" % (x.where(), show(v) if v is not None else "?")
    if inplace:
        if o.val is run.args[0]:
            return True, str(x)[:200]
        return None, "returns %s" % (show(o.val) if o.val is not None else "?")
    return True, str(x)[:200]
