"""C16: what is acquired from the system or a library is released exactly once

Every function that acquires or releases a handle is interpreted on all its
paths, exceptional ones included.  At the end of each path a handle that was
obtained is released once, or belongs to the object (whose destructor releases
it, and which cannot be copied together with it) or to the caller."""
import os
from resm import *
from fcheck import *
from report import Vanished
from ir import scratch, compile_unit, REPO
from concurrent.futures import ThreadPoolExecutor

UNITS = ["lube/sndfile.cpp", "lube/module.cpp", "lube/xmlfile.cpp", "lube/gnuplot.cpp", "lube/curl.cpp", "lube/string.cpp",
         "lube/txtfile.cpp", "lube/inifile.cpp", "lube/gedfile.cpp", "lube/path.cpp", "lube/config.cpp"]
MIN_DECIDED = 6
NULLSAFE = {"free", "curl_easy_cleanup", "XML_ParserFree", "curl_slist_free_all", "operator delete"}


def own(dem):
    s = short(dem)
    return not s.startswith(("std::", "boost::", "__gnu", "void std::", "operator "))


def edges(f):
    for i in f.instrs():
        if i.op in ("call", "invoke") and i.x["callee"][0] == "global":
            yield i.x["callee"][1]


def touch(P):
    """functions of the unit that reach an acquire or a release, with what they reach"""
    direct = {}
    g = {}
    fns = {f.name: f for f in P.defs.values()}
    for n, f in fns.items():
        s = set()
        out = set()
        for c in edges(f):
            for m in P.mods:
                c = m.aliases.get(c, c)
            if c in HANDLES or c in RELEASE:
                s.add(c)
            elif c in ("_Znwm", "_ZdlPv", "_ZdlPvm", "_Znam", "_ZdaPv") and own(P.dem(n)):
                s.add(c)
            out.add(c)
        # addresses taken: a deleter
        direct[n] = s
        g[n] = out
    reach = {n: set(s) for n, s in direct.items()}
    ch = True
    while ch:
        ch = False
        for n in fns:
            for c in g[n]:
                if c in reach and not reach[c] <= reach[n]:
                    if not own(P.dem(c)) and not SMART.match(short(P.dem(c))):
                        continue
                    reach[n] |= reach[c]
                    ch = True
    return {n: (fns[n], r) for n, r in reach.items() if r and own(P.dem(n))}


def is_ctor(dem):
    p = strip(short(dem)).split("::")
    return len(p) > 1 and p[-1] == p[-2]


def is_dtor(dem):
    return short(dem).split("::")[-1].startswith("~")


def strip(s):
    return re.sub(r"<.*>", "", s)


def klass(dem):
    return "::".join(short(dem).split("::")[:-1])


def evs(o):
    return list(walk(o.events()))


class Handle:
    """life of one handle on one path"""

    def __init__(self, o, E, h, acq):
        self.o, self.h, self.acq = o, h, acq
        ev = evs(o)
        i = ev.index(acq)
        self.rel, self.bad, self.used_null, self.unknown = [], None, None, None
        for e in ev[i + 1:]:
            a = e.args or ()
            use = any(x is h or isinstance(x, T) and h in subterms(x) for x in a)
            if not use:
                continue
            if e.kind in ("release", "delete", "delete[]"):
                if a[0] is h:
                    if self.rel:
                        self.bad = "%s: released again (first at %s)" % (e.where(), self.rel[0].where())
                    self.rel.append(e)
                    nm = e.name.split("(")[0]
                    if nm not in NULLSAFE and self.null(e.facts) is not False and e.kind == "release":
                        self.used_null = e
                    want = HANDLES.get(acq.name, ("operator delete",))
                    if e.kind == "release" and nm not in want:
                        self.bad = "%s: a handle from %s is released by %s" % (e.where(), acq.name, nm)
                    if acq.kind in ("new", "new[]") and e.kind != {"new": "delete", "new[]": "delete[]"}[acq.kind]:
                        self.bad = "%s: memory from %s is released by %s" % (e.where(), acq.kind, e.kind)
                    continue
            if self.rel and e.kind in ("status", "libcall", "call", "acquire"):
                self.bad = "%s: %s works on a handle released at %s" % (e.where(), e.name.split("(")[0], self.rel[0].where())
            elif e.kind in ("status", "libcall", "call") and acq.kind == "acquire":
                if self.null(e.facts) is not False:
                    self.used_null = self.used_null or e
                if e.kind == "call" and e.name.startswith(("std::", "libube::", "boost::")):
                    self.unknown = e
            elif e.kind in ("call", "vcall") and (e.name.startswith(("std::", "libube::")) or "(" not in e.name and not e.name):
                self.unknown = e

    def null(self, facts):
        if self.acq.kind != "acquire":
            return False
        return facts.decide(eq(self.h, ZERO))


def holders(E, o, h):
    """locations that hold the handle at the end of the path"""
    r = []
    for b, cells in o.st.mem.items():
        try:
            it = list(cells.items())
        except AttributeError:
            continue
        for off, c in it:
            v = c[1] if isinstance(c, tuple) and len(c) > 1 else c
            if v is h:
                r.append((b, num(off)))
    return r


def life(R, P, fn, key, fields, made):
    """every path of a function"""
    dem = P.dem(fn.name)
    ctor, dtor = is_ctor(dem), is_dtor(dem)
    n = nparams_run(P, fn)
    r = Run(R, P, None, None, n, None, policy=ResPolicy, unwind=True, fn=fn)
    R.saw(r.E)
    out = {}
    for o in r.outs:
        if o.kind not in ("ret", "unw"):
            continue
        odd_ = [e for e in evs(o) if e.kind == "JOIN"]
        for e in evs(o):
            if e.kind not in ("acquire", "new", "new[]"):
                continue
            h = e.res
            H = Handle(o, r.E, h, e)
            k = (e.name.split("(")[0], e.where())
            vs = out.setdefault(k, [])
            nul = H.null(o.facts)
            if H.bad:
                vs.append((False, H.bad))
                continue
            if H.used_null is not None and H.used_null.facts.decide(eq(h, ZERO)) is True:
                vs.append((False, "%s: %s works on a handle that was not obtained" % (H.used_null.where(), H.used_null.name.split("(")[0])))
                continue
            if H.used_null is not None:
                known = any(h in subterms(b) for b in H.used_null.facts.all())
                vs.append((None if known else False, "%s: %s works on what %s returned before it is known to have worked" % (
                    H.used_null.where(), H.used_null.name.split("(")[0], e.name)))
                continue
            if nul is True:
                vs.append((True, "not obtained: nothing to release"))
                continue
            where = holders(r.E, o, h)
            up = {b for b, off in where if b.op == "new"}
            for b in list(up):
                where += [x for x in holders(r.E, o, b) if x not in where]
                if o.val is b:
                    where.append((mk("abs"), 0))
            kept = [(b, off) for b, off in where if b.op == "arg"]
            ext = [b for b, off in where if b.op in ("global", "abs", "iarg") or b.op == "arg" and b is not arg(0)]
            this = [off for b, off in kept if b is arg(0) and r.method]
            if H.rel:
                if this and o.kind == "ret" and not dtor:
                    vs.append((False, "%s: the object keeps a handle that was released" % H.rel[0].where()))
                elif o.kind == "ret" and o.val is h:
                    vs.append((False, "%s: the function returns a handle that was released" % H.rel[0].where()))
                else:
                    vs.append((True, "released once"))
                continue
            if H.unknown is not None:
                vs.append((None, "passed to %s" % H.unknown.name[:60]))
                continue
            if o.kind == "ret" and (o.val is h or ext):
                vs.append((True, "handed to the caller"))
                continue
            if o.kind == "unw" and ext:
                vs.append((None, "kept elsewhere"))
                continue
            if this and (o.kind == "ret" or not ctor):
                for off in this:
                    made.setdefault((klass(dem), off), (e, o, r))
                vs.append((True, "owned by the object"))
                continue
            inside = [b for b, off in where if b.op not in ("alloca", "arg")]
            if inside and e.kind == "acquire" and all(b.op == "new" for b in inside) and not \
                    [x for x in evs(o) if x.kind.startswith("delete") and x.args[0] in inside] and all(lost_new(o, r, b) is False for b in inside):
                vs.append((False, "%s: the handle obtained here is lost with the object that keeps it when %s" % (e.where(), ending(o))))
                continue
            if inside and e.kind == "acquire":
                vs.append((None, "kept in %s" % show(where[0][0])))
                continue
            if e.kind in ("new", "new[]"):
                # what is built may register itself anywhere
                lost = lost_new(o, r, h)
                vs.append((lost, "%s: memory obtained here is not released when %s" % (e.where(), ending(o))))
                continue
            vs.append((False, "%s: the handle obtained here is not released when %s" % (e.where(), ending(o))))
    return r, out


def lost_new(o, r, h):
    """True: taken over by an exception; False: nothing on the path can still release it"""
    held = {h}
    for b, cells in o.st.mem.items():
        if b.op == "new" and any((c[1] if isinstance(c, tuple) and len(c) > 1 else c) is h for c in cells.values()):
            held.add(b)
    for e in evs(o):
        if e.kind in ("new", "new[]", "acquire", "release", "status", "delete", "delete[]"):
            continue
        if any(isinstance(x, T) and held & set(subterms(x)) for x in (e.args or ())):
            if e.kind == "throw":
                return True
            if e.kind == "call" and re.match(r"[a-z]\w*$", e.name):
                continue        # a C library does not release C++ memory
            return None
    if o.val is not None and held & set(subterms(o.val)):
        return None
    if any(b.op not in ("alloca", "new") for x in held for b, off in holders(r.E, o, x)):
        return None
    return False


def ending(o):
    if o.kind == "ret":
        return "the function returns"
    t = [e for e in evs(o) if e.kind in ("throws", "throw")]
    if not t:
        return "an exception leaves"
    return "%s throws at %s" % (t[-1].name.split("(")[0] if t[-1].kind == "throws" else "it", t[-1].where())


def nparams_run(P, fn):
    return 2 if fn.name == "factory" else len(sig_args(P.dem(fn.name)))


def field_of(r, e):
    """offset of the field whose initial value the event releases, or None"""
    a = e.args[0]
    if a.op == "ld" and a.a[0] is arg(0):
        return num(a.a[1])
    return None


def num(x):
    return x if isinstance(x, int) else x.a[0] if is_c(x) else None


def destroys(R, P, cls, off, e, rule="owner"):
    """the destructor of a class that owns a handle"""
    key = "%s.destructor" % cls.split("::")[-1]
    d = [P.defs[f] for f in P.defs if short(P.dem(f)).startswith(cls + "::~") and re.search(r"D2Ev$", P.defs[f].name)] or \
        [P.defs[f] for f in P.defs if short(P.dem(f)).startswith(cls + "::~")]
    want = HANDLES.get(e.name.split("(")[0], ("operator delete",))
    if not d:
        R.ob(key, False, "%s: the handle kept by %s is never released: no destructor" % (e.where(), cls), e.where(), rule)
        return
    with R.guard(key, rule):
        r = Run(R, P, None, None, 0, None, policy=ResPolicy, unwind=False, fn=d[0])
        R.saw(r.E)
        vs = []
        for o in r.outs:
            if o.kind == "stop":
                continue
            rel = [x for x in evs(o) if x.kind in ("release", "delete", "delete[]") and field_of(r, x) == off]
            good_ = [x for x in rel if x.name.split("(")[0] in want or x.kind == "delete" and e.kind == "new"]
            if len(rel) > len(good_):
                vs.append((False, "%s: released by %s" % (rel[0].where(), rel[0].name)))
            elif len(good_) == 1:
                i = evs(o).index(good_[0])
                late = [x for x in evs(o)[i + 1:] if x.kind in ("status", "libcall", "call") and any(
                    isinstance(y, T) and good_[0].args[0] in subterms(y) for y in x.args)]
                vs.append((False, "%s: %s works on a handle already released" % (late[0].where(), late[0].name)) if late
                          else (True, "released once by %s" % good_[0].name.split("(")[0]))
            elif len(good_) > 1:
                vs.append((False, "%s: released twice" % good_[1].where()))
            else:
                nul = [b for b in o.facts.all() if b.op == "eq0" and b.a[0].op == "ld" and b.a[0].a[0] is arg(0) and num(b.a[0].a[1]) == off]
                unk = [x for x in evs(o) if x.kind in ("call", "vcall") and not x.name.startswith("std::") and
                       not (isdel(x) and x.args[0].op == "ld" and x.args[0].a[0] is not arg(0)) and
                       any(isinstance(y, T) and (arg(0) in subterms(y)) for y in x.args)]
                vs.append((True, "no handle") if nul else (None, unk[0].name) if unk else
                          (False, "%s: the handle kept at %s is not released" % (r.dem, e.where())))
        merge(R, key, vs, r.dem, rule)


def merge(R, key, vs, where, rule):
    bad = [m for v, m in vs if v is False]
    und = [m for v, m in vs if v is None]
    if bad:
        R.ob(key, False, bad[0], where, rule)
    elif und or not vs:
        R.ob(key, None, und[0] if und else "nothing", where, rule)
    else:
        R.ob(key, True, "%d paths: %s" % (len(vs), ", ".join(sorted({m for v, m in vs}))[:160]), where, rule)


PROBE = """#include <new>
#include <type_traits>
#include <utility>
#include "%s/%s"
template <class T> void probe_copy(T* a, T* b) { if constexpr (std::is_copy_constructible_v<T>) new (a) T(*b); }
template <class T> void probe_move(T* a, T* b) { if constexpr (std::is_move_constructible_v<T>) new (a) T(std::move(*b)); }
template <class T> void probe_assign(T* a, T* b) { if constexpr (std::is_copy_assignable_v<T>) *a = *b; }
"""


def copies(R, unit, owners, rule="copy"):
    """an owner cannot be duplicated with its handle"""
    path = os.path.join(scratch(), "copy_" + os.path.basename(unit))
    with open(path, "w") as f:
        f.write(PROBE % (REPO, unit))
        for c in sorted({c for c, off in owners}):
            for k in ("copy", "move", "assign"):
                f.write("template void probe_%s<%s>(%s*, %s*);\n" % (k, c, c, c))
    P = R.program(path)
    for (c, off), (e, o_, r_) in sorted(owners.items(), key=lambda x: x[0]):
        for k in ("copy", "move", "assign"):
            key = "%s.%s" % (c.split("::")[-1], k)
            with R.guard(key, rule):
                fn = [P.defs[f] for f in P.defs if short(P.dem(f)).startswith(("probe_%s" % k, "void probe_%s" % k)) and "<" + c + ">" in P.dem(f)]
                if not fn:
                    R.ob(key, None, "no probe", "", rule)
                    continue
                A, B = arg(91), arg(92)
                A.ptr = B.ptr = True

                def pre(q):
                    q.args[-2:] = [A, B]
                r = Run(R, P, None, None, 2, lambda q: [], policy=ResPolicy, fn=fn[0], prep=pre)
                vs = []
                for o in r.outs:
                    if o.kind != "ret":
                        continue
                    a = r.E.load(o.st, add(A, C(off)), 8, True)
                    b = r.E.load(o.st, add(B, C(off)), 8, True)
                    calls = [x for x in evs(o) if x.kind in ("call",) and not short(x.name).startswith("std::vector")]
                    if a is b:
                        vs.append((False, "%s: two objects hold the same handle and both release it" % c))
                    elif k == "assign" and a.op == "ld" and a.a[0] is A:
                        vs.append((True, "the object keeps its own handle"))
                    elif a.op == "ld" and a.a[0] is B and is_c(b):
                        vs.append((True, "the handle moves"))
                    elif a.op == "ld" and a.a[0] is A:
                        vs.append((True, "cannot be done"))
                    else:
                        vs.append((None, "field becomes %s" % show(a)))
                merge(R, key, vs, c, rule)


def method_release(R, P, fn, owners, key):
    """a method that releases the handle of its object leaves none behind"""
    dem = P.dem(fn.name)
    c = klass(dem)
    offs = {off for (k, off) in owners if k == c}
    r = Run(R, P, None, None, nparams_run(P, fn), None, policy=ResPolicy, unwind=True, fn=fn)
    vs = []
    for o in r.outs:
        for off in offs:
            rel = [x for x in evs(o) if x.kind == "release" and field_of(r, x) == off]
            v = r.E.load(o.st, add(arg(0), C(off)), 8, True)
            if rel:
                same = v is rel[0].args[0]
                vs.append((False, "%s: the object keeps a handle that was released" % rel[0].where()) if same
                          else (True, "released and replaced") if is_c(v) or v.op == "handle" else (None, show(v)))
            elif v.op == "handle":
                nul = [b for b in o.facts.all() if b.op == "eq0" and b.a[0].op == "ld" and b.a[0].a[0] is arg(0)]
                vs.append((True, "first handle") if nul else (False, "the handle the object had is not released"))
            else:
                vs.append((True, "kept"))
    if vs:
        merge(R, key, vs, r.dem, "life")


def instances(R, P):
    """objects made by a module live until the module goes, and go before its code"""
    key = "module.instances"
    with R.guard(key, "order"):
        d = [P.defs[f] for f in P.defs if short(P.dem(f)) == "libube::module::~module" and re.search(r"D2Ev$", f)]
        if not d:
            raise Vanished("no destructor of module")
        r = Run(R, P, None, None, 0, None, policy=ResPolicy, fn=d[0])
        R.saw(r.E)
        vs = []
        for o in r.outs:
            if o.kind != "ret":
                continue
            top = o.events()
            ci = [i for i, e in enumerate(top) if not isinstance(e, Loop) and e.kind == "release" and e.name == "dlclose"]
            li = []
            for i, e in enumerate(top):
                if isinstance(e, Loop):
                    dv = [x for f, b in e.bodies for x in walk(b) if isdel(x)]
                    if dv:
                        li.append((i, e, dv))
            if len(ci) != 1:
                vs.append((None, "library closed %d times" % len(ci)))
                continue
            if not li:
                other = [e for e in evs(o) if isdel(e)]
                odd = [e for e in evs(o) if e.kind in ("call", "JOIN") or e.kind == "vec" and e.name != "~vector"]
                vs.append((None if other or odd else False, "the objects a module made are not deleted with it"))
                continue
            i, L, dv = li[0]
            if i > ci[0]:
                vs.append((False, "%s: objects are deleted after the library with their code is closed (%s)" % (L.where(), top[ci[0]].where())))
                continue
            cov, why = every(L, o, dv)
            vs.append((cov, why))
        merge(R, key, vs, r.dem, "order")
    key = "module.create"
    with R.guard(key, "order"):
        c = [P.defs[f] for f in P.defs if short(P.dem(f)) == "libube::module::create"]
        if not c:
            raise Vanished("no module::create")
        r = Run(R, P, None, None, 1, None, policy=ResPolicy, fn=c[0])
        R.saw(r.E)
        vs = []
        for o in r.outs:
            if o.kind != "ret":
                continue
            mk_ = [e for e in evs(o) if e.kind == "call" and e.name.startswith("indirect")]
            pb = [e for e in evs(o) if e.kind == "vec" and e.name in ("push_back", "emplace_back")]
            odd = [e for e in evs(o) if e.kind in ("call", "vec", "JOIN") and e not in pb + mk_]
            if len(mk_) != 1:
                vs.append((None, "%d calls of the factory" % len(mk_)))
                continue
            loc = mk_[0].args[-2]
            rec = [e for e in pb if len(e.args) > 1 and e.args[1].op == "ld" and e.args[1].a[0] is loc]
            if len(rec) == 1:
                ok = o.facts.decide(eq(rec[0].args[1], ZERO))
                if ok is False and o.val is not None and o.val.op == "ld" or o.val is rec[0].args[1]:
                    vs.append((True, "the instance is recorded"))
                else:
                    vs.append((False if ok is None and not odd else None, "the factory may have made nothing"))
            elif not rec:
                vs.append((None if odd or pb else False, "the module does not keep the object it made: it is never deleted"))
            else:
                vs.append((False, "%s: recorded twice, so deleted twice" % rec[1].where()))
        merge(R, key, vs, r.dem, "order")


def isdel(e):
    return e.kind in ("call", "vcall") and e.name.startswith("vcall:") and e.name.endswith("#1") or e.kind == "delete"


def every(L, o, dv):
    """the loop deletes every element of the vector, each once"""
    p = dv[0].args[0]
    if p.op != "ld":
        return None, "deletes %s" % show(p)
    loc = add(p.a[0], p.a[1] if isinstance(p.a[1], T) else C(p.a[1]))
    vd = [x for x in subterms(p) if x.op == "vdata"]
    if len(vd) != 1:
        return None, "deletes %s" % show(p)
    off = sub(loc, vd[0])
    n = mk("vsize", *vd[0].a)
    ivs = [t for t in L.ivs if t in subterms(loc)]
    if len(ivs) != 1:
        return (False if is_c(off) else None), "%s: the same element is deleted every time" % dv[0].where()
    iv = ivs[0]
    i0, ns = L.ivs[iv]
    steps = {sub(x, iv) for x in ns}
    if len(steps) != 1:
        return None, "step"
    k = steps.pop()
    # the location of the deleted element, first and from one iteration to the next
    first = subst(off, {iv: i0})
    stride = sub(subst(loc, {iv: add(iv, k)}), loc)
    for f, b in L.bodies:
        d = [x for x in walk(b) if isdel(x)]
        if len(d) > 1:
            return False, "%s: deleted twice" % d[1].where()
        if not d and f.decide(eq(p, ZERO)) is not True:
            return (None if any(x.kind == "JOIN" for x in b) else False), "%s: an element is skipped" % L.where()
    idx = exact8(off)
    if not is_c(stride) or idx is None:
        return None, "stride"
    if stride is C(8):
        if first is not ZERO:
            return (False if is_c(first) else None), "%s: the first %s bytes of pointers are left out" % (L.where(), show(first))
        for f, b in L.bodies:
            if not (f.decide(mk("ult", idx, n)) is True or f.decide(le(idx, sub(n, ONE))) is True or f.decide(eq(idx, n)) is False):
                return None, "bound"
        # and nothing ends it before
        e = o.facts
        if not (e.decide(mk("ult", idx, n)) is False or e.decide(le(n, idx)) is True or e.decide(eq(idx, n)) is True):
            w = early(e, iv, idx, n)
            return (False, "%s: with %d instances, number %d is not deleted" % ((L.where(),) + w)) if w else (None, "end")
        return True, "every instance deleted, then the library closed"
    if stride is C(-8):
        if first is not add(scale(n, 8), C(-8)):
            return None, "first"
        if o.facts.decide(le(idx, C(-1))) is True or o.facts.decide(eq(idx, C(-1))) is True:
            return True, "every instance deleted, then the library closed"
        return None, "end"
    return False, "%s: advances by %s bytes of pointers" % (L.where(), show(stride))


def early(facts, iv, idx, n):
    """(size, index) for which everything known at the end of the loop holds with an element left, if that is all about the two"""
    fs = [b for b in facts.all() if any(x is iv or x is n for x in subterms(b))]
    for k in range(0, 70):
        for i in range(0, 70):
            env = {iv: i, n: k}
            j = value(idx, env)
            if j is None:
                return None
            if not 0 <= j < k:
                continue
            vs = [value(b, env) for b in fs]
            if None in vs:
                return None
            if all(vs):
                return k, j
    return None


def value(t, env):
    if t in env:
        return env[t]
    if is_c(t):
        return t.a[0]
    if t.op == "not":
        v = value(t.a[0], env)
        return None if v is None else not v
    if t.op in ("eq0", "le0"):
        v = value(t.a[0], env)
        return None if v is None else v == 0 if t.op == "eq0" else v <= 0
    if t.op in ("ult", "ule"):
        a, b = value(t.a[0], env), value(t.a[1], env)
        if a is None or b is None:
            return None
        a, b = a % 2 ** 64, b % 2 ** 64
        return a < b if t.op == "ult" else a <= b
    c, d = lin(t)
    if list(d) == [t]:
        return None
    r = c
    for x, k in d.items():
        v = value(x, env)
        if v is None:
            return None
        r += k * v
    return r


def exact8(t):
    c, d = lin(t)
    if c % 8 or any(k % 8 for k in d.values()):
        return None
    r = C(c // 8)
    for x, k in d.items():
        r = add(r, scale(x, k // 8))
    return r


def unit(R, u):
    P = R.program(u)
    name = os.path.basename(u)[:-4]
    ts = touch(P)
    made = {}
    done = []
    for n, (f, reach) in sorted(ts.items()):
        dem = P.dem(n)
        acq = reach & set(HANDLES) or reach & {"_Znwm", "_Znam"}
        if is_dtor(dem) or re.search(r"C1E", n) and n.replace("C1E", "C2E") in ts:
            continue
        sn = "::".join(short(dem).split("::")[-2:])
        if sn in done:
            sn += str(len(done))
        done.append(sn)
        if acq:
            key = "%s.%s" % (name, sn)
            with R.guard(key, "life"), R.budget(60):
                r, out = life(R, P, f, key, None, made)
                for (an, where), vs in sorted(out.items()):
                    merge(R, "%s.%s" % (key, an), vs, "%s in %s" % (where, r.dem), "life")
                    R.sites += 1
    for (c, off), (e, o, r) in sorted(made.items(), key=lambda x: x[0]):
        destroys(R, P, c, off, e)
    for n, (f, reach) in sorted(ts.items()):
        dem = P.dem(n)
        if is_dtor(dem) or is_ctor(dem) or not any(k == klass(dem) for k, off in made) or not reach & (RELEASE | set(HANDLES)):
            continue
        key = "%s.%s.keeps" % (name, "::".join(short(dem).split("::")[-2:]))
        with R.guard(key, "life"):
            method_release(R, P, f, made, key)
    if made:
        with R.guard(name + ".copies", "copy"):
            copies(R, u, made)


def each_unit(R, units, what):
    """the units are independent: compiled together, then analysed side by side"""
    us = [u for u in units if os.path.exists(os.path.join(REPO, u))]
    R.units.update(us)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(compile_unit, us))
    R.parallel([lambda R, u=u: what(R, u) for u in us])


def run(R):
    R.rule("life", "on every path, exceptional ones included, a handle that was obtained is used only while it is open, and is released exactly once by "
                   "the function that belongs to it, kept by the object, or handed to the caller")
    R.rule("owner", "the destructor of a class that keeps a handle releases it exactly once")
    R.rule("copy", "copying, moving or assigning an object that keeps a handle never leaves two objects with the same handle")
    R.rule("order", "a module records every object it makes and deletes each before it closes the library that holds their code")
    each_unit(R, UNITS, unit)
    instances(R, R.program("lube/module.cpp"))
