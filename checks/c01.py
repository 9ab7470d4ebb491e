"""C01: an array lives exactly as long as something refers to it"""
import itertools, re
from core import *
from report import *
from functor import HeaderPolicy

MIN_DECIDED = 40
KINDS = ("nil", "array", "scalar", "ref")
# the public operations which handle the two words of a var themselves, with the
# number of arguments (None: any)
ENTRIES = {"var": None, "~var": None, "operator=": None, "operator[]": None, "at": None, "copy": None,
           "dereference": None, "view": None, "array": None, "resize": (1,)}
NAMES = {"nil": "nil", "array": "an array", "scalar": "a scalar", "ref": "a reference to an element"}


def entries(prog):
    for n, f in sorted(prog.defs.items()):
        d = prog.dem(n)
        s = short(d)
        if not s.startswith("libube::var::") or not f.order:
            continue
        m = re.sub(r"<.*>$", "", s[13:])
        if m not in ENTRIES:
            continue
        sig = sig_args(d)
        if ENTRIES[m] is not None and len(sig) not in ENTRIES[m]:
            continue
        yield n, f, d, m, sig


def after_release(o):
    """an array is used after what held it has been let go: (array, event) or None"""
    net, gone = {}, set()
    for e in o.events():
        if isinstance(e, Loop):
            return None
        if e.kind != "heap" or not e.args:
            continue
        X = e.args[0]
        if X.op == "alloca" or X.op == "new":
            continue
        if net.get(X, 0) <= 0 and e.name != "detach":
            # an element of an array that is gone, or that array
            from_ = {y.a[0] for y in subterms(X) if y.op.startswith("hp:") and y.a} if X.op == "ld" or X in gone else set()
            if X in gone or from_ & gone:
                return X, e
        if e.name in ("attach", "detach"):
            net[X] = net.get(X, 0) + (1 if e.name == "attach" else -1)
            if e.name == "detach" and net[X] < 0 and e.res is not None and o.facts.decide(le(ONE, e.res)) is not True:
                gone.add(X)
    return None


class BalancePolicy(CorePolicy):
    cap = 300
    maxout = 600
    budget = 150000


def one(R, prog, f, d, k, sig, ks):
    ctor, dtor = short(d) == "libube::var::var", short(d) == "libube::var::~var"
    nv = var_args(sig)
    objs = [arg(0)] if not ctor else []
    R.functions.add(d)
    key = "%s{%s}" % (k, ",".join(ks))
    with R.guard(key, "balance"):
        def setup(r):
            fs = []
            kk = list(ks)
            for a in objs + [r.formals[i] for i in nv]:
                x = kk.pop(0)
                fs += kind_facts(a, x)
                if x == "scalar":
                    r.scalars.add(hp_of(a))
            return fs
        r = CoreRun(R, prog, f, setup=setup, policy=BalancePolicy)
        R.sites += len(r.outs)
        verdict, msg, done = True, "", 0
        joined = any("join@" in w for w in r.E.warn)
        for o in r.outs:
            if o.kind not in ("ret", "unw"):
                continue
            done += 1
            if ctor:
                if o.kind == "ret":
                    r.pol.live(o.st, arg(0), True)
            elif dtor and o.kind == "ret":
                r.pol.live(o.st, arg(0), False)
            elif r.sret is not None and o.kind == "ret":
                r.pol.live(o.st, r.sret, True)
            late = after_release(o)
            for v, t in balance(r, o) + ([(False, "%s is used (%s) after what held it is let go" % (show(late[0]), late[1].where()))] if late else []):
                if v is False and joined:
                    v, t = None, "after a join: " + t
                if v is False and verdict is not False:
                    verdict = False
                    msg = "%s, %s, when %s" % (
                        t, "on return" if o.kind == "ret" else "when an exception leaves it",
                        " and ".join("%s is %s" % (a, NAMES[x]) for a, x in zip(
                            ["the object"] * len(objs) + ["argument %d" % (i + 1) for i in nv], ks)) or "called")
                elif v is None and verdict is True:
                    verdict, msg = None, t
        if not done:
            verdict, msg = None, "no outcome"
        R.ob(key, verdict, msg, "%s:%d" % f.loc(f.dbg) if getattr(f, "dbg", None) else d, "balance")


def var_args(sig):
    return [i for i, s in enumerate(sig) if re.match(r"libube::var( const)?&{0,2}$", s)]


def tasks_balance(R, prog):
    seen = set()
    for n, f, d, m, sig in entries(prog):
        f.params
        k = re.sub(r"^.*?libube::var::", "", d)
        if k in seen:
            continue                # complete and base object constructors
        seen.add(k)
        n = len(var_args(sig)) + (m != "var")
        for ks in itertools.product(*([KINDS] * n)):
            yield lambda R, f=f, d=d, k=k, sig=sig, ks=ks: one(R, prog, f, d, k, sig, ks)


def run(R):
    R.rule("balance", "at every exit of the operation, by return or exception, each array object has been attached "
                      "exactly as often as detached plus the number of vars which have come to hold it less those which no longer do")
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    R.parallel(list(tasks_balance(R, prog)))


# ------------------------------------------------------------------ the counts
from heapm import *
DTORS = {"var": 1, "pair": 2}


def count_of(R, prog):
    """attach() and detach() of an array object"""
    for meth, d, case, fact, dies in (("attach", 1, "any", le(ZERO, MREF), False), ("detach", -1, "last", eq(MREF, ONE), True),
                                      ("detach", -1, "not last", le(C(2), MREF), False)):
        f = heap_fn(prog, "Heap", meth)
        key = "Heap::%s{%s}" % (meth, case)
        with R.guard(key, "count"):
            r = HeapRun(R, prog, f, setup=lambda r: [NOT(eq(arg(0), ZERO)), fact, le(ONE, MTYPE), le(MTYPE, C(9))])
            v, msg = (True, "") if r.rets() else (None, "no outcome")
            want = add(MREF, C(d))
            for o in r.rets():
                n = r.now(o.st, F_REF, 4)
                dead = [e for e in walk(o.events()) if e.kind == "delete" and e.args[0] is arg(0)]
                if o.facts.decide(eq(o.val, want)) is not True:
                    v, msg = (False if o.facts.decide(eq(o.val, want)) is False else None), "%s is returned" % show(o.val)
                elif not dead and o.facts.decide(eq(n, want)) is not True:
                    v, msg = (False if o.facts.decide(eq(n, want)) is False else None), "the count becomes %s" % show(n)
                elif bool(dead) != dies:
                    v, msg = False, "the object is %sdeleted" % ("" if dead else "not ")
                elif len(dead) > 1:
                    v, msg = False, "the object is deleted twice"
                if v is not True:
                    break
            R.ob(key, v, msg, r.dem, "count")


def released(R, prog):
    """the destructor releases the elements with their own type"""
    for cls, f in (("Heap", heap_fn(prog, "Heap", "~Heap")), ("View", heap_fn(prog, "View", "~View"))):
        for ty in (VALTYPES + ("var", "pair")) if cls == "Heap" else ("int",):
            key = "%s::~%s{%s}" % (cls, cls, ty)
            with R.guard(key, "released"):
                r = HeapRun(R, prog, f, HCLS if cls == "Heap" else VCLS, setup=lambda r: [
                    eq(MTYPE, C(TAG[ty])), NOT(eq(MDATA, ZERO)), NOT(eq(arg(0), ZERO))])
                v, msg = (True, "") if r.rets() else (None, "no outcome")
                for o in r.rets():
                    ev = [e for e in o.events()]
                    dels = [e for e in walk(ev) if e.kind in ("delete", "delete[]") and e.args[0] is not arg(0)]
                    want = sub(MDATA, C(8)) if ty in DTORS else MDATA
                    if not dels:
                        v, msg = False, "the storage of the elements is not released"
                    elif len(dels) > 1:
                        v, msg = False, "storage is released twice"
                    elif dels[0].kind != "delete[]" or dels[0].args[0] is not want:
                        v, msg = (False if clear(dels[0].args[0]) else None), "storage is released as %s of %s" % (
                            dels[0].kind, show(dels[0].args[0]))
                    if ty in DTORS and v is True:
                        life = [e for L in ev if isinstance(L, Loop) for _, b in L.bodies for e in b
                                if isinstance(e, Ev) and e.kind == "life" and e.name == "~var"]
                        empty = any(is_empty(b, want) for b in o.facts.all())
                        if len(life) != DTORS[ty] and not empty:
                            v, msg = False, "the elements are not destroyed with the array"
                    if cls == "View":
                        at = [e for e in walk(ev) if e.kind == "heap" and e.name == "detach" and e.args[0] is MHEAP]
                        if len(at) != 1:
                            v, msg = False, "the array viewed is detached %d times" % len(at)
                    if v is not True:
                        break
                R.ob(key, v, msg, r.dem, "released")


def is_empty(b, base):
    """does the fact say that the number of elements (kept at base) is zero?"""
    return b.op == "eq0" and any(
        x.op == "ld" and x.a[0] is lin_base(base) for x in subterms(b)) and not any(x.op in ("iv", "ivm") for x in subterms(b))


def lin_base(t):
    return [x for x in lin(t)[1]][0]


class CtorPolicy(HeapPolicy):
    opaque_methods = ("resize", "alloc")


def views(R, prog):
    """a view counts as one reference to the array it looks at, whatever way it
    is built, and as none if building it fails"""
    ctors = [(n, f, prog.dem(n)) for n, f in sorted(prog.defs.items()) if short(prog.dem(n)) == "libube::View::View" and f.order]
    seen = set()
    for n, f, d in ctors:
        if d in seen:
            continue
        seen.add(d)
        key = d.split("View::", 1)[-1]
        with R.guard(key, "view"):
            r = HeapRun(R, prog, f, VCLS, unwind=True, policy=CtorPolicy, setup=lambda r: [NOT(eq(arg(0), ZERO))])
            v, msg = (True, "") if r.rets() else (None, "no outcome")
            for o in r.outs:
                if o.kind not in ("ret", "unw"):
                    continue
                net, unk = {}, False
                for e in o.events():
                    if isinstance(e, Loop):
                        if any(x.kind == "heap" and x.name in ("attach", "detach") for _, b in e.bodies for x in walk(b)):
                            unk = True
                        continue
                    if e.kind == "heap" and e.name in ("attach", "detach"):
                        net[e.args[0]] = net.get(e.args[0], 0) + (1 if e.name == "attach" else -1)
                tot = sorted(x for x in net.values() if x)
                if unk:
                    v, msg = None, "references counted in a loop"
                elif o.kind == "ret":
                    h = r.now(o.st, F_HEAP, 8)
                    if net.get(h, 0) != 1 or tot != [1]:
                        v, msg = False, "on return, the view refers to %s and references counted are %s" % (
                            show(h), {show(k): x for k, x in net.items()})
                else:
                    if tot and tot != []:
                        v, msg = False, "when building the view fails, references counted are %s" % (
                            {show(k): x for k, x in net.items()})
                if v is not True:
                    break
            R.ob(key, v, msg, d, "view")


def fresh_count(R, prog):
    """a new array has no references, and the count is the object's own"""
    for n, f in sorted(prog.defs.items()):
        d = prog.dem(n)
        if short(d) != "libube::Heap::Heap" or not f.order or ("Heap(" + d.split("Heap::Heap(")[-1]) in R.keys:
            continue
        key = "Heap(" + d.split("Heap::Heap(")[-1]
        with R.guard(key, "count"):
            r = HeapRun(R, prog, f, HCLS, setup=lambda r: [NOT(eq(arg(0), ZERO))])
            v, msg = (True, "") if r.rets() else (None, "no outcome")
            for o in r.rets():
                c = r.now(o.st, F_REF, 4)
                if c is not ZERO:
                    v, msg = (False if is_c(c) or c is MREF else None), "the count of a new array is %s" % show(c)
            R.ob(key, v, msg, d, "count")


def run(R):
    R.rule("balance", "at every exit of the operation, by return or exception, each array object has been attached "
                      "exactly as often as detached plus the number of vars which have come to hold it less those which no longer do")
    R.rule("count", "attach and detach move the count by one and report it; a new array starts at none; "
                    "the object is deleted exactly when the count reaches zero")
    R.rule("released", "the destructor releases the element storage exactly once as what it was allocated as, destroying contained vars")
    R.rule("view", "a view holds one reference to the array it looks at; if the construction fails it holds none")
    prog = R.program("lube/var.cpp", "lube/heap.cpp", "lube/view.cpp")
    count_of(R, prog)
    released(R, prog)
    views(R, prog)
    fresh_count(R, prog)
    R.parallel(list(tasks_balance(R, prog)))
