"""Abstract semantics for the array objects (Heap, View) seen from inside.

The fields of the object under analysis are ordinary memory.  The vars stored in
it are contents (see vmodel) at their addresses; other array objects are opaque:
their virtual methods are terms h:METHOD(object, arguments, version)."""
import re
from functor import *
from report import Vanished

HCLS, VCLS, ICLS = "N6libube4HeapE", "N6libube4ViewE", "N6libube5IHeapE"
F_DATA, F_SIZE, F_TYPE, F_CAP, F_REF, F_HEAP = 8, 16, 24, 32, 36, 40
HPURE = {"size", "type", "dim", "view", "offset", "defined", "derefSize", "derefType", "derefAType", "derefHeap",
         "copyable", "neq", "lt", "deref"}


class HeapPolicy(VarPolicy):
    max_depth = 14
    opaque_methods = ()            # names of Heap/View methods kept as events

    def __init__(self, prog, cls=HCLS):
        VarPolicy.__init__(self, prog)
        self.this_class = cls
        self.this_obj = arg(0)
        self.slots = prog.vtables().get(HCLS)
        if not self.slots:
            raise Vanished("no vtable for libube::Heap")

    def nonneg(self, t):
        return VarPolicy.nonneg(self, t) or t.op in ("h:size", "h:dim", "h:derefSize")

    def is_other(self, p):
        return p is not self.this_obj

    def vcall(self, E, st, ins, cls, slot, args):
        nm = self.slots[slot] if slot < len(self.slots) else None
        if cls not in (HCLS, VCLS, ICLS) or nm is None:
            return VarPolicy.vcall(self, E, st, ins, cls, slot, args)
        f = self.prog.defs.get(nm)
        meth = short(self.prog.dem(nm)).split("::")[-1]
        k = 0
        if f is not None:
            f.params
            k = 1 if f.sret else 0
        p = args[k]
        if p is self.this_obj:
            fl = self.prog.vtables().get(self.this_class)
            return fl[slot]
        return self.hcall(E, st, ins, meth, args, self.prog.dem(nm), bool(k))

    def hcall(self, E, st, ins, meth, args, dem, sret):
        a = list(args)
        out = a.pop(0) if sret else None
        p, rest = a[0], tuple(a[1:])
        vals = []
        sig = sig_args(dem)
        for x, t in zip(rest, sig):
            vals.append(self.content(E, st, x) if t.startswith("libube::var") else x)
        s = st.copy()
        ver = st.aux.get(("hv", p), ZERO)
        E.uid += 1
        if meth.startswith("ptr"):
            r = mk("h:" + meth, p)
            r.ptr = True
            i = rest[0] if rest else ZERO
            r = add(r, scale(i, ESIZE[meth[3:]])) if meth[3:] in ESIZE else mk("h:" + meth, p, i)
        elif meth in ("attach", "detach"):
            r = mk("h:" + meth, p, C(E.uid))
            s.aux = dict(s.aux)
            s.aux[("rc", p)] = add(s.aux.get(("rc", p), ZERO), C(1 if meth == "attach" else -1))
            s.emit(Ev("heap", meth, (p,), r, ins, s.facts))
            return [Outcome("ret", r, s)]
        elif sret:
            r = mk("h:" + meth, p, *vals, ver)
            s.emit(Ev("heap", meth, (p,) + tuple(vals), r, ins, s.facts))
            self.setc(s, out, r)
            r = None
        elif meth in HPURE and not (meth == "offset" and len(vals)):
            r = mk("h:" + meth, p, *vals, ver)
            if ins.ty == "ptr":
                r = mk("h:" + meth, p, *vals)
                r.ptr = True
            if ins.ty == "i1":
                r = mk("bool", r)
            s.emit(Ev("heap", meth, (p,) + tuple(vals), r, ins, s.facts))
        elif meth in ("shape", "stride", "key"):
            r = mk("h:" + meth, p, *vals)
            r.ptr = True
            s.emit(Ev("heap", meth, (p,) + tuple(vals), r, ins, s.facts))
        else:
            r = mk("h:" + meth, p, *vals, C(E.uid)) if ins.ty != "void" else None
            s.aux = dict(s.aux)
            s.aux[("hv", p)] = mk("ver", E.uid)
            s.emit(Ev("heap", meth, (p,) + tuple(vals), r, ins, s.facts))
        return self.thrower(E, st, ins, dem, [Outcome("ret", r, s)], args)

    def special(self, E, st, ins, name, dem, s, args):
        m = re.match(r"libube::(Heap|View|IHeap)::(~?\w+)$", s)
        if m:
            meth = m.group(2)
            if meth in ("Heap", "View", "~Heap", "~View", "IHeap", "~IHeap"):
                if args[0] is self.this_obj:
                    return None
                s2 = st.copy()
                vs = {i + 1: self.content(E, s2, args[i + 1]) for i, t in enumerate(sig_args(dem))
                      if t.startswith("libube::var") and i + 1 < len(args)} if meth[0] != "~" else {}
                s2.emit(Ev("hctor" if meth[0] != "~" else "hdtor", dem, tuple(args), None, ins, s2.facts, x=vs))
                return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)], args) if meth[0] != "~" else \
                    [Outcome("ret", None, s2)]
            f = self.prog.defs.get(name)
            if f is not None:
                f.params
                p = args[1 if f.sret else 0]
                if p is not self.this_obj:
                    return self.hcall(E, st, ins, meth, args, dem, f.sret)
                if meth in self.opaque_methods:
                    s2 = st.copy()
                    rest = list(args)[2 if f.sret else 1:]
                    E.uid += 1
                    r = mk("self:" + meth, *rest, C(E.uid)) if ins.ty != "void" or f.sret else None
                    s2.emit(Ev("self", meth, tuple(rest), r, ins, s2.facts))
                    self.after_self(E, s2, meth, rest)
                    if f.sret:
                        self.setc(s2, args[0], r)
                    return self.thrower(E, st, ins, dem, [Outcome("ret", r, s2)], args)
            return None
        return VarPolicy.special(self, E, st, ins, name, dem, s, args)

    def var_method(self, E, st, ins, name, dem, meth, args):
        """the life of the vars stored in arrays is recorded"""
        if meth in ("~var", "var") and args:
            b, o = E.split(args[0])
            if b.op not in ("alloca",):
                outs = VarPolicy.var_method(self, E, st, ins, name, dem, meth, args)
                for x in outs:
                    if x.kind == "ret":
                        x.st.emit(Ev("life", meth, (args[0],) + ((self.content(E, x.st, args[0]),) if meth == "var" else ()), None, ins, x.st.facts))
                return outs
        return VarPolicy.var_method(self, E, st, ins, name, dem, meth, args)

    def after_self(self, E, st, meth, rest):
        """resize(n): the storage is other storage, of at least n elements"""
        if meth == "resize":
            q = mk("data", C(E.uid))
            q.ptr = True
            E.store(st, add(arg(0), C(F_DATA)), 8, q)
            E.store(st, add(arg(0), C(F_SIZE)), 4, rest[0])


ESIZE = {"char": 1, "int": 4, "long": 8, "float": 4, "double": 8, "cfloat": 8, "cdouble": 16, "var": 16, "pair": 32}
VALTYPES = ("char", "int", "long", "float", "double", "cfloat", "cdouble")


def field(off, size):
    t = mk("ld", arg(0), C(off), size, ZERO)
    if off in (F_DATA, F_HEAP):
        t.ptr = True
    return t


MDATA, MSIZE, MTYPE, MCAP, MREF, MHEAP = (field(F_DATA, 8), field(F_SIZE, 4), field(F_TYPE, 8), field(F_CAP, 4),
                                           field(F_REF, 4), field(F_HEAP, 8))


class HeapRun(Run):
    def __init__(self, R, prog, fn, cls=HCLS, setup=None, unwind=False, policy=None, prep=None):
        base = policy or HeapPolicy

        class P(base):
            def __init__(s, pr, c):
                base.__init__(s, pr, cls)
        Run.__init__(self, R, prog, None, None, 0, fn=fn, unwind=unwind, setup=setup, prep=prep, policy=P)

    def now(self, st, off, size):
        return self.E.load(st, add(arg(0), C(off)), size, off in (F_DATA, F_HEAP))


def heap_fn(prog, cls, meth, pred=None, nargs=None):
    """the body of a method of Heap or View, by its public name"""
    want = "libube::%s::%s" % (cls, meth)
    hits = {}
    for n, f in prog.defs.items():
        d = prog.dem(n)
        if short(d) != want or not f.order:
            continue
        sig = sig_args(d)
        if nargs is not None and len(sig) != nargs:
            continue
        if pred and not pred(sig):
            continue
        hits.setdefault(d, f)
    if not hits:
        raise Vanished("no %s" % want)
    return list(hits.values())[0]
