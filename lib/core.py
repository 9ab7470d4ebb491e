"""Abstract semantics of the array objects for the implementation of var itself.

A var is two words: the payload (a scalar, or a pointer to an array object) and
the type.  Virtual calls on array objects are primitive; attach() and detach()
are counted per array object.  The small methods of var that read or write the
two words are looked into, the others are opaque: they leave the counts
balanced and give the var fresh content."""
import re
from functor import *
from report import Vanished

HP, TY = C(0), C(8)

# methods of var that are looked into, if they exist
NOVC = mk("novc")
RAW = {"var", "~var", "operator=", "attach", "detach", "reference", "heap", "varderef", "dereference",
       "type", "atype", "defined", "size", "operator bool", "data"}
# the public operations of var: anything else among its methods is part of the
# implementation and is looked into
PUBLIC = set("""var ~var operator= get ptr str operator!= operator< operator== operator> operator<= operator>=
operator+= operator-= operator*= operator/= operator+ operator- operator* operator/ operator[] operator()
dereference atype cast is at key copy defined size type typeStr atypeStr heap pop top push insert remove unshift
append shift sort index clear array resize presize view subview offset shape stride bounds dim format broadcast
search replace match split join strip upper lower getline read write encodeJSON json gedcom abs real imag norm add sub
mul div pow sin cos tan asin acos atan sinh cosh tanh sqrt log log10 exp floor arg set copy reserve
lower_bound upper_bound binary find""".split())
# reading an array object has no failure mode
NOFAIL = {"size", "type", "dim", "offset", "view", "defined", "deref", "derefSize", "derefType", "derefAType", "derefHeap",
          "copyable", "neq", "lt"}
PURE_H = {"size", "type", "dim", "offset", "view", "defined", "derefSize", "derefType", "derefAType", "copyable",
          "neq", "lt"}


class CorePolicy(Policy):
    max_depth = 12
    unwind = True
    inline_std = re.compile(r"std::(min|max|initializer_list|begin|end|swap|move|forward|complex)\b")
    raw = RAW
    public = PUBLIC

    def __init__(self, prog, cls=None):
        Policy.__init__(self, prog)
        self.this_obj = arg(0)
        self.slots = prog.vtables().get("N6libube4HeapE")
        if not self.slots:
            raise Vanished("no vtable for libube::Heap")

    def nonneg(self, t):
        return t.op in ("m:binary", "h:size", "h:derefSize", "h:dim", "count", "m:size", "strlen") or \
            (t.op == "call" and t.a and t.a[0] == "strlen")

    def may_unwind(self, name, dem, ins):
        return self.unwind and not NOTHROW.match(dem)

    def inline(self, name, dem):
        s = short(dem)
        if s.startswith(("libube::error", "libube::varstream", "libube::varbuf")):
            return False
        if s.startswith("std::"):
            return bool(self.inline_std.match(s)) or bool(ALGOS.match(s)) and "*" in dem
        if s.startswith(("boost::", "__gnu")):
            return False
        if s.startswith("libube::var::"):
            return True
        return not re.match(r"libube::(Heap|View)::", s)

    def clobbers(self, name, dem, ins, args):
        return []

    def separate(self, a, b):
        # a var is not an element of the array it refers to
        def k(x):
            for y in lin(x)[1]:
                if y.op.startswith("hp:") or y.op == "h:deref":
                    return "e"
                if y.op in ("arg", "alloca", "new"):
                    return "v"
        return {k(a), k(b)} == {"e", "v"}

    def on_load(self, E, st, ins, addr, size, val):
        # the elements of an array are not references
        b, o = E.split(addr)
        if size == 8 and val.op == "ft" and re.search(r"Functor|::dereference$", str(val.a[-1].a[0])):
            # nor is what a functor puts in its result, nor what was dereferenced
            for c in (le(ZERO, val), le(val, C(7))):
                nf = st.facts.assume(c)
                st.facts = nf if nf is not None else st.facts
        if size == 8 and (b.op.startswith("hp:") or b.op in ("h:deref", "hk")) and is_c(o) and o.a[0] % 16 == 8 and val.op == "ld":
            for c in (le(ZERO, val), le(val, C(7))):
                nf = st.facts.assume(c)
                st.facts = nf if nf is not None else st.facts

    # ------------------------------------------------------------ counts
    def bump(self, st, p, k):
        st.aux = dict(st.aux)
        key = ("bal", p)
        st.aux[key] = add(st.aux.get(key, ZERO), C(k))

    def hv(self, st, p):
        return st.aux.get(("hv", p), ZERO)

    def hbump(self, E, st, p):
        E.uid += 1
        st.aux = dict(st.aux)
        st.aux[("hv", p)] = mk("ver", E.uid)

    def vc(self, E, st, a):
        """content of the var at an address"""
        return mk("vc", E.load(st, a, 8, True), E.load(st, add(a, TY), 8))

    def fresh(self, E, st, a, why, ins):
        """the var at address a gets new content, with its counts in order"""
        site = mk("site", ins.fn.name, ins.idx, len(E.stack))
        q = mk("fh", site, a, mk("k", why))
        q.ptr = True
        t = mk("ft", site, a, mk("k", why))
        if why == "string":
            t = ZERO
            nf = st.facts.assume(NOT(eq(q, ZERO)))
            st.facts = nf if nf is not None else st.facts
        E.store(st, a, 8, q)
        E.store(st, add(a, TY), 8, t)
        st.aux = dict(st.aux)
        # counts of what was there before are settled inside the operation
        st.aux[("base", a)] = mk("vc", q, t)
        st.aux[("live", a)] = TRUE

    def settle(self, E, st, a):
        """an operation which keeps the counts in order replaces the content of
        a: if what it replaces was held by explicit counting, say so"""
        old = self.vc(E, st, a)
        base = st.aux.get(("base", a))
        if base is not None and (base is old):
            return
        if st.aux.get(("live", a)) is FALSE or (base is None and ("live", a) not in st.aux):
            return
        st.aux = dict(st.aux)
        n = 0
        while ("gone", a, n) in st.aux:
            n += 1
        # released inside: -holder(base) +holder(old)
        st.aux[("gone", a, n)] = mk("pairvc", base if base is not None else NOVC, old)

    def widen_aux(self, key, old, new, ctx):
        if old == new:
            return new
        if key[0] == "base" and old is not None and new is not None and old.op == "vc" and new.op == "vc":
            b, o = self._split(key[1])
            r = []
            for k in (0, 1):
                if old.a[k] is new.a[k]:
                    r.append(old.a[k])
                else:
                    t = mk("ivm", ctx, b, add(o, C(8 * k)), 8)
                    t.ptr = old.a[k].ptr or new.a[k].ptr
                    r.append(t)
            return mk("vc", *r)
        return mk("ivx", ctx, str(key))

    def _split(self, a):
        return Engine.split(None, a)

    def join_aux(self, key, vals, ctx):
        return vals[0] if all(v == vals[0] for v in vals) else mk("ivx", ctx, "j" + str(key))

    def live(self, st, a, on):
        st.aux = dict(st.aux)
        if on:
            st.aux[("live", a)] = TRUE
            st.aux.setdefault(("base", a), NOVC)
        else:
            st.aux[("live", a)] = FALSE
            if st.aux.get(("base", a)) is NOVC:
                del st.aux[("base", a)]
                del st.aux[("live", a)]

    # ------------------------------------------------------------ calls
    def ret(self, val, st):
        return [Outcome("ret", val, st)]

    def thrower(self, st0, ins, dem, outs, args=()):
        if self.unwind and not ins.x["nounwind"]:
            u = st0.copy()
            u.emit(Ev("throws", dem, tuple(args), None, ins, u.facts))
            outs.append(Outcome("unw", mk("exc", "?" + short(dem)), u))
        return outs

    def vcall(self, E, st, ins, cls, slot, args):
        if cls not in ("N6libube5IHeapE", "N6libube4HeapE", "N6libube4ViewE"):
            return None
        nm = self.slots[slot] if slot < len(self.slots) else None
        if nm is None:
            return None
        dem = self.prog.dem(nm)
        return self.heapcall(E, st, ins, short(dem).split("::")[-1], args, dem)

    def heapcall(self, E, st, ins, meth, args, dem):
        if (meth in NOFAIL and not (meth == "offset" and len(args) > 1)) or meth.startswith("ptr"):
            u, self.unwind = self.unwind, False
            try:
                return self.heapcall1(E, st, ins, meth, args, dem)
            finally:
                self.unwind = u
        return self.heapcall1(E, st, ins, meth, args, dem)

    def heapcall1(self, E, st, ins, meth, args, dem):
        s = st.copy()
        nm = self.rev(dem)
        sret = self.prog.defs[nm].sret if nm in self.prog.defs else ins.ty == "void" and meth in ("at", "shift", "derefInt")
        a = list(args)
        out = None
        if sret:
            out, a = a[0], a[1:]
        p = a[0]
        rest = tuple(a[1:])
        if meth in ("attach", "detach"):
            self.bump(s, p, 1 if meth == "attach" else -1)
            E.uid += 1
            r = mk("count", p, C(E.uid))
            s.emit(Ev("heap", meth, (p,), r, ins, s.facts))
            if meth == "detach":
                self.hbump(E, s, p)
            # neither throws: the counting itself has no failure mode
            return self.ret(r, s)
        if meth.startswith("ptr"):
            r = mk("hp:" + meth[3:], p, *(rest or (ZERO,)))
            r.ptr = True
            s.emit(Ev("heap", meth, (p,) + rest, r, ins, s.facts))
            return self.thrower(st, ins, dem, self.ret(r, s))
        if meth == "deref":
            r = mk("h:deref", p, *rest)
            r.ptr = True
            s.emit(Ev("heap", meth, (p,) + rest, r, ins, s.facts))
            return self.thrower(st, ins, dem, self.ret(r, s))
        if meth in PURE_H or (meth in ("shape", "stride")):
            r = mk("h:" + meth, p, *(rest + (self.hv(s, p),)))
            if ins.ty == "ptr":
                r = mk("h:" + meth, p, *rest)
                r.ptr = True
            if ins.ty == "i1":
                r = mk("bool", r)
            if meth in ("type", "derefType", "derefAType"):
                for c in (le(ZERO if meth == "derefType" else ONE, r), le(r, C(7 if meth == "derefType" else 9))):
                    nf = s.facts.assume(c)
                    s.facts = nf if nf is not None else s.facts
            s.emit(Ev("heap", meth, (p,) + rest, r, ins, s.facts))
            return self.thrower(st, ins, dem, self.ret(r, s))
        if meth == "derefHeap":
            r = mk("h:derefHeap", p, *rest)
            r.ptr = True
            s.emit(Ev("heap", meth, (p,) + rest, r, ins, s.facts))
            return self.thrower(st, ins, dem, self.ret(r, s))
        if meth == "key":
            r = mk("hk", p, *rest)
            r.ptr = True
            s.emit(Ev("heap", meth, (p,) + rest, r, ins, s.facts))
            return self.thrower(st, ins, dem, self.ret(r, s))
        # anything else changes the array
        E.uid += 1
        s.emit(Ev("heap", meth, (p,) + rest, None, ins, s.facts, x=out))
        if meth not in ("at", "derefInt"):
            self.hbump(E, s, p)
        r = None
        if sret:
            self.fresh(E, s, out, "heap." + meth, ins)
        elif ins.ty != "void":
            r = mk("h:" + meth, p, *(rest + (C(E.uid),)))
        return self.thrower(st, ins, dem, self.ret(r, s))

    def rev(self, dem):
        for n in self.slots:
            if n and self.prog.dem(n) == dem:
                return n
        return None

    def call(self, E, st, ins, name, dem, args):
        s = short(dem)
        if s.startswith("libube::error::"):
            if s.split("::")[-1] == "error" and self.unwind:
                return self.ret(None, st)
            return self.ret(None, st)
        if s.startswith("libube::var::dataType::"):
            return None
        if s.startswith("libube::var::"):
            meth = re.sub(r"<.*>$", "", s[len("libube::var::"):])
            return self.var_method(E, st, ins, name, dem, meth, args)
        m = re.match(r"libube::(Heap|View|IHeap)::(~?\w+)$", s)
        if m:
            return self.heap_method(E, st, ins, name, dem, m.group(1), m.group(2), args)
        if re.match(r"libube::\w*Functor::operator\(\)$|libube::\w+::(scalar|vector|broadcast|alloc)$", s) or \
                s.startswith(("libube::varstream", "libube::varbuf", "libube::view", "libube::range", "libube::irange",
                              "libube::operator")):
            return self.opaque(E, st, ins, name, dem, args)
        return None

    def heap_method(self, E, st, ins, name, dem, cls, meth, args):
        if meth in ("Heap", "View", "~Heap", "~View", "IHeap", "~IHeap"):
            s2 = st.copy()
            s2.emit(Ev("hctor" if meth[0] != "~" else "hdtor", dem, tuple(args), None, ins, s2.facts))
            outs = self.ret(None, s2)
            return self.thrower(st, ins, dem, outs) if meth[0] != "~" else outs
        return self.heapcall(E, st, ins, meth, args, dem)

    def is_public(self, meth):
        return meth in self.public

    def var_method(self, E, st, ins, name, dem, meth, args):
        f = self.prog.defs.get(name)
        isctor = meth == "var"
        inl = (meth in self.raw or not self.is_public(meth)) and f is not None and len(f.order) and name not in E.stack
        base = None
        recv = args[1] if (f is not None and f.sret) else args[0]
        if inl and meth not in ("var", "~var"):
            b, o = E.split(recv)
            # the elements of an array are other vars
            inl = b.op in ("alloca", "arg", "call") or b.op == "new"
        if isctor and inl and len(sig_args(dem)) and not re.match(r"libube::var( const&|&&)$", sig_args(dem)[0]):
            sig = sig_args(dem)
            if len(sig) != 1 or sig[0] not in CTRAW:
                inl = False
        if meth == "~var" and inl:
            b, o = E.split(recv)
            if st.aux.get(("base", recv)) is self.vc(E, st, recv):
                # released as it was acquired
                s2 = st.copy()
                s2.aux = dict(s2.aux)
                del s2.aux[("base", recv)]
                s2.aux.pop(("live", recv), None)
                return self.ret(None, s2)
            outs = E.exec_fn(f, args, st, E.ctx_of(0, ("dtor", ins.fn.name, ins.idx)))
            for oc in outs:
                if oc.kind == "ret":
                    self.live(oc.st, recv, False)
            return outs
        if inl:
            if isctor:
                s2 = st.copy()
                self.live(s2, recv, True)
                outs = E.exec_fn(f, args, s2, E.ctx_of(0, ("ctor", ins.fn.name, ins.idx)))
                for oc in outs:
                    if oc.kind == "unw":
                        self.live(oc.st, recv, False)
                return outs
            if f.sret:
                outs = E.exec_fn(f, args, st, E.ctx_of(0, ("m", ins.fn.name, ins.idx)))
                for oc in outs:
                    if oc.kind == "ret":
                        self.live(oc.st, args[0], True)
                return outs
            return None
        return self.opaque(E, st, ins, name, dem, args)

    def opaque(self, E, st, ins, name, dem, args):
        """an operation whose counts are in order: results are fresh and vars
        passed by reference get fresh content"""
        s = short(dem)
        tmpl = re.search(r"libube::var::(cast|get|ptr)<(.*)>\(", dem)
        if tmpl:
            s = "libube::var::" + tmpl.group(1)
        sig = sig_args(dem)
        s2 = st.copy()
        const = dem.endswith(" const")
        f = self.prog.defs.get(name) or next((m.declares[name] for m in self.prog.mods if name in m.declares), None)
        a = list(args)
        out = None
        if f is not None:
            f.params
            if f.sret:
                out = a.pop(0)
        method = s.startswith("libube::var::") or re.match(r"libube::\w*Functor::|libube::\w+::(scalar|vector|broadcast|alloc)$", s)
        recv = a.pop(0) if method and a else None
        ctor = s == "libube::var::var"
        vals = []
        i = 0
        upd = []
        for t in sig:
            t = t.strip()
            if i >= len(a):
                break
            if t.startswith("libube::var"):
                vals.append(self.vc(E, st, a[i]))
                if t in ("libube::var&", "libube::var&&"):
                    upd.append(a[i])
                i += 1
            elif t == "std::complex<double>" or t.startswith("std::initializer_list"):
                vals += a[i:i + 2]
                i += 2
            else:
                vals.append(a[i])
                i += 1
        vals += a[i:]
        rc = None
        var_recv = s.startswith("libube::var::")
        if var_recv and not ctor:
            rc = self.vc(E, st, recv)
        r = None
        E.uid += 1
        if ins.ty != "void":
            if tmpl:
                t = tmpl.group(2).strip()
                r = mk("m:" + tmpl.group(1), rc, mk("T", CT.get(t, t)), *vals)
            else:
                r = mk("m:" + s.split("::")[-1], *([rc] if rc is not None else []), *vals, C(E.uid))
            if ins.ty == "ptr":
                r.ptr = True
            if ins.ty == "i1":
                r = mk("bool", r)
        s2.emit(Ev("op", s, ((rc,) if rc is not None else ((recv,) if recv is not None else ())) + tuple(vals), r, ins, s2.facts,
                   x=recv))
        if ctor:
            self.fresh(E, s2, recv, "string" if sig and sig[-1].endswith(("char const*", "int const*", "std::complex<double>")) else s, ins)
        elif var_recv and not const:
            b, o = E.split(recv)
            if b.op in ("alloca", "arg", "new"):
                self.settle(E, s2, recv)
                self.fresh(E, s2, recv, s, ins)
        for x in upd:
            b, o = E.split(x)
            if b.op in ("alloca", "arg", "new"):
                self.settle(E, s2, x)
                self.fresh(E, s2, x, s, ins)
        if out is not None:
            self.fresh(E, s2, out, s, ins)
        if var_recv and ins.ty == "ptr" and not const:
            # these return their receiver
            if s.split("::")[-1] not in ("ptr", "data", "heap"):
                r = recv
        if isinstance(ins.ty, tuple) and ins.ty[0] == "struct":
            r = mk("agg", mk("xv", r, 0), mk("xv", r, 1))
        return self.thrower(st, ins, dem, self.ret(r, s2))


NOTVAR = {"libube::var::var"}
CTRAW = {"char", "int", "long", "float", "double", "std::complex<float>", "std::complex<double>"}


# ------------------------------------------------------------------ entry states
def kind_facts(a, kind, k=0):
    """facts about the var at address a"""
    hp = mk("ld", a, ZERO, 8, ZERO)
    hp.ptr = True
    ty = mk("ld", a, C(8), 8, ZERO)
    if kind == "nil":
        return [eq(ty, ZERO), eq(hp, ZERO)]
    if kind == "array":
        return [eq(ty, ZERO), NOT(eq(hp, ZERO))]
    if kind == "ref":
        return [le(ty, C(-1)), NOT(eq(hp, ZERO))]
    if kind == "scalar":
        return [le(ONE, ty), le(ty, C(6))]
    return [eq(ty, C(TAG[kind]))]


def hp_of(a):
    t = mk("ld", a, ZERO, 8, ZERO)
    t.ptr = True
    return t


def ty_of(a):
    return mk("ld", a, C(8), 8, ZERO)


class CoreRun(Run):
    """a run at the core level; formals are var addresses"""

    def __init__(self, R, prog, fn, setup=None, unwind=True, prep=None, policy=None):
        class P(policy or CorePolicy):
            pass
        P.unwind = unwind
        self.unwind = unwind

        def pr(run):
            for a in run.args:
                if a.op == "arg" and a is not run.sret and not (a is run.args[0] and short(run.dem) in NOTVAR):
                    run.st.aux[("live", a)] = TRUE
                    run.st.aux[("base", a)] = mk("vc", hp_of(a), ty_of(a))
            g = mk("global", "_ZN6libube3nilE")
            g.ptr = True
            run.st.mem[g] = {ZERO: (8, ZERO), C(8): (8, ZERO)}
            run.scalars = set()
            if prep:
                prep(run)
        Run.__init__(self, R, prog, None, None, 0, fn=fn, unwind=unwind, setup=setup, prep=pr, policy=P)


def is_holder(facts, vc):
    """does content vc hold its pointer? True/False/None"""
    p, t = vc.a
    neg_ = facts.decide(le(t, ZERO))
    nul = facts.decide(eq(p, ZERO)) if p.op != "c" else (p is ZERO)
    if neg_ is False or nul is True:
        return False
    if neg_ is True and (nul is False or p.op in ("new",)):
        return True
    return None


def balance(run, o):
    """[(verdict, message)] for one outcome: each counted array has as many new
    references as it has new holders"""
    E, pol, st = run.E, run.pol, o.st
    ext = {}

    def tally(vc, k):
        if vc is NOVC:
            return
        p = vc.a[0]
        h = is_holder(o.facts, vc)
        d = ext.setdefault(p, [0, []])
        if h is True:
            d[0] += k
        elif h is None:
            d[1].append((vc, k))
    unknown = []
    for key, v in st.aux.items():
        if not isinstance(key, tuple):
            continue
        if key[0] == "base":
            a = key[1]
            if v.op not in ("vc", "novc"):
                unknown.append(a)
                continue
            lv = st.aux.get(("live", a))
            if lv is not TRUE and lv is not FALSE:
                unknown.append(a)
                continue
            now = pol.vc(E, st, a) if lv is TRUE else NOVC
            if now is not NOVC and now.a[0] in run.scalars:
                h = o.facts.decide(le(now.a[1], ZERO))
                if h is True:
                    return [(False, "the value of a scalar is taken for the address of an array")]
                if h is False:
                    if v is not now:
                        tally(v, -1)
                    continue
            if now is v:
                continue
            tally(v, -1)
            tally(now, 1)
        if key[0] == "gone":
            # bal does not see the release of what was there
            if v.op != "pairvc":
                unknown.append(key[1])
                continue
            tally(v.a[0], -1)
            tally(v.a[1], 1)
    res = []
    ps = set(ext)
    for key in st.aux:
        if isinstance(key, tuple) and key[0] == "bal":
            ps.add(key[1])
    for p in ps:
        n, unk = ext.get(p, [0, []])
        cnt = {}
        for vc, k in unk:
            cnt[vc] = cnt.get(vc, 0) + k
        left = [vc for vc, k in cnt.items() if k]
        b = st.aux.get(("bal", p), ZERO)
        if left or not is_c(b) or unknown or p.op in ("undef", "ivm", "j", "jm", "wk"):
            if p.op == "undef" and not left and b is ZERO and n == 0:
                continue
            res.append((None, "cannot tell the holders of %s" % show(p)))
            continue
        if p.op == "c":
            continue
        if b.a[0] != n:
            res.append((False, "%s: %+d references counted for %+d holders" % (show(p), b.a[0], n)))
        else:
            res.append((True, ""))
    return res
