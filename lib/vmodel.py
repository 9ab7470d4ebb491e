"""Abstract semantics of the var type for client code.

A var object is a memory location; its abstract content is a term:
  v0(loc)                  unknown initial content (an array or scalar)
  nil                      undefined
  num(T, x)                scalar constructed from x
  str(ptr)                 string constructed from a C string
  elem(C, i)               reference to element i of C (what at(), [] and () give)
  m:NAME(contents...,ver)  result of a var-returning operation
Reads are terms over contents and the version of the array read; updates bump
the version of that array and are recorded as effects.  Distinct roots are
taken to be distinct arrays unless a rule analyses an explicitly aliased entry
state.  The table below is the trusted description of var's own methods, which
the core-level checks establish against their bodies."""
import re
from terms import *
from engine import *
from ir import short, sig_args

NIL = mk("nil")

CT = {"char": "char", "int": "int", "long": "long", "float": "float", "double": "double",
      "std::complex<float>": "cfloat", "std::complex<double>": "cdouble",
      "libube::var": "var", "libube::pair": "pair", "libube::cfloat": "cfloat"}
TSIZE = {"char": 1, "int": 4, "long": 8, "float": 4, "double": 8, "cfloat": 8, "cdouble": 16}
TAG = {"array": 0, "char": 1, "int": 2, "long": 3, "float": 4, "double": 5, "cfloat": 6, "cdouble": 7,
       "var": 8, "pair": 9}

# methods that return *this
SELF = {"operator=", "push", "append", "insert", "resize", "presize", "clear", "array", "unshift",
        "getline", "offset", "advance", "operator+=", "operator-=", "operator*=", "operator/="}
# non-const methods that do not change anything
READERS = {"top", "search", "match", "replace", "view", "subview", "ptr", "len"}
STRUCT = {"type", "atype", "defined", "heap", "view", "dim", "shape", "stride", "offset", "is", "size", "bounds"}
# mutators that keep structure
VALUE_ONLY = {"operator=", "sort!", "toupper", "tolower", "floor", "sin", "cos", "sqrt", "log", "exp", "pow",
              "real", "imag", "abs", "arg", "norm", "operator+=", "operator-=", "operator*=", "operator/="}

MATH = {"sin", "cos", "tan", "atan", "floor", "sqrt", "log", "exp", "pow", "abs", "fabs", "arg", "real",
        "imag", "norm", "ceil", "conj", "sinh", "cosh", "tanh", "asin", "acos", "asinh", "acosh", "atanh", "exp2", "expm1",
        "log2", "log10", "log1p", "cbrt", "ceil", "round", "trunc", "rint", "nearbyint", "conj", "proj", "hypot", "atan2", "fmod", "erf", "tgamma"}
ASSIGN_LIKE = {"operator=", "clear"}

NONNEG = {"m:size", "m:dim", "m:shape", "strlen", "m:stride", "m:len"}


def is_nonneg(t):
    if t.op in NONNEG:
        return True
    if t.op == "call" and t.a and t.a[0] in ("strlen",):
        return True
    return False


class VarPolicy(Policy):
    """clients of var"""
    # functions that only read their arguments and return a new value
    FRESH = ("libube::view", "libube::range", "libube::irange")
    unwind = False            # explore exceptional edges of may-throw primitives
    nounw_pat = None

    def __init__(self, prog, tags=None):
        Policy.__init__(self, prog)
        self.tags = tags or {}
        self.facts_hook = None
        self.inline_ns = ("libube::", "std::", "blas::", "lapack::")

    def nonneg(self, t):
        return is_nonneg(t)

    def may_unwind(self, name, dem, ins):
        if not self.unwind:
            return False
        return not NOTHROW.match(dem)

    def inline(self, name, dem):
        s = short(dem)
        if s.startswith("libube::varstream") or s.startswith("libube::error"):
            return False
        if s.startswith("libube::") or not s.startswith("std::") and "::" not in s:
            return Policy.inline(self, name, dem)
        if re.match(r"std::(min|max|initializer_list|complex|begin|end|swap|move|forward)\b", s):
            return True
        if s.startswith("std::"):
            return bool(ALGOS.match(s)) and "*" in dem
        if s.startswith(("boost::", "__gnu")):
            return False
        return Policy.inline(self, name, dem)

    # ------------------------------------------------ content bookkeeping
    def content(self, E, st, addr):
        c = st.aux.get(("v", addr))
        if c is None:
            base, off = E.split(addr)
            if base.op == "alloca":
                return mk("uninit")
            if base.op == "global" and "3nilE" in base.a[0]:
                return NIL
            return mk("v0", addr, st.aux.get(("mv", base), ZERO))
        return c

    def setc(self, st, addr, c):
        st.aux = dict(st.aux)
        st.aux[("v", addr)] = c

    def widen_aux(self, key, old, new, ctx):
        if key[0] == "v":
            if old is None:
                return new    # body-local
            return mk("vx", ctx, key[1])
        return mk("ivx", ctx, *[k if isinstance(k, T) else mk("k", k) for k in key])

    def join_aux(self, key, vals, ctx):
        if all(v == vals[0] for v in vals):
            return vals[0]
        if key[0] == "v":
            if any(v is None for v in vals):
                return None
            return mk("vx", ctx, key[1])
        return mk("ivx", ctx, *[k if isinstance(k, T) else mk("k", str(k)) for k in (key if isinstance(key, tuple) else (key,))])

    def root(self, c):
        while c.op in ("elem",):
            c = c.a[0]
        return c

    def sver(self, st, c):
        return st.aux.get(("s", self.root(c)), ZERO)

    def ever(self, st, c):
        return st.aux.get(("e", self.root(c)), ZERO)

    def bump(self, E, st, c, struct):
        if c.op in ("num", "nil", "uninit"):
            return
        r = self.root(c)
        E.uid += 1
        st.aux = dict(st.aux)
        st.aux[("e", r)] = mk("ver", E.uid)
        if struct:
            st.aux[("s", r)] = mk("ver", E.uid)

    # ------------------------------------------------ argument decoding
    def decode(self, E, st, ins, dem, args, is_method, sret):
        """list of decoded arguments (content terms for vars)"""
        sig = sig_args(dem)
        a = list(args)
        if sret:
            a = a[1:]
        recv = None
        if is_method:
            recv = a.pop(0)
        out = []
        i = 0
        for s in sig:
            s = s.strip()
            if s == "...":
                out.extend(a[i:])
                break
            if i >= len(a):
                break
            if s in ("libube::var", "libube::var const&", "libube::var&", "libube::var&&"):
                out.append(self.content(E, st, a[i]))
                i += 1
            elif s == "std::complex<double>":
                out.append(self.recomb(mk("agg", a[i], a[i + 1])))
                i += 2
            elif s.startswith("std::initializer_list"):
                out.append(mk("il", a[i], a[i + 1]))
                i += 2
            else:
                out.append(a[i])
                i += 1
        return recv, out

    def recomb(self, t):
        """{xv(t,0), xv(t,1)} -> t"""
        if t.op == "agg" and len(t.a) == 2:
            x, y = t.a
            if x.op == "xv" and y.op == "xv" and x.a[0] is y.a[0] and x.a[1] == 0 and y.a[1] == 1:
                return x.a[0]
            if x.op == "ld" and y.op == "ld" and x.a[0] is y.a[0] and sub(y.a[1], x.a[1]) is C(8):
                return mk("ld", x.a[0], x.a[1], 16, x.a[3])
        if t.op == "cat" and len(t.a) == 7:
            x, y = t.a[3], t.a[6]
            if x.op == "xv" and y.op == "xv" and x.a[0] is y.a[0] and x.a[1] == 0 and y.a[1] == 1:
                return x.a[0]
            if x.op == "ext" and y.op == "ext" and x.a[0] is y.a[0]:
                return x.a[0]
            return mk("cplx", x, y)
        return t

    def cload(self, E, st, addr, size):
        return self.recomb(E.load(st, addr, size))

    # ------------------------------------------------ calls
    def ret(self, E, st, val=None):
        return [Outcome("ret", val, st)]

    def thrower(self, E, st0, ins, dem, outs, args=()):
        if self.unwind and not ins.x["nounwind"]:
            if self.nounw_pat and re.match(self.nounw_pat, dem):
                return outs
            u = st0.copy()
            u.emit(Ev("throws", dem, tuple(args), None, ins, u.facts))
            outs.append(Outcome("unw", mk("exc", "?" + short(dem)), u))
        return outs

    def call(self, E, st, ins, name, dem, args):
        s = short(dem)
        if s.startswith("libube::var::") :
            return self.var_method(E, st, ins, name, dem, s[len("libube::var::"):], args)
        if s.startswith("libube::error::"):
            return self.ret(E, st)
        if s in ("libube::ind::ind", "libube::ind::operator long", "libube::ind::operator++", "libube::ind::operator~",
                 "libube::ind::operator bool", "libube::ind::operator--"):
            return None
        m = re.match(r"std::(?:operator)(.+?)(?:<(?:float|double)>)?$", s)
        sig = sig_args(dem)
        if m and sig and "std::complex<" in sig[0] or (m and len(sig) > 1 and "std::complex<" in sig[1] and "ostream" not in sig[0]):
            return self.complex_op(E, st, ins, dem, m.group(1), sig, args)
        r = self.math(E, st, ins, name, dem, s, sig, args)
        if r is not None:
            return r
        if s == "libube::operator<<" or s.startswith("std::operator<<") or re.match(r"std::basic_ostream<.*>::operator<<", s):
            s2 = st.copy()
            payload = args[1] if len(args) > 1 else None
            if s == "libube::operator<<":
                payload = self.content(E, st, args[1])
            s2.emit(Ev("out", dem, (args[0],) + ((payload,) if payload is not None else ()), None, ins, s2.facts))
            E.uid += 1
            s2.aux = dict(s2.aux)
            s2.aux[("sv", args[0])] = mk("ver", E.uid)
            return self.thrower(E, st, ins, dem, [Outcome("ret", args[0], s2)], args)
        if s.startswith("libube::varstream::varstream"):
            s2 = st.copy()
            init = self.content(E, st, args[1]) if len(args) > 1 else NIL
            b = args[0]
            s2.aux = dict(s2.aux)
            s2.aux[("strm", b)] = init
            s2.emit(Ev("varstream", dem, (b, init), None, ins, s2.facts))
            return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])
        if s.startswith("libube::varstream::~varstream"):
            return self.ret(E, st)
        if s == "libube::varstream::operator libube::var":
            s2 = st.copy()
            self.setc(s2, args[0], mk("streamval", args[1], s2.aux.get(("sv", args[1]), ZERO)))
            return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])
        if re.match(r"libube::\w*Functor::operator\(\)$", s):
            return self.functor(E, st, ins, name, dem, s, args)
        if self.methods_opaque and s.split("::")[-1] in self.METHODS and s.startswith("libube::") and \
                s not in getattr(self, "open_methods", ()):
            return self.method(E, st, ins, name, dem, s, args)
        if s == "__cxa_guard_acquire":
            return self.ret(E, st, ZERO)
        if s in self.FRESH and name not in self.prog.defs and ins.ty == "void":
            s2 = st.copy()
            recv, av = self.decode(E, st, ins, dem, args, False, True)
            t = mk("m:" + s.replace("libube::", "free."), *av)
            s2.emit(Ev("read", s, tuple(av), t, ins, s2.facts))
            self.setc(s2, args[0], t)
            return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])
        return self.special(E, st, ins, name, dem, s, args)

    def special(self, E, st, ins, name, dem, s, args):
        return None

    # ------------------------------------------------ functor methods
    METHODS = ("broadcast", "scalar", "vector", "alloc")
    methods_opaque = True
    this_class = None         # mangled class of the object under analysis
    this_obj = None

    def vcall(self, E, st, ins, cls, slot, args):
        vt = self.prog.vtables()
        c = cls
        if self.this_class and args and args[0] is self.this_obj:
            c = self.this_class
        fl = vt.get(c)
        nm = fl[slot] if fl and slot < len(fl) else None
        if nm is None:
            return None
        return nm

    def method(self, E, st, ins, name, dem, s, args):
        """a call to one of the functor protocol methods, kept as an event"""
        sret = ins.ty == "void" and self.returns_var(name, "")
        s2 = st.copy()
        recv, av = self.decode(E, st, ins, dem, args, True, sret)
        sig = sig_args(dem)
        raw = list(args)[2 if sret else 1:]
        E.uid += 1
        s2.emit(Ev("method", s, (recv,) + tuple(av), None, ins, s2.facts, x=tuple(raw)))
        for a, c in zip(sig, av):
            if a.strip() == "libube::var&":
                self.bump(E, s2, c, False)
                if c.op == "nil":
                    i = sig.index(a)
                    self.setc(s2, raw[i], mk("out", mk("k", s), *av, C(E.uid)))
        if sret:
            sret_a = args[0] if not self.sret_second(name) else args[0]
            r = mk("m:" + s.split("::")[-1], recv, *av)
            # on Itanium the sret pointer precedes this
            self.setc(s2, args[0], r)
        return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])

    def functor(self, E, st, ins, name, dem, s, args):
        """application of a functor object to vars"""
        s2 = st.copy()
        obj, av = self.decode(E, st, ins, dem, args, True, True)
        raw = list(args)[2:]
        E.uid += 1
        r = mk("m:apply", obj, *(list(av) + [C(E.uid)]))
        s2.emit(Ev("functor", s, (obj,) + tuple(av), r, ins, s2.facts, x=tuple(raw)))
        sig = sig_args(dem)
        for i, a in enumerate(sig):
            if a.strip() == "libube::var&":
                if av[i].op in ("nil", "num", "uninit", "str"):
                    self.setc(s2, raw[i], r)
                else:
                    self.bump(E, s2, av[i], False)
        self.setc(s2, args[0], r)
        return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])

    def sret_second(self, name):
        return False

    def math(self, E, st, ins, name, dem, s, sig, args):
        m = re.match(r"(?:std::)?(\w+?)(?:<.*>)?$", s)
        if not m:
            return None
        f = m.group(1)
        n = f
        if n not in MATH and n.endswith("f") and n[:-1] in MATH:
            n = n[:-1]
        if n in ("cabs",):
            n = "abs"
        if n not in MATH:
            return None
        if s.startswith("libube::"):
            return None
        if sig and not re.search(r"float|double|complex", dem) and s.startswith("std::"):
            return None
        n = "abs" if n == "fabs" else n
        vals = []
        i = 0
        for a in (sig or []):
            if "std::complex<" in a:
                sz = 8 if "float" in a else 16
                vals.append(self.cload(E, st, args[i], sz))
            elif a.endswith("&"):
                vals.append(E.load(st, args[i], 8 if "double" in a else 4))
            else:
                vals.append(args[i])
            i += 1
        if not sig:
            vals = list(args)
        t = mk("fn:" + n, *vals)
        if isinstance(ins.ty, tuple) and ins.ty[0] == "struct":
            return self.ret(E, st, mk("agg", mk("xv", t, 0), mk("xv", t, 1)))
        return self.ret(E, st, t)

    def complex_op(self, E, st, ins, dem, op, sig, args):
        vals = []
        for a, x in zip(sig, args):
            sz = 8 if "complex<float>" in a else 16
            if "complex" in a:
                vals.append(self.cload(E, st, x, sz))
            else:
                vals.append(E.load(st, x, 4 if "float" in a else 8))
        if op in ("==", "!="):
            t = mk("fcmp", "oeq", *vals)
            return self.ret(E, st, t if op == "==" else NOT(t))
        nm = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}.get(op)
        if nm is None:
            return None
        if len(vals) == 1:
            t = mk("fneg", vals[0])
        else:
            if nm in ("fadd", "fmul"):
                vals = sorted(vals, key=lambda t: t.id)
            t = mk(nm, *vals)
        if isinstance(ins.ty, tuple) and ins.ty[0] == "struct":
            return self.ret(E, st, mk("agg", mk("xv", t, 0), mk("xv", t, 1)))
        return self.ret(E, st, t)

    def var_method(self, E, st, ins, name, dem, meth, args):
        sret = ins.ty == "void" and self.returns_var(name, meth)
        if meth == "~var":
            s2 = st.copy()
            s2.aux = dict(s2.aux)
            s2.aux.pop(("v", args[0]), None)
            return self.ret(E, s2)
        if meth == "var":
            return self.ctor(E, st, ins, dem, args)
        inl = self.inline_header(meth)
        if inl:
            return None
        s2 = st.copy()
        recv, av = self.decode(E, st, ins, dem, args, True, sret)
        rc = self.content(E, st, recv)
        mname = re.sub(r"<(.*)>$", "", meth)
        tmpl = re.search(r"<(.*)>$", meth)
        ty = CT.get(tmpl.group(1).strip(), tmpl.group(1).strip()) if tmpl else None
        const = dem.endswith(" const")
        if mname == "operator bool":
            mname = "defined"
        # ---- references to elements
        if mname in ("at", "operator[]", "operator()", "top", "varderef"):
            kind = sig_args(dem)[0] if sig_args(dem) else ""
            if kind == "libube::var":
                t = mk("kelem", rc, av[0])
            elif mname == "operator()":
                t = mk("elem", rc, mk("idx", *av)) if len(av) > 1 else mk("elem", rc, av[0])
            elif mname == "top":
                t = mk("elem", rc, sub(mk("m:size", rc, self.sver(st, rc)), ONE))
            else:
                t = mk("elem", rc, av[0])
            s2.emit(Ev("var", "elem." + mname + ("" if not const else ".const"), (rc,) + tuple(av), t, ins, s2.facts, x=recv))
            if mname == "operator[]" and not const and kind == "libube::var":
                self.bump(E, s2, rc, True)
            self.setc(s2, args[0], t)
            return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])
        if mname == "operator=":
            new = av[0]
            # assigning through an element reference writes the array
            if rc.op in ("elem", "kelem"):
                self.bump(E, s2, rc, False)
                s2.emit(Ev("var", "assign_elem", (rc, new), None, ins, s2.facts, x=recv))
            else:
                s2.emit(Ev("var", "assign", (rc, new), None, ins, s2.facts, x=recv))
                self.setc(s2, recv, new)
            return self.thrower(E, st, ins, dem, [Outcome("ret", recv, s2)])
        if mname == "clear":
            s2.emit(Ev("var", "assign_elem" if rc.op in ("elem", "kelem") else "assign", (rc, NIL), None, ins, s2.facts, x=recv))
            if rc.op in ("elem", "kelem"):
                self.bump(E, s2, rc, False)
            else:
                self.setc(s2, recv, NIL)
            return self.thrower(E, st, ins, dem, [Outcome("ret", recv, s2)])
        if mname == "dereference":
            # turns a reference into the value it refers to
            if rc.op in ("elem", "kelem"):
                nc = mk("m:dereference", rc, self.ever(st, rc))
                self.setc(s2, recv, nc)
            else:
                nc = rc
            s2.emit(Ev("read", "dereference", (rc,), nc, ins, s2.facts, x=recv))
            return self.thrower(E, st, ins, dem, [Outcome("ret", recv, s2)])
        # ---- readers
        if const or mname in READERS or (mname == "offset" and not sig_args(dem)) or mname in ("shape", "stride", "dim"):
            if ty in CT.values() or ty:
                vnode = mk("T", ty)
            else:
                vnode = None
            ver = self.sver(st, rc) if mname in STRUCT else self.ever(st, rc)
            if mname == "get" and rc.op == "num" and rc.a[0] == ty:
                r = rc.a[1]
            elif mname == "size" and rc.op == "num":
                r = ONE
            elif mname == "size" and rc.op == "nil":
                r = ZERO
            elif mname == "defined" and rc.op in ("num", "str"):
                r = TRUE
            elif mname == "defined" and rc.op == "nil":
                r = FALSE
            elif mname in ("type", "atype") and not tmpl and rc.op == "num" and rc.a[0] in TAG:
                r = C(0 if mname == "type" and rc.a[0] == "cdouble" else TAG[rc.a[0]])
            elif mname == "atype" and tmpl and rc.op == "num" and rc.a[0] in TAG:
                r = TRUE if rc.a[0] == ty else FALSE
            elif mname == "atype" and tmpl:
                r = eq(mk("m:atype", rc, self.sver(st, rc)), C(TAG[ty]))
            else:
                parts = [rc] + ([vnode] if vnode else []) + list(av)
                for c in av:
                    if c.op in ("v0", "elem", "vx") or c.op.startswith("m:"):
                        pass
                r = mk("m:" + mname, *(parts + [ver]))
                if mname in ("ptr", "str", "heap"):
                    r = mk("m:" + mname, *parts)
                    r.ptr = True
                if ins.ty == "i1":
                    r = mk("bool", r)
                    # comparison of the negation
            if mname == "defined" and ins.ty == "i1" and r not in (TRUE, FALSE):
                r = mk("bool", mk("m:defined", rc, ver))
            if mname == "operator!=" and r.op == "bool":
                a, b = sorted((rc, av[0]), key=lambda t: t.id)
                r = NOT(mk("bool", mk("m:==", a, b, self.ever(st, a), self.ever(st, b))))
            elif mname == "operator<" and r.op == "bool":
                r = mk("bool", mk("m:<", rc, av[0], self.ever(st, rc), self.ever(st, av[0])))
            s2.emit(Ev("read", mname, (rc,) + tuple(av), r, ins, s2.facts, x=recv))
            if sret:
                self.setc(s2, args[0], r)
                r = None
            elif isinstance(ins.ty, tuple) and ins.ty[0] == "struct":
                r = mk("agg", mk("xv", r, 0), mk("xv", r, 1))
            return self.thrower(E, st, ins, dem, [Outcome("ret", r, s2)])
        # ---- mutators
        E.uid += 1
        struct = mname not in VALUE_ONLY
        s2.emit(Ev("var", mname, (rc,) + tuple(av), None, ins, s2.facts, x=recv))
        if rc.op in ("nil", "num", "uninit", "str"):
            nc = mk("mut", mk("k", mname), rc, C(E.uid), *av)
            self.setc(s2, recv, nc)
            rc2 = nc
        else:
            self.bump(E, s2, rc, struct)
            rc2 = rc
        r = None
        if sret:
            r0 = mk("m:" + mname, rc, *(list(av) + [mk("ver", E.uid)]))
            self.setc(s2, args[0], r0)
        elif mname in SELF or ins.ty == "ptr":
            r = recv
        elif ins.ty != "void":
            r = mk("m:" + mname, rc, *(list(av) + [mk("ver", E.uid)]))
            if ins.ty == "i1":
                r = mk("bool", r)
        return self.thrower(E, st, ins, dem, [Outcome("ret", r, s2)])

    def inline_header(self, meth):
        return meth in ("operator==", "operator>", "operator<=", "operator>=", "operator bool")

    def returns_var(self, name, meth):
        f = self.prog.defs.get(name)
        if f is None:
            for m in self.prog.mods:
                f = m.declares.get(name)
                if f is not None:
                    break
        if f is None:
            return False
        f.params
        return f.sret

    def ctor(self, E, st, ins, dem, args):
        sig = sig_args(dem)
        s2 = st.copy()
        a = args[0]
        if not sig:
            c = NIL
        elif sig[0] in ("libube::var const&", "libube::var&&"):
            c = self.content(E, st, args[1])
            if sig[0].endswith("&&"):
                self.setc(s2, args[1], NIL)
        elif sig[0] in CT and len(sig) == 1:
            t = CT[sig[0]]
            x = args[1]
            if t == "cdouble":
                x = self.recomb(mk("agg", args[1], args[2]))
            c = mk("num", t, x)
        elif sig[0] == "char const*":
            c = mk("str", args[1])
        elif sig == ["int", "char const*"]:
            c = mk("strn", args[1], args[2])
            s2.emit(Ev("var", "ctor.strn", tuple(args), c, ins, s2.facts))
        else:
            recv, av = self.decode(E, st, ins, dem, args, True, False)
            E.uid += 1
            c = mk("m:ctor", mk("k", ",".join(sig)), *(av + [C(E.uid)]))
            s2.emit(Ev("var", "ctor", tuple(av), c, ins, s2.facts, x=",".join(sig)))
        self.setc(s2, a, c)
        return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])
