"""Abstract effect of functor methods: which element locations receive which
values, per element type, through direct stores and BLAS calls."""
import re
from vmodel import *
from ir import short, sig_args, AnalysisError
from report import Vanished

TYPES = ["char", "int", "long", "float", "double", "cfloat", "cdouble"]
TNAME = {v: k for k, v in TAG.items()}
FTY = {"s": "float", "d": "double", "c": "cfloat", "z": "cdouble"}
SIZEOF = {"char": 1, "int": 4, "long": 8, "float": 4, "double": 8, "cfloat": 8, "cdouble": 16}


class FunctorPolicy(VarPolicy):
    def __init__(self, prog, cls=None):
        VarPolicy.__init__(self, prog)
        self.this_class = cls
        self.this_obj = arg(0)

    def on_store(self, E, st, ins, addr, size, val):
        if any(x.op == "m:ptr" for x in lin(addr)[1]):
            st.emit(Ev("store", "ptr", (addr, C(size), val), None, ins, st.facts))
            b = [x for x in lin(addr)[1] if x.op == "m:ptr"][0]
            self.bump(E, st, b.a[0], False)

    def special(self, E, st, ins, name, dem, s, args):
        r = self.blas(E, st, ins, name, args)
        if r is not None:
            return r
        m = re.match(r"mkl_([sdcz])(imatcopy|omatcopy)$", name, re.I)
        if m:
            s2 = st.copy()
            s2.emit(Ev("mkl", "%s:%s" % (m.group(2), FTY[m.group(1).lower()]), tuple(args), None, ins, s2.facts))
            return self.ret(E, s2)
        m = re.match(r"std::sort<(.*)>$", s)
        if m or s == "std::sort":
            s2 = st.copy()
            s2.emit(Ev("stdsort", s, tuple(args), None, ins, s2.facts))
            return self.ret(E, s2)
        m = re.match(r"std::(copy|copy_n|fill|fill_n|swap_ranges|transform|accumulate)\b", s)
        if m:
            return None
        return None

    def blas(self, E, st, ins, name, args):
        m = re.match(r"(i?)([sdcz])(swap|copy|axpy|scal|dot|dotc|dotu|amax|asum|nrm2|tbmv|sbmv|gemm|gees|geev)_?$", name)
        if not m:
            return None
        op, ty = m.group(1) + m.group(3), FTY[m.group(2)]
        isz = 8          # integer in clapack.h: read from the declared pointee on use
        s2 = st.copy()

        def I(p):
            return self.scalar_at(E, st, p, 8)

        def F(p):
            return self.cload(E, st, p, SIZEOF[ty]) if ty.startswith("c") else E.load(st, p, SIZEOF[ty])

        def Ch(p):
            v = self.scalar_at(E, st, p, 1)
            return mk("ch", chr(v.a[0])) if is_c(v) else v
        a = list(args)
        res = None
        if op in ("swap", "copy"):
            ev = (I(a[0]), a[1], I(a[2]), a[3], I(a[4]))
        elif op == "axpy":
            ev = (I(a[0]), F(a[1]), a[2], I(a[3]), a[4], I(a[5]))
        elif op == "scal":
            ev = (I(a[0]), F(a[1]), a[2], I(a[3]))
        elif op == "dot" and ty in ("float", "double"):
            ev = (I(a[0]), a[1], I(a[2]), a[3], I(a[4]))
            res = mk("blas:dot", mk("T", ty), *ev)
        elif op in ("dotc", "dotu"):
            ev = (I(a[1]), a[2], I(a[3]), a[4], I(a[5]))
            res = mk("blas:" + op, mk("T", ty), *ev)
            E.store(s2, a[0], SIZEOF[ty], res)
        elif op == "iamax":
            ev = (I(a[0]), a[1], I(a[2]))
            res = mk("blas:iamax", mk("T", ty), *ev)
        elif op == "asum":
            ev = (I(a[0]), a[1], I(a[2]))
            res = mk("blas:asum", mk("T", ty), *ev)
        elif op == "tbmv":
            ev = (Ch(a[0]), Ch(a[1]), Ch(a[2]), I(a[3]), I(a[4]), a[5], I(a[6]), a[7], I(a[8]))
        elif op == "sbmv":
            ev = (Ch(a[0]), I(a[1]), I(a[2]), F(a[3]), a[4], I(a[5]), a[6], I(a[7]), F(a[8]), a[9], I(a[10]))
        elif op == "gemm":
            ev = (Ch(a[0]), Ch(a[1]), I(a[2]), I(a[3]), I(a[4]), F(a[5]), a[6], I(a[7]), a[8], I(a[9]), F(a[10]), a[11], I(a[12]))
        else:
            ev = tuple(a)
        s2.emit(Ev("blas", "%s:%s" % (op, ty), ev, res, ins, s2.facts, x=tuple(a)))
        if op in ("gees", "geev"):
            return None
        return self.ret(E, s2, res)

    def scalar_at(self, E, st, p, size):
        """integer or character passed by address; file-level statics that are
        never stored to keep their initial value"""
        b, o = E.split(p)
        if b.op == "global" and b not in st.mem:
            for m in self.prog.mods:
                g = m.globals.get(b.a[0])
                if g and "internal" in g:
                    mm = re.search(r"\bglobal (i\d+) (-?\d+),", g)
                    if mm:
                        return C(int(mm.group(2)))
                    mm = re.search(r"\bglobal (i\d+) zeroinitializer,", g)
                    if mm:
                        return ZERO
        return E.load(st, p, size)


def arg(k):
    a = mk("arg", "a%d" % k)
    a.ptr = True
    return a


def iarg(k):
    return mk("iarg", "i%d" % k)


def impl(prog, cls, meth, nargs):
    """function implementing a virtual method of a class, through its vtable"""
    fl = prog.vtables().get(cls)
    if fl is None:
        raise Vanished("no vtable for class %s" % cls)
    hits = []
    for n in fl:
        if n is None:
            continue
        d = prog.dem(n)
        if short(d).split("::")[-1] == meth and len(sig_args(d)) == nargs and n not in hits:
            hits.append(n)
    if not hits:
        raise Vanished("class %s has no method %s/%d" % (cls, meth, nargs))
    return hits[0]


def nparams(sig):
    """IR parameters taken by a demangled argument list"""
    n = 0
    for a in sig:
        a = a.strip()
        if a == "..." or a == "void":
            continue
        n += 2 if a in ("std::complex<double>",) or a.startswith("std::initializer_list") else 1
    return n


class Run:
    """one abstract run of a method from one entry state"""

    def __init__(self, R, prog, cls, meth, nargs, setup=None, alias=None, policy=None, unwind=False, fn=None, prep=None):
        self.name = fn.name if fn is not None else impl(prog, cls, meth, nargs)
        self.R, self.prog = R, prog
        f = prog.defs.get(self.name)
        if f is None:
            raise Vanished("no body for %s" % prog.dem(self.name))
        self.fn = f
        self.dem = prog.dem(self.name)
        if self.name == "factory":          # C linkage: no argument types in the name
            self.dem = "factory(libube::Module**, libube::var)"
        pol = (policy or FunctorPolicy)(prog, cls)
        pol.unwind = unwind
        self.pol = pol
        E = self.E = Engine(prog, pol)
        st = new_state(Facts(nn=pol.nonneg))
        args = []
        self.vars = []           # content of each formal (None for scalars)
        params = list(f.params)
        sig = sig_args(self.dem)
        self.sret = None
        k0 = 0
        if f.sret:
            self.sret = mk("arg", "ret")
            self.sret.ptr = True
            args.append(self.sret)
            k0 = 1
        self.method = len(params) - (1 if f.sret else 0) > nparams(sig)
        if self.method:
            args.append(arg(0))
        self.formals = []
        for i, s in enumerate(sig):
            if "libube::var" in s:
                a = arg(i + 1)
                args.append(a)
                self.formals.append(a)
                if s.strip().startswith("std::initializer_list"):
                    args.append(mk("iarg", "i%dn" % (i + 1)))      # its length
            else:
                a = iarg(i + 1)
                args.append(a)
                if s.strip().startswith("std::initializer_list"):
                    args.append(mk("iarg", "i%dn" % (i + 1)))      # its length
                elif s.strip() == "std::complex<double>":
                    args.append(mk("iarg", "i%dn" % (i + 1)))      # its imaginary part
                self.formals.append(a)
        c = []
        for i, s in enumerate(sig):
            if "libube::var" in s and not s.strip().startswith("std::initializer_list"):
                v = mk("v0", self.formals[i], ZERO)
                c.append(v)
            else:
                c.append(self.formals[i])
        if alias:
            for dst, src in alias.items():
                if c[src].op == "v0":
                    pol.setc(st, self.formals[dst], c[src])
                    c[dst] = c[src]
                else:
                    args[k0 + (1 if self.method else 0) + dst] = c[src]
                    c[dst] = c[src]
        self.c = c
        self.st = st
        self.args = args
        self.this = mk("v0", arg(0), ZERO)
        if prep:
            prep(self)
        if setup:
            for b in setup(self):
                nf = st.facts.assume(b)
                if nf is None:
                    raise AnalysisError("inconsistent entry state")
                st.facts = nf
        self.outs = E.run(f, args, st)
        R.saw(E)

    # facts about a formal
    def kind(self, i, ty, shape):
        """formal i holds: shape 'scalar' or 'array' of type ty"""
        v = self.c[i]
        fs = []
        A, T_, S = mk("m:atype", v, ZERO), mk("m:type", v, ZERO), mk("m:size", v, ZERO)
        fs.append(mk("bool", mk("m:defined", v, ZERO)))
        fs.append(eq(A, C(TAG[ty])))
        if shape == "scalar":
            fs.append(eq(T_, C(0 if ty == "cdouble" else TAG[ty])))
            fs.append(eq(S, ONE))
            fs.append(eq(mk("m:dim", v, ZERO), ONE))
            h = eq(mk("m:heap", v), ZERO)
            fs.append(NOT(h) if ty == "cdouble" else h)
        else:
            fs.append(eq(T_, ZERO))
            fs.append(NOT(eq(mk("m:heap", v), ZERO)))
            fs.append(le(ONE, mk("m:dim", v, ZERO)))
            if shape == "array2":
                fs.append(le(C(2), S))
        return fs

    def rets(self):
        return [o for o in self.outs if o.kind == "ret"]

    def throws(self):
        return [o for o in self.outs if o.kind == "unw"]


OKOPS = re.compile(r"^(c|f|v0|elem|kelem|nil|num|str|T|k|idx|m:|fn:|f(add|sub|mul|div|neg)|aff|xv|agg|cplx|arg|iarg|ld|cat|mul|"
                   r"wrap|sdiv|srem|ext|sext|zext|trunc|fpext|fptrunc|i2f|f2i|blas:|iv|alloca|new|eq|le|not|ver|b2i|bool|global|and|or|band|bor|xor)")


def clear(t, depth=0):
    """does the term consist of understood operations only?"""
    for x in subterms(t):
        if not OKOPS.match(x.op):
            return False
    return True


def norm(t, memo=None):
    """normal form for comparing element values"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    x = t
    args = [norm(a, memo) if isinstance(a, T) else a for a in t.a] if t.op not in ("aff",) else t.a
    if t.op == "aff":
        c, d = lin(t)
        x = C(c)
        for y, k in d.items():
            x = add(x, scale(norm(y, memo), k))
    else:
        x = mk(t.op, *args) if tuple(args) != t.a else t
    if x.op in ("agg", "cat") and len(x.a) in (2, 7):
        u, v = (x.a[0], x.a[1]) if x.op == "agg" else (x.a[3], x.a[6])
        if u.op == "xv" and v.op == "xv" and u.a[0] is v.a[0] and u.a[1] == 0 and v.a[1] == 1:
            x = u.a[0]
        elif u.op == "ext" and v.op == "ext" and u.a[0] is v.a[0] and u.a[1] == 0 and u.a[2] == v.a[1] == v.a[2]:
            x = u.a[0]
        elif u.op == "f" and v.op == "f" and v.a[0] == 0.0:
            x = u
    if x.op in ("fpext", "fptrunc"):
        pass
    if x.op == "trunc8" and isinstance(x.a[0], T):
        # arithmetic modulo 256: extensions inside do not matter
        x = mk("trunc8", strip_ext(x.a[0]))
    memo[t] = x
    return x


def strip_ext(t):
    if t.op in ("sext8", "zext8"):
        return t.a[0]
    if t.op == "aff":
        c, d = lin(t)
        r = C(c)
        for x, k in d.items():
            r = add(r, scale(strip_ext(x), k))
        return r
    if t.op == "mul":
        return mul(strip_ext(t.a[0]), strip_ext(t.a[1]))
    return t


def writes(run, o):
    """[(target, type, value)] element writes of one outcome in memory, and the
    assignments made through var operations, unordered"""
    res = []
    for b, cells in o.st.mem.items():
        if b.op == "m:ptr":
            ty = b.a[1].a[0]
            pieces = sorted(((off, z, v) for off, (z, v) in cells.items()), key=lambda p: (p[0].op != "c", p[0].a if p[0].op == "c" else 0))
            if ty in ("cdouble", "cfloat") and len(pieces) == 2:
                val = mk("agg", pieces[0][2], pieces[1][2])
                res.append((b, pieces[0][0], ty, norm(val), pieces[0][1] + pieces[1][1]))
            else:
                for off, z, v in pieces:
                    res.append((b, off, ty, norm(v), z))
    return res


def assigns(events):
    return [e for e in walk(events) if e.kind == "var" and e.name in ("assign", "assign_elem")]


class HeaderPolicy(FunctorPolicy):
    """as FunctorPolicy, but the inline operators of var are looked into"""
    def inline_header(self, meth):
        return FunctorPolicy.inline_header(self, meth) or bool(re.match(r"operator[-+*/]=?$", meth))
