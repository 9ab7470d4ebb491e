"""Abstract interpreter over LLVM IR.

Abstract state = (SSA environment, symbolic memory, known facts, rule-specific
auxiliary map, ordered effect summary).  Branches partition the state by the
branch condition (bounded trace partitioning, joined beyond a cap); loops are
solved by a fixpoint: every location changed by the body is replaced by an
induction symbol, candidate invariants are dropped until inductive, and the
body's effects are summarised once for an arbitrary iteration.  Calls to
functions of the analysed program are inlined unless the policy models them.
No constraint solver and no execution is involved."""
import re
from terms import *
from ir import AnalysisError, Program, short

CAP = 40
MAXOUT = 60


class Ev:
    """an effect"""
    __slots__ = ("kind", "name", "args", "res", "ins", "facts", "ctx", "x", "st")

    def __init__(self, kind, name, args=(), res=None, ins=None, facts=None, x=None, st=None):
        self.kind, self.name, self.args, self.res = kind, name, args, res
        self.ins, self.facts, self.x, self.st = ins, facts, x, st

    def loc(self):
        if self.ins is None:
            return ("?", 0)
        return self.ins.fn.loc(self.ins.dbg)

    def where(self):
        f, l = self.loc()
        return "%s:%d" % (f, l)

    def __repr__(self):
        return "%s %s(%s)%s @%s" % (self.kind, self.name, ", ".join(show(a) for a in self.args),
                                    " -> %s" % show(self.res) if self.res is not None else "",
                                    self.where().split("/")[-1])


class Loop:
    """summary of a loop: ivs: {iv term: (init, [next...])}; bodies: list of
    (facts, events) for one arbitrary iteration reaching the back edge"""
    __slots__ = ("header", "ivs", "bodies", "facts", "ins", "kind", "hfacts")

    def __repr__(self):
        return "LOOP@%s ivs={%s} bodies=%s" % (self.where(),
            ", ".join("%s:%s->%s" % (show(k), show(v[0]), [show(x) for x in v[1]]) for k, v in self.ivs.items()),
            [b[1] for b in self.bodies])

    def where(self):
        f, l = self.ins.fn.loc(self.ins.dbg)
        return "%s:%d" % (f, l)


class State:
    __slots__ = ("env", "mem", "ver", "facts", "aux", "trace")

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.facts = self.facts
        s.aux = dict(self.aux)
        s.trace = self.trace
        return s

    def events(self, upto=None):
        r = []
        t = self.trace
        while t is not None and t is not upto:
            r.append(t[0])
            t = t[1]
        r.reverse()
        return r

    def emit(self, ev):
        self.trace = (ev, self.trace)


def new_state(facts=None):
    s = State()
    s.env, s.mem, s.ver, s.aux, s.trace = {}, {}, {}, {}, None
    s.facts = facts or Facts()
    return s


class Outcome:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        return self.st.events()


# ---------------------------------------------------------------- CFG helpers

class CFG:
    def __init__(self, fn):
        self.fn = fn
        bl = fn.blocks
        self.entry = fn.order[0]
        self.succ = {}
        for b in fn.order:
            t = bl[b][-1]
            s = []
            if t.op == "br":
                s = [fn.lab(x) for x in (t.args if len(t.args) == 1 else t.args[1:])]
            elif t.op == "switch":
                s = [fn.lab(t.args[1])] + [fn.lab(x) for _, x in t.args[2]]
            elif t.op == "invoke":
                s = [fn.lab(t.x["normal"]), fn.lab(t.x["unwind"])]
            self.succ[b] = s
        # DFS
        self.rpo = {}
        post = []
        seen = {self.entry}
        stack = [(self.entry, iter(self.succ[self.entry]))]
        onst = {self.entry}
        back = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onst:
                    back.append((b, s))
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                onst.discard(b)
                stack.pop()
        for i, b in enumerate(reversed(post)):
            self.rpo[b] = i
        pred = {}
        for b in seen:
            for s in self.succ[b]:
                pred.setdefault(s, []).append(b)
        self.pred = pred
        self.loops = {}
        for latch, h in back:
            body = self.loops.setdefault(h, {h})
            work = [latch]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(pred.get(x, ()))
        self.phis = {b: [i for i in bl[b] if i.op == "phi"] for b in seen}


_cfgs = {}


def cfg(fn):
    k = id(fn)
    if k not in _cfgs:
        _cfgs[k] = (CFG(fn), fn)
    return _cfgs[k][0]


# ---------------------------------------------------------------- policy base

NOTHROW = re.compile(r"^(operator delete|__cxa_(begin|end)_catch|strlen|strcmp|memcmp|strchr|free|malloc|isspace|toupper|tolower|abs|std::terminate)")


class Policy:
    max_depth = 14
    exact = False         # arithmetic on values (as opposed to indices) wraps
    inline_pat = None     # regex on demangled names; None = everything defined
    noinline_pat = None

    def __init__(self, prog):
        self.prog = prog

    def inline(self, name, dem):
        s = short(dem)
        if self.noinline_pat and re.match(self.noinline_pat, s):
            return False
        if self.inline_pat and not re.match(self.inline_pat, s):
            return False
        return True

    def call(self, E, st, ins, name, dem, args):
        return None

    def vcall(self, E, st, ins, cls, slot, args):
        """virtual call on static class cls; return list of outcomes, or a
        function name to call, or None (unknown)"""
        return None

    def may_unwind(self, name, dem, ins):
        return False

    def clobbers(self, name, dem, ins, args):
        """bases whose contents an unmodelled call may change"""
        return [a for a in args]

    def nonneg(self, t):
        return False

    def on_load(self, E, st, ins, addr, size, val):
        pass

    def on_store(self, E, st, ins, addr, size, val):
        pass

    def may_alias(self, b1, b2):
        return False

    def separate(self, a, b):
        """are these surely different addresses?"""
        return False

    def widen_aux(self, key, old, new, ctx):
        return mk("ivx", ctx, str(key)) if old != new else old

    def join_aux(self, key, vals, ctx):
        return vals[0] if all(v == vals[0] for v in vals) else mk("ivx", ctx, "j" + str(key))


class TooComplex(AnalysisError):
    pass


class Engine:
    def __init__(self, prog, policy, budget=400000):
        self.prog, self.pol = prog, policy
        self.ctxs = {}
        self.vt = {}          # vtable pointer term -> class
        self.steps = 0
        self.budget = getattr(policy, "budget", budget)
        self.cap = getattr(policy, "cap", CAP)
        self.maxout = getattr(policy, "maxout", MAXOUT)
        self.stack = []
        self.fnseen = set()
        self.uid = 0
        self.warn = set()

    # ---------------------------------------------------------- contexts
    def ctx_of(self, parent, key):
        k = (parent, key)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
        return c

    # ---------------------------------------------------------- memory
    def split(self, addr):
        c, d = lin(addr)
        base = None
        for x, k in d.items():
            if k == 1 and x.ptr:
                if base is None or rank(x) > rank(base):
                    base = x
        if base is None:
            for x, k in d.items():
                if k == 1 and x.op in ("ld", "arg", "call", "iv", "ivm", "undef"):
                    base = x
                    break
        if base is None:
            return mk("abs"), addr
        return base, sub(addr, base)

    def load(self, st, addr, size, ptr=False):
        if addr.op == "ite":
            a = self.load(st, addr.a[1], size, ptr)
            b = self.load(st, addr.a[2], size, ptr)
            return a if a is b else mk("ite", addr.a[0], a, b)
        base, off = self.split(addr)
        v = self._load(st, base, off, size)
        if ptr and v.op not in ("c",):
            v.ptr = True
        return v

    def _load(self, st, base, off, size):
        cells = st.mem.get(base)
        if cells:
            c = cells.get(off)
            if c is not None:
                if c[0] == size:
                    return c[1]
                if c[0] > size:
                    return self.extract(c[1], 0, size)
            # containing cell
            for o, (s, v) in cells.items():
                d = sub(off, o)
                if is_c(d):
                    k = d.a[0]
                    if 0 <= k and k + size <= s:
                        return self.extract(v, k, size)
            # pieces
            pieces = []
            for o, (s, v) in cells.items():
                d = sub(o, off)
                if is_c(d) and 0 <= d.a[0] < size:
                    pieces.append((d.a[0], s, v))
                elif not is_c(d) and s and self.maybe_same(st, d):
                    # an entry at an unrelated offset may overlap
                    return self.init(st, base, off, size, mixed=True)
            if pieces:
                pieces.sort(key=lambda p: p[0])
                full = []
                pos = 0
                for o, s, v in pieces:
                    if o < pos or o + s > size:
                        return mk("mix", base, off, size, *[x for p in pieces for x in (C(p[0]), p[2])])
                    if o > pos:
                        full.append((pos, o - pos, self.init(st, base, add(off, C(pos)), o - pos)))
                    full.append((o, s, v))
                    pos = o + s
                if pos < size:
                    full.append((pos, size - pos, self.init(st, base, add(off, C(pos)), size - pos)))
                return self.cat(full, size)
        return self.init(st, base, off, size)

    def maybe_same(self, st, d):
        """may the symbolic offset difference d be zero?"""
        return st.facts.decide(eq(d, ZERO)) is not False

    def cat(self, pieces, size):
        flat = []
        for o, s, v in pieces:
            flat += [C(o), C(s), v]
        # recombine a split load
        if all(v.op == "ld" for _, _, v in pieces):
            b0 = pieces[0][2]
            if all(v.a[0] is b0.a[0] and v.a[3] == b0.a[3] and
                   sub(v.a[1], b0.a[1]) is C(o) and v.a[2] == s for o, s, v in pieces):
                return mk("ld", b0.a[0], b0.a[1], size, b0.a[3])
        return mk("cat", C(size), *flat)

    def extract(self, v, off, size):
        if v.op == "cat":
            for i in range(1, len(v.a), 3):
                o, s, x = v.a[i].a[0], v.a[i + 1].a[0], v.a[i + 2]
                if o == off and s == size:
                    return x
                if o <= off and off + size <= o + s:
                    return self.extract(x, off - o, size)
        if v.op == "ld":
            return mk("ld", v.a[0], add(v.a[1], C(off)), size, v.a[3])
        if v.op == "c" and v.a[0] == 0:
            return ZERO
        if v.op == "undef":
            return UNDEF
        if v.op == "c" and off == 0:
            return C(v.a[0] & ((1 << 8 * size) - 1))
        if v.op == "ite":
            return mk("ite", v.a[0], self.extract(v.a[1], off, size), self.extract(v.a[2], off, size))
        if off == 0 and v.op == "ext" and v.a[1] == 0:
            return mk("ext", v.a[0], 0, size)
        return mk("ext", v, off, size)

    def init(self, st, base, off, size, mixed=False):
        ver = st.ver.get(base)
        if ver is None:
            g = st.ver.get("*")
            if g is not None and base.op not in ("alloca",):
                ver = g
        if base.op in ("alloca", "new") and ver is None and not mixed:
            return UNDEF if base.op == "alloca" else mk("ld", base, off, size, ZERO)
        if base.op == "global" and ver is None:
            v = self.const_global(base, off, size)
            if v is not None:
                return v
        if mixed:
            self.uid += 1
            return mk("ld", base, off, size, mk("mixv", self.uid))
        return mk("ld", base, off, size, ver if ver is not None else ZERO)

    def const_global(self, base, off, size):
        if not is_c(off):
            return None
        name = base.a[0]
        for m in self.prog.mods:
            s = m.cstring(name)
            if s is not None:
                k = off.a[0]
                if size == 1 and 0 <= k < max(len(s), 1):
                    return C(s[k] if s else 0)
                return None
            g = m.globals.get(name)
            if g is not None:
                mm = re.search(r"\bconstant (i\d+|double|float) (\S+?),", g)
                if mm and off is ZERO:
                    t = mm.group(1)
                    if t[0] == "i":
                        return C(int(mm.group(2)) if mm.group(2).lstrip("-").isdigit() else {"true": 1, "false": 0}[mm.group(2)])
                    from ir import parse_fp
                    return mk("f", parse_fp(mm.group(2)))
                mm = re.search(r"\bconstant ((?:%|\[|\{|<).*)$", g)
                if mm:
                    try:
                        t, v = m.typed(mm.group(1).rsplit(", align", 1)[0].split(", comdat")[0])
                        return self.agg_const(m, t, v, off.a[0], size)
                    except Exception:
                        return None
        return None

    def agg_const(self, m, t, v, off, size):
        t = m.types.resolve(t)
        if v[0] == "zero":
            return ZERO
        if isinstance(t, str) or t[0] == "vec":
            if off == 0 and m.types.size(t) == size:
                if v[0] == "int":
                    return C(v[1])
                if v[0] == "fp":
                    return mk("f", v[1])
                if v[0] == "global":
                    x = mk("global", v[1])
                    x.ptr = True
                    return x
            return None
        if v[0] != "agg":
            return None
        if t[0] == "arr":
            es = m.types.size(t[2])
            k = off // es
            if 0 <= k < len(v[1]):
                return self.agg_const(m, v[1][k][0], v[1][k][1], off - k * es, size)
        if t[0] in ("struct", "packed"):
            for k in range(len(t[1])):
                o, e = m.types.field(t, k)
                if o <= off < o + m.types.size(e):
                    return self.agg_const(m, v[1][k][0], v[1][k][1], off - o, size)
        return None

    def store(self, st, addr, size, val):
        if addr.op == "ite":
            # weak update of both
            for a in addr.a[1:]:
                old = self.load(st, a, size)
                self.store(st, a, size, mk("ite", mk("bool", addr, a), val, old))
            return
        base, off = self.split(addr)
        cells = dict(st.mem.get(base, ()))
        for o in list(cells):
            if o is off:
                if cells[o][0] > size:
                    s, v = cells[o]
                    cells[add(off, C(size))] = (s - size, self.extract(v, size, s - size))
                del cells[o]
                continue
            d = sub(off, o)
            if is_c(d):
                k = d.a[0]
                s, v = cells[o]
                if k + size <= 0 or k >= s:
                    continue
                del cells[o]
                if k > 0:
                    cells[o] = (k, self.extract(v, 0, k))
                if k + size < s:
                    cells[add(off, C(size))] = (s - k - size, self.extract(v, k + size, s - k - size))
            elif self.maybe_same(st, d):
                self.uid += 1
                # unknown overlap: forget the old entry
                del cells[o]
                cells[o] = (cells_size(size), mk("wk", self.uid))
        cells[off] = (size, val)
        st.mem[base] = cells
        for b in list(st.mem):
            if b is not base and self.pol.may_alias(base, b):
                self.uid += 1
                del st.mem[b]
                st.ver[b] = mk("wkv", self.uid)

    def clobber(self, st, base, tag=None):
        self.uid += 1
        if base in st.mem:
            del st.mem[base]
        st.ver[base] = tag if tag is not None else mk("clob", self.uid)

    def clobber_all(self, st, keep=lambda b: b.op == "alloca", tag=None):
        self.uid += 1
        v = tag if tag is not None else mk("clob", self.uid)
        for b in list(st.mem):
            if not keep(b):
                del st.mem[b]
        for b in list(st.ver):
            if b == "*" or not keep(b):
                del st.ver[b]
        st.ver["*"] = v

    # typed load/store with aggregates
    def load_ty(self, m, st, addr, ty):
        t = m.types.resolve(ty)
        if isinstance(t, tuple) and t[0] in ("struct", "arr"):
            n = len(t[1]) if t[0] == "struct" else t[1]
            vals = []
            for k in range(n):
                if t[0] == "struct":
                    o, e = m.types.field(t, k)
                else:
                    o, e = k * m.types.size(t[2]), t[2]
                vals.append(self.load_ty(m, st, add(addr, C(o)), e))
            return mk("agg", *vals)
        return self.load(st, addr, m.types.size(t), t == "ptr")

    def store_ty(self, m, st, addr, ty, val):
        t = m.types.resolve(ty)
        if isinstance(t, tuple) and t[0] in ("struct", "arr"):
            n = len(t[1]) if t[0] == "struct" else t[1]
            for k in range(n):
                if t[0] == "struct":
                    o, e = m.types.field(t, k)
                else:
                    o, e = k * m.types.size(t[2]), t[2]
                x = val.a[k] if val.op == "agg" else mk("xv", val, k)
                self.store_ty(m, st, add(addr, C(o)), e, x)
            return
        self.store(st, addr, m.types.size(t), val)

    # ---------------------------------------------------------- operands
    def val(self, st, m, op, ty=None):
        k = op[0]
        if k == "reg":
            v = st.env.get(op[1])
            if v is None:
                return UNDEF
            return v
        if k == "int":
            return C(op[1])
        if k == "fp":
            return mk("f", op[1])
        if k == "global":
            n = op[1]
            if n in m.aliases:
                n = m.aliases[n]
            t = mk("global", n)
            t.ptr = True
            return t
        if k == "gep":
            return self.gep(st, m, op[1], op[2])
        if k == "undef":
            return UNDEF
        if k == "zero":
            t = m.types.resolve(ty) if ty else None
            if isinstance(t, tuple) and t[0] in ("struct", "arr"):
                n = len(t[1]) if t[0] == "struct" else t[1]
                return mk("agg", *[ZERO] * n)
            if t in ("float", "double"):
                return mk("f", 0.0)
            return ZERO
        if k == "agg":
            t = m.types.resolve(ty) if ty else None
            vals = [self.val(st, m, v, t2) for t2, v in op[1]]
            if isinstance(t, tuple) and t[0] == "vec":
                es = m.types.size(t[2])
                return self.cat([(i * es, es, v) for i, v in enumerate(vals)], es * len(vals))
            return mk("agg", *vals)
        return mk("opq", str(op))

    def gep(self, st, m, ty, ops):
        addr = self.val(st, m, ops[0][1])
        t = ty
        first = True
        for ity, iop in ops[1:]:
            i = self.val(st, m, iop)
            if first:
                addr = add(addr, mul(i, C(m.types.size(t))))
                first = False
                continue
            t = m.types.resolve(t)
            if t[0] in ("struct", "packed"):
                o, t = m.types.field(t, i.a[0])
                addr = add(addr, C(o))
            else:
                t = t[2]
                addr = add(addr, mul(i, C(m.types.size(t))))
        return addr

    # ---------------------------------------------------------- running
    def run(self, fn, args, st=None):
        """analyse fn from an abstract entry state; list of Outcomes"""
        st = st or new_state(Facts(nn=self.pol.nonneg))
        if st.facts.nn is None:
            st.facts = Facts(st.facts.les, st.facts.atoms, st.facts.eqs, self.pol.nonneg)
        return self.exec_fn(fn, args, st, 0)

    def exec_fn(self, fn, args, st, ctx):
        if len(self.stack) >= self.pol.max_depth:
            raise TooComplex("inlining depth exceeded in %s" % self.prog.dem(fn.name))
        self.fnseen.add(fn.name)
        saved = st.env
        s = st.copy()
        s.env = {}
        names = [p[1] for p in fn.params]
        for k, (t, n) in enumerate(fn.params):
            if n is None:
                n = "%%%d" % k
            if k < len(args):
                s.env[n] = args[k]
        self.stack.append(fn.name)
        try:
            outs = []
            c = cfg(fn)
            exits, backs = self.region(fn, c, set(c.rpo), c.entry, [(None, s)], None, ctx, outs)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            o.st.env = saved
            # drop this frame's allocas
            res.append(o)
        rets = [o for o in res if o.kind == "ret"]
        if len(rets) > self.maxout:
            rest = [o for o in res if o.kind != "ret"]
            j = self.join([o.st for o in rets], ctx, "ret")
            vals = set(o.val for o in rets)
            v = rets[0].val if len(vals) == 1 else mk("jv", ctx, fn.name)
            res = rest + [Outcome("ret", v, j)]
        return res

    def join(self, sts, ctx, key):
        if len(sts) == 1:
            return sts[0]
        self.warn.add("join@%s" % (self.stack[-1] if self.stack else "?"))
        r = State()
        r.env = {}
        for k in sts[0].env:
            v = sts[0].env[k]
            if all(s.env.get(k) is v for s in sts[1:]):
                r.env[k] = v
            elif all(k in s.env for s in sts):
                r.env[k] = mk("j", ctx, key, k)
                r.env[k].ptr = any(s.env[k].ptr for s in sts)
        r.mem = {}
        r.ver = {}
        for b in sts[0].ver:
            if all(s.ver.get(b) is sts[0].ver[b] for s in sts):
                r.ver[b] = sts[0].ver[b]
        diffv = set()
        for s in sts:
            for b in s.ver:
                if b not in r.ver:
                    diffv.add(b)
        for b in diffv:
            r.ver[b] = mk("jver", ctx, key, b if isinstance(b, T) else 0)
        bases = set()
        for s in sts:
            bases.update(s.mem)
        for b in bases:
            if b in diffv:
                continue
            cells = {}
            offs = {}
            for s in sts:
                for o, (sz, v) in s.mem.get(b, {}).items():
                    offs.setdefault(o, sz)
            for o, sz in offs.items():
                vs = [self._load(s, b, o, sz) for s in sts]
                v = vs[0] if all(x is vs[0] for x in vs) else mk("jm", ctx, key, b, o)
                if any(x.ptr for x in vs):
                    v.ptr = True
                cells[o] = (sz, v)
            r.mem[b] = cells
        r.facts = Facts.meet_common([s.facts for s in sts])
        r.aux = {}
        keys = set()
        for s in sts:
            keys.update(s.aux)
        for k in keys:
            vals = [s.aux.get(k) for s in sts]
            r.aux[k] = self.pol.join_aux(k, vals, ctx)
        # traces: common suffix of the persistent list (i.e. common prefix)
        ids = None
        for s in sts:
            l = []
            t = s.trace
            while t is not None:
                l.append(id(t))
                t = t[1]
            ids = set(l) if ids is None else ids & set(l)
        t = sts[0].trace
        while t is not None and id(t) not in ids:
            t = t[1]
        alts = []
        for s in sts:
            alts.append((s.facts, s.events(t)))
        r.trace = t
        if any(a[1] for a in alts):
            r.trace = (Ev("JOIN", "alt", x=alts), t)
        return r

    def region(self, fn, c, blocks, entry, incoming, header, ctx, outs):
        """run the acyclic part of a region; header: the loop header whose back
        edges end this region.  Returns (exits, backs)"""
        pending = {entry: list(incoming)}
        exits, backs = [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: c.rpo[x])
            ins = pending.pop(b)
            if b in c.loops and not (first and b == header):
                ex = self.loop(fn, c, b, ins, ctx, outs)
                edges = ex
            else:
                edges = []
                sts = self.enter(fn, c, b, ins, ctx) if not (first and b == header) else [s for _, s in ins]
                for s in sts:
                    edges += self.block(fn, c, b, s, ctx, outs)
            first = False
            for (src, dst, s) in edges:
                if header is not None and dst == header:
                    backs.append((src, s))
                elif dst not in blocks:
                    exits.append((src, dst, s))
                else:
                    pending.setdefault(dst, []).append((src, s))
        return exits, backs

    def enter(self, fn, c, b, ins, ctx):
        sts = []
        for pred, s in ins:
            self.phis(fn, c, b, pred, s)
            sts.append(s)
        if len(sts) > self.cap:
            sts = [self.join(sts, self.ctx_of(ctx, ("J", fn.name, b)), "b")]
        elif len(sts) > 1:
            # merge states which are indistinguishable
            seen = {}
            for s in sts:
                k = (id(s.trace), s.facts.key() if True else 0,
                     tuple(sorted((k, v.id) for k, v in s.env.items())),
                     tuple(sorted((bb.id, tuple(sorted((o.id, z[0], z[1].id) for o, z in cl.items()))) for bb, cl in s.mem.items())),
                     tuple(sorted((str(k), v.id) for k, v in s.ver.items())),
                     repr(sorted((str(k), str(v)) for k, v in s.aux.items())))
                seen.setdefault(k, s)
            sts = list(seen.values())
        return sts

    def phis(self, fn, c, b, pred, s):
        ph = c.phis[b]
        if not ph or pred is None:
            return
        vals = []
        for i in ph:
            v = None
            for op, lab in i.args:
                if fn.lab(lab) == pred:
                    v = self.val(s, fn.mod, op, i.ty)
                    break
            if v is None:
                v = UNDEF
            vals.append((i.dest, v))
        for d, v in vals:
            s.env[d] = v

    # ---------------------------------------------------------- loops
    def loop(self, fn, c, h, incoming, ctx, outs):
        res = []
        sts = []
        for pred, s in incoming:
            self.phis(fn, c, h, pred, s)
            sts.append(s)
        lctx = self.ctx_of(ctx, ("L", fn.name, h))
        if len(sts) > 24:
            sts = [self.join(sts, lctx, "h")]
        for s in sts:
            res += self.loop1(fn, c, h, s, ctx, lctx, outs)
        return res

    def loop1(self, fn, c, h, s0, ctx, lctx, outs):
        body = c.loops[h]
        phis = [i.dest for i in c.phis[h]]
        ptys = {i.dest: i.ty for i in c.phis[h]}
        hav = {}       # phi -> iv term
        hmem = {}      # (base, off, size) -> iv term
        hver = {}      # base -> version term
        haux = {}
        cand = None
        # the loop body never runs symbolically with concrete values: iterate to
        # a fixpoint of the set of changed locations, then of the invariants
        def header_state(facts_extra):
            s = s0.copy()
            for p, t in hav.items():
                s.env[p] = t
            for b, t in hver.items():
                if b != "*":
                    s.mem.pop(b, None)
                else:
                    for bb in list(s.mem):
                        if bb.op != "alloca":
                            del s.mem[bb]
                    for bb in list(s.ver):
                        if bb == "*" or bb.op != "alloca":
                            del s.ver[bb]
                s.ver[b] = t
            for (b, o, z), t in hmem.items():
                if b in hver:
                    continue
                cells = dict(s.mem.get(b, ()))
                # drop overlapping entries
                for oo in list(cells):
                    d = sub(oo, o)
                    if is_c(d) and -cells[oo][0] < d.a[0] < z and oo is not o:
                        del cells[oo]
                cells[o] = (z, t)
                s.mem[b] = cells
            for k, v in haux.items():
                s.aux[k] = v
            s.trace = None
            for f in facts_extra:
                nf = s.facts.assume(f)
                if nf is None:
                    continue
                s.facts = nf
            return s

        def run_body(s):
            o = []
            ex, bk = self.region(fn, c, body, h, [(None, s)], h, ctx, o)
            bks = []
            for pred, b in bk:
                self.phis(fn, c, h, pred, b)
                bks.append(b)
            return ex, bks, o

        for it in range(8):
            ex, bk, o = run_body(header_state([]))
            changed = False
            hs = header_state([])
            for b in bk:
                for p in phis:
                    if p not in hav and b.env.get(p) is not hs.env.get(p):
                        t = mk("iv", lctx, p)
                        t.ptr = ptys[p] == "ptr"
                        hav[p] = t
                        changed = True
                for base, v in b.ver.items():
                    if hs.ver.get(base) is not v and base not in hver:
                        hver[base] = mk("ivv", lctx, base if isinstance(base, T) else 0)
                        changed = True
                for base in set(b.mem) | set(hs.mem):
                    if base in hver:
                        continue
                    bc = b.mem.get(base, {})
                    hc = hs.mem.get(base, {})
                    if bc is hc:
                        continue
                    for off in set(bc) | set(hc):
                        x, y = bc.get(off), hc.get(off)
                        if x == y:
                            continue
                        if x is not None and y is not None and x[1] is y[1]:
                            continue
                        z = (x or y)[0]
                        if x is None:
                            # forgotten at the back edge
                            if (base, off, z) not in hmem:
                                t = mk("ivm", lctx, base, off, z)
                                hmem[(base, off, z)] = t
                                changed = True
                            continue
                        if y is None and x[1] is self.init(hs, base, off, z):
                            continue
                        if depends_iv(off, hav, lctx):
                            if base not in hver:
                                hver[base] = mk("ivv", lctx, base)
                                changed = True
                            continue
                        if (base, off, z) not in hmem:
                            if base.op == "alloca" and y is None:
                                # a body-local variable: only matters if read before written
                                pass
                            t = mk("ivm", lctx, base, off, z)
                            t.ptr = x[1].ptr or (y is not None and y[1].ptr)
                            hmem[(base, off, z)] = t
                            changed = True
                for k in set(b.aux) | set(hs.aux):
                    if b.aux.get(k) != hs.aux.get(k):
                        w = self.pol.widen_aux(k, hs.aux.get(k), b.aux.get(k), lctx)
                        if haux.get(k) != w or k not in haux:
                            if w != hs.aux.get(k):
                                haux[k] = w
                                changed = True
            if not changed:
                break
        else:
            # force: havoc all memory
            hver["*"] = mk("ivv", lctx, 0)

        # induction relations and candidate invariants
        ivs = {}
        for p, t in hav.items():
            ivs[t] = (s0.env.get(p, UNDEF), p, None)
        for (b, o, z), t in hmem.items():
            if b in hver:
                continue
            v0 = self._load(s0, b, o, z)
            ivs[t] = (v0, None, (b, o, z))

        def nexts(t, b):
            init, p, m = ivs[t]
            return b.env.get(p, UNDEF) if p is not None else self._load(b, *m)

        cands = []
        if ivs and bk:
            ints = [t for t in ivs if ivs[t][0] is not UNDEF]
            for t in ints:
                i0 = ivs[t][0]
                if i0.op in ("f",):
                    continue
                cands += [le(i0, t), le(t, i0)]
                ns = [nexts(t, b) for b in bk]
                for b, n in zip(bk, ns):
                    step = sub(n, t)
                    if is_c(step):
                        for f in b.facts.les:
                            if f in s0.facts.les:
                                continue
                            k = lin(f)[1].get(t)
                            if k:
                                cands.append(le0(add(f, C(-k * step.a[0]))))
            for t in ints:
                for u in ints:
                    if t is not u and t.ptr == u.ptr:
                        cands.append(le(t, u))
                        # same step
                        a = [sub(nexts(t, b), t) for b in bk]
                        bb = [sub(nexts(u, b), u) for b in bk]
                        if t.id < u.id and all(is_c(x) for x in a + bb) and all(x.a[0] for x in a) :
                            k1, k2 = a[0].a[0], bb[0].a[0]
                            if all(x.a[0] * k2 == y.a[0] * k1 for x, y in zip(a, bb)):
                                cands.append(eq(scale(sub(t, ivs[t][0]), k2), scale(sub(u, ivs[u][0]), k1)))
                for f in s0.facts.les:
                    pass
            # bounds used in the loop's own conditions
            for t in ints:
                for u in ints:
                    if t is not u:
                        i0 = ivs[u][0]
                        cands.append(le(t, i0))
                        cands.append(le(i0, t))
        # keep those that hold on entry
        cands = list(dict.fromkeys(x for x in cands if x not in (TRUE, FALSE)))
        m0 = {t: ivs[t][0] for t in ivs}
        cands = [x for x in cands if s0.facts.decide(subst(x, m0)) is True]
        for it in range(6):
            if not cands:
                break
            ex, bk, o = run_body(header_state(cands))
            keep = []
            for x in cands:
                ok = True
                for b in bk:
                    mb = {t: nexts(t, b) for t in ivs}
                    if b.facts.decide(subst(x, mb)) is not True:
                        ok = False
                        break
                if ok:
                    keep.append(x)
            if len(keep) == len(cands):
                break
            cands = keep
        hs = header_state(cands)
        ex, bk, o = run_body(hs)
        L = Loop()
        L.header = (fn.name, h)
        L.kind = "loop"
        L.ins = fn.blocks[h][-1]
        L.ivs = {t: (ivs[t][0], [nexts(t, b) for b in bk]) for t in ivs}
        L.bodies = [(b.facts, b.events()) for b in bk]
        L.facts = s0.facts
        L.hfacts = hs.facts

        def prefix(s):
            evs = s.events()
            s.trace = (L, s0.trace)
            for e in evs:
                s.trace = (e, s.trace)
        for (src, dst, s) in ex:
            prefix(s)
        for oo in o:
            prefix(oo.st)
            outs.append(oo)
        return ex

    # ---------------------------------------------------------- blocks
    def block(self, fn, c, b, s, ctx, outs):
        work = [(s, 0)]
        edges = []
        instrs = fn.blocks[b]
        m = fn.mod
        while work:
            st, i = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget:
                    raise TooComplex("analysis budget exceeded in %s" % self.prog.dem(fn.name))
                ins = instrs[i]
                op = ins.op
                if op == "phi":
                    i += 1
                    continue
                if op in ("call", "invoke"):
                    r = self.do_call(fn, st, ins, ctx)
                    rets = []
                    for oc in r:
                        if oc.kind == "ret":
                            if ins.dest:
                                oc.st.env = dict(oc.st.env)
                                v = oc.val if oc.val is not None else UNDEF
                                if ins.ty == "ptr" and v.op != "c":
                                    v.ptr = True
                                oc.st.env[ins.dest] = v
                            if op == "invoke":
                                edges.append((b, fn.lab(ins.x["normal"]), oc.st))
                            else:
                                rets.append(oc.st)
                        elif oc.kind == "unw":
                            if op == "invoke":
                                oc.st.env = dict(oc.st.env)
                                oc.st.env["!exc"] = oc.val
                                edges.append((b, fn.lab(ins.x["unwind"]), oc.st))
                            else:
                                outs.append(Outcome("unw", oc.val, oc.st))
                        else:
                            outs.append(oc)
                    if op == "invoke" or not rets:
                        break
                    if len(rets) > self.cap:
                        rets = [self.join(rets, self.ctx_of(ctx, ("JC", fn.name, ins.idx)), "c")]
                    st = rets[0]
                    for x in rets[1:]:
                        work.append((x, i + 1))
                    i += 1
                    continue
                if op == "br":
                    if len(ins.args) == 1:
                        edges.append((b, fn.lab(ins.args[0]), st))
                    else:
                        cond = self.asbool(self.val(st, m, ins.args[0]))
                        for cnd, lab in ((cond, ins.args[1]), (NOT(cond), ins.args[2])):
                            f = st.facts.assume(cnd)
                            if f is not None:
                                s2 = st.copy()
                                s2.facts = f
                                edges.append((b, fn.lab(lab), s2))
                    break
                if op == "switch":
                    v = self.val(st, m, ins.args[0])
                    f0 = st.facts
                    groups = {}
                    for k, lab in ins.args[2]:
                        cnd = eq(v, C(k))
                        f = st.facts.assume(cnd)
                        if f is not None:
                            s2 = st.copy()
                            s2.facts = f
                            edges.append((b, fn.lab(lab), s2))
                        if f0 is not None:
                            f0 = f0.assume(NOT(cnd))
                    if f0 is not None:
                        s2 = st.copy()
                        s2.facts = f0
                        edges.append((b, fn.lab(ins.args[1]), s2))
                    break
                if op == "ret":
                    v = self.val(st, m, ins.args[0], ins.ty) if ins.args else None
                    outs.append(Outcome("ret", v, st))
                    break
                if op == "resume":
                    e = self.val(st, m, ins.args[0])
                    ex = e.a[0] if e.op == "agg" else e
                    if ex.op == "excp":
                        ex = ex.a[0]
                    outs.append(Outcome("unw", ex, st))
                    break
                if op == "unreachable":
                    outs.append(Outcome("stop", None, st))
                    break
                if op == "select":
                    cond = self.asbool(self.val(st, m, ins.args[0]))
                    alts = []
                    for cnd, a in ((cond, ins.args[1]), (NOT(cond), ins.args[2])):
                        f = st.facts.assume(cnd)
                        if f is not None:
                            s2 = st.copy()
                            s2.facts = f
                            s2.env[ins.dest] = self.val(st, m, a, ins.ty)
                            alts.append(s2)
                    st = alts[0]
                    for x in alts[1:]:
                        work.append((x, i + 1))
                    i += 1
                    continue
                self.simple(fn, m, st, ins, ctx)
                i += 1
        return edges

    def asbool(self, v):
        if v.op == "c":
            return TRUE if v.a[0] else FALSE
        if v.op in BOOLS:
            return v
        return mk("bool", v)

    def simple(self, fn, m, st, ins, ctx):
        op = ins.op
        A = ins.args
        if op == "alloca":
            t = mk("alloca", ctx, fn.name, ins.dest)
            t.ptr = True
            st.env[ins.dest] = t
            if t in st.mem:
                st.mem = dict(st.mem)
                del st.mem[t]
            return
        if op == "load":
            a = self.val(st, m, A[0])
            v = self.load_ty(m, st, a, ins.ty)
            self.pol.on_load(self, st, ins, a, m.types.size(ins.ty), v)
            st.env[ins.dest] = v
            return
        if op == "store":
            v = self.val(st, m, A[0], ins.ty)
            a = self.val(st, m, A[1])
            if ins.ty == "i1":
                v = self.b2i(v)
            self.pol.on_store(self, st, ins, a, m.types.size(ins.ty), v)
            self.store_ty(m, st, a, ins.ty, v)
            return
        if op == "getelementptr":
            st.env[ins.dest] = self.gep(st, m, ins.ty, A)
            return
        if op == "icmp":
            st.env[ins.dest] = self.icmp(ins.x, self.val(st, m, A[0]), self.val(st, m, A[1]), st)
            return
        if op == "fcmp":
            a, b = self.val(st, m, A[0]), self.val(st, m, A[1])
            p = ins.x
            if p in ("ogt", "oge", "ugt", "uge"):
                p = p.replace("g", "l")
                a, b = b, a
            inv = False
            # unordered forms are the negation of the opposite ordered ones
            if p in ("ult", "ule", "une", "ueq"):
                inv = True
                p = {"ult": "ole", "ule": "olt", "une": "oeq", "ueq": "one"}[p]
                if p in ("ole", "olt"):
                    a, b = b, a
            t = mk("fcmp", p, a, b)
            st.env[ins.dest] = NOT(t) if inv else t
            return
        if op in ("add", "sub", "mul"):
            a, b = self.val(st, m, A[0]), self.val(st, m, A[1])
            a, b = self.b2i(a), self.b2i(b)
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
            if self.pol.exact and r.op != "c" and ins.ty in ("i32", "i64") and any(x.op == "m:get" for x in subterms(r)):
                r = mk("wrap" + ins.ty[1:], r)
            st.env[ins.dest] = r
            return
        if op == "xor":
            a, b = self.val(st, m, A[0]), self.val(st, m, A[1])
            if ins.ty == "i1":
                if b is TRUE or (b.op == "c" and b.a[0] in (1, -1)):
                    st.env[ins.dest] = NOT(self.asbool(a))
                    return
            if b.op == "c" and b.a[0] == -1:
                st.env[ins.dest] = sub(C(-1), a)
                return
            st.env[ins.dest] = mk("xor", *sorted((a, b), key=lambda t: t.id))
            return
        if op in ("and", "or"):
            a, b = self.val(st, m, A[0]), self.val(st, m, A[1])
            if a.op == "c" and b.op == "c":
                st.env[ins.dest] = C(a.a[0] & b.a[0] if op == "and" else a.a[0] | b.a[0])
                return
            if ins.ty == "i1":
                a, b = self.asbool(a), self.asbool(b)
            elif not (a.op in BOOLS and b.op in BOOLS):
                op = "b" + op               # of the bits of a number
            st.env[ins.dest] = mk(op, *sorted((a, b), key=lambda t: t.id))
            return
        if op in ("shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = self.val(st, m, A[0]), self.val(st, m, A[1])
            if a.op == "c" and b.op == "c" and a.a[0] >= 0 and b.a[0] >= 0:
                x, y = a.a[0], b.a[0]
                if op == "shl":
                    st.env[ins.dest] = C(x << y)
                    return
                if op in ("lshr", "ashr"):
                    st.env[ins.dest] = C(x >> y)
                    return
                if y:
                    st.env[ins.dest] = C(x // y if "div" in op else x % y)
                    return
            if op == "shl" and b.op == "c":
                st.env[ins.dest] = scale(a, 1 << b.a[0])
                return
            if op in ("sdiv",) and b.op == "c" and b.a[0] > 0:
                # exact division of an affine multiple
                c0, d0 = lin(a)
                if c0 % b.a[0] == 0 and all(k % b.a[0] == 0 for k in d0.values()):
                    st.env[ins.dest] = from_lin(c0 // b.a[0], {x: k // b.a[0] for x, k in d0.items()})
                    return
                q = mk("sdiv", a, b)
                # |q*b| <= |a|: for a >= 0: 0 <= b*q <= a < b*q + b
                if st.facts.entails_le(neg(a)):
                    f = st.facts
                    for cnd in (le(ZERO, q), le(scale(q, b.a[0]), a), lt(a, add(scale(q, b.a[0]), b))):
                        g = f.assume(cnd)
                        f = g if g is not None else f
                    st.facts = f
                st.env[ins.dest] = q
                return
            st.env[ins.dest] = mk(op, a, b)
            return
        if op in ("fadd", "fmul"):
            a, b = self.val(st, m, A[0]), self.val(st, m, A[1])
            st.env[ins.dest] = mk(op, *sorted((a, b), key=lambda t: t.id))
            return
        if op in ("fsub", "fdiv", "frem"):
            st.env[ins.dest] = mk(op, self.val(st, m, A[0]), self.val(st, m, A[1]))
            return
        if op == "fneg":
            st.env[ins.dest] = mk("fneg", self.val(st, m, A[0]))
            return
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            v = self.val(st, m, A[0])
            st.env[ins.dest] = self.intcast(op, v, ins.x, ins.ty)
            return
        if op in CASTF:
            v = self.val(st, m, A[0])
            st.env[ins.dest] = self.fcast(op, v, ins.x, ins.ty)
            return
        if op == "landingpad":
            e = st.env.get("!exc", mk("exc", "?"))
            # an exception this pad does not catch and that needs no cleanup still passes
            st.env[ins.dest] = mk("agg", mk("excp", e), mk("excs", e))
            st.aux = dict(st.aux)
            st.aux["!pad"] = tuple(ins.x)
            return
        if op == "extractvalue":
            v = self.val(st, m, A[0], ins.ty)
            for k in ins.x:
                v = v.a[k] if v.op == "agg" and k < len(v.a) else (UNDEF if v is UNDEF else mk("xv", v, k))
            st.env[ins.dest] = v
            return
        if op == "insertvalue":
            v = self.val(st, m, A[0], ins.ty)
            w = self.val(st, m, A[1])
            t = m.types.resolve(ins.ty)
            n = len(t[1]) if t[0] == "struct" else t[1]
            vals = list(v.a) if v.op == "agg" else [UNDEF] * n
            if len(ins.x) == 1:
                vals[ins.x[0]] = w
            st.env[ins.dest] = mk("agg", *vals)
            return
        if op == "extractelement":
            v, k = self.val(st, m, A[0]), self.val(st, m, A[1])
            t = m.types.resolve(ins.ty)
            es = m.types.size(t[2])
            st.env[ins.dest] = self.extract(v, k.a[0] * es, es) if is_c(k) else mk("xe", v, k)
            return
        if op == "insertelement":
            v, w, k = self.val(st, m, A[0]), self.val(st, m, A[1]), self.val(st, m, A[2])
            t = m.types.resolve(ins.ty)
            es = m.types.size(t[2])
            parts = []
            for j in range(t[1]):
                parts.append((j * es, es, w if C(j) is k else self.extract(v, j * es, es)))
            st.env[ins.dest] = self.cat(parts, es * t[1])
            return
        if op in ("shufflevector", "va_arg", "atomicrmw", "cmpxchg", "fence"):
            if ins.dest:
                self.uid += 1
                st.env[ins.dest] = mk("opq", op, ctx, ins.idx)
            return
        raise AnalysisError("unhandled instruction " + op)

    def b2i(self, v):
        if v.op in BOOLS:
            return mk("b2i", v)
        return v

    def icmp(self, p, a, b, st):
        a0, b0 = a, b
        if p in ("eq", "ne"):
            # booleans
            if b.op == "c" and a.op in BOOLS:
                t = a if b.a[0] else NOT(a)
                return t if p == "eq" else NOT(t)
            if a.op == "c" and b.op in BOOLS:
                return self.icmp(p, b, a, st)
            if a.op == "excs" and b.op == "typeid":
                e = a.a[0]
                r = None
                if e.op == "exc":
                    r = catches(b.a[0], e.a[0])
                t = TRUE if r is True else FALSE if r is False else mk("bool", mk("catch", a, b))
                return t if p == "eq" else NOT(t)
            if a.op == "typeid" and b.op == "excs":
                return self.icmp(p, b, a, st)
            a, b = self.b2i(a), self.b2i(b)
            # sign/zero extended chars against constants
            if b.op == "c" and a.op == "zext8" and a.a[0].op in BOOLS:
                pass
            if b is ZERO and (a.op in ("alloca", "new", "global") or (a.op == "aff" and any(
                    x.op in ("alloca", "new", "global") for _, x in a.a[1]))):
                t = FALSE
            else:
                x, y = self.distinct(a), self.distinct(b)
                t = FALSE if (x and y and x is not y) or self.pol.separate(a, b) else eq(a, b)
            return t if p == "eq" else NOT(t)
        a, b = self.b2i(a), self.b2i(b)
        if p == "slt":
            return lt(a, b)
        if p == "sle":
            return le(a, b)
        if p == "sgt":
            return lt(b, a)
        if p == "sge":
            return le(b, a)
        # unsigned: pointers compare like integers
        ptr = any(x.ptr for x in lin(a)[1]) or any(x.ptr for x in lin(b)[1])
        nn = lambda t: ptr or st.facts.entails_le(neg(t)) or (is_c(t) and t.a[0] >= 0)
        if nn(a) and nn(b):
            return {"ult": lt(a, b), "ule": le(a, b), "ugt": lt(b, a), "uge": le(b, a)}[p]
        if p == "ult":
            return mk("ult", a, b)
        if p == "uge":
            return NOT(mk("ult", a, b))
        if p == "ugt":
            return mk("ult", b, a)
        return NOT(mk("ult", b, a))

    def distinct(self, a):
        """allocation site if the pointer surely points to its own object"""
        if a.op in ("alloca", "global", "arg", "new", "ld") and a.ptr:
            if a.op in ("alloca", "new", "global"):
                return a
        return None

    def intcast(self, op, v, src, dst):
        if op == "freeze":
            return v
        if op == "zext":
            if src == "i1":
                return self.b2i(v) if v.op != "c" else C(1 if v.a[0] else 0)
            if v.op == "c":
                return C(v.a[0] & ((1 << int(src[1:])) - 1))
            if v.op == "b2i":
                return v
            if src in ("i8", "i16"):
                return mk("zext" + src[1:], v)
            return v
        if op == "sext":
            if src == "i1":
                return mk("sextb", v)
            if v.op in ("c", "b2i"):
                return v
            if src in ("i8", "i16"):
                return mk("sext" + src[1:], v)
            return v
        if op == "trunc":
            if dst == "i1":
                if v.op == "b2i":
                    return v.a[0]
                if v.op == "c":
                    return C(v.a[0] & 1)
                return NOT(eq(v, ZERO))
            if dst in ("i8", "i16"):
                n = dst[1:]
                if v.op == "c":
                    k = int(n)
                    x = v.a[0] & ((1 << k) - 1)
                    return C(x - (1 << k) if x >> (k - 1) else x)
                if v.op in ("sext" + n, "zext" + n):
                    return v.a[0]
                if v.op == "b2i":
                    return v
                return mk("trunc" + n, v)
            if v.op == "c" and dst == "i32":
                x = v.a[0] & 0xffffffff
                return C(x - (1 << 32) if x >> 31 else x)
            if dst == "i32" and any(x.op == "m:get" if self.pol.exact else long_value(x) for x in subterms(v)):
                return mk("wrap32", v)          # a value, not a size or index
            return v
        return v

    def fcast(self, op, v, src, dst):
        if op in ("sitofp", "uitofp"):
            if v.op == "c":
                return mk("f", float(v.a[0]))
            return mk("i2f", v, dst)
        if op in ("fptosi", "fptoui"):
            if v.op == "f" and not isinstance(v.a[0], str):
                return C(int(v.a[0]))
            return mk("f2i", v, dst)
        if v.op == "f":
            return v
        return mk(op, v)

    # ---------------------------------------------------------- calls
    def do_call(self, fn, st, ins, ctx):
        m = fn.mod
        callee = ins.x["callee"]
        args = [self.val(st, m, v, t) if t != "metadata" else mk("md", v[1]) for t, v in ins.args]
        args = [self.b2i(a) if ins.args[k][0] == "i1" else a for k, a in enumerate(args)]
        if callee[0] == "global":
            name = m.aliases.get(callee[1], callee[1])
            return self.call_named(st, ins, name, args, ctx)
        if callee[0] == "reg":
            t = self.val(st, m, callee)
            return self.call_indirect(fn, st, ins, t, args, ctx)
        return self.unknown(st, ins, "asm", "asm", args, ctx)

    def call_indirect(self, fn, st, ins, t, args, ctx):
        if t.op == "global":
            n = t.a[0]
            for m in self.prog.mods:
                n = m.aliases.get(n, n)
            return self.call_named(st, ins, n, args, ctx)
        if t.op == "ld":
            vt, off = t.a[0], t.a[1]
            # exact vtable known?
            if vt.op == "global" and vt.a[0].startswith("_ZTV") and is_c(off):
                slot = (off.a[0] - 16) // 8
                fl = self.prog.vtables().get(vt.a[0][4:])
                if fl and 0 <= slot < len(fl) and fl[slot]:
                    return self.call_named(st, ins, fl[slot], args, ctx)
            cls = self.vt.get(vt)
            if cls is not None and is_c(off):
                slot = off.a[0] // 8
                r = self.pol.vcall(self, st, ins, cls, slot, args)
                if isinstance(r, str):
                    return self.call_named(st, ins, r, args, ctx)
                if r is not None:
                    return r
                fl = self.prog.vtables().get(cls)
                nm = fl[slot] if fl and slot < len(fl) and fl[slot] else None
                return self.unknown(st, ins, nm or "vcall", "vcall:%s#%d" % (cls, slot), args, ctx)
        return self.unknown(st, ins, "indirect", "indirect", [t] + list(args), ctx)

    def call_named(self, st, ins, name, args, ctx):
        P = self.prog
        if name.startswith("llvm."):
            return self.intrinsic(st, ins, name, args, ctx)
        dem = P.dem(name)
        r = self.pol.call(self, st, ins, name, dem, args)
        if r is not None:
            return r
        r = self.runtime(st, ins, name, dem, args, ctx)
        if r is not None:
            return r
        f = P.defs.get(name)
        if f is not None and self.pol.inline(name, dem) and self.stack.count(f.name) < 1:
            return self.exec_fn(f, args, st, self.ctx_of(ctx, (ins.fn.name, ins.idx)))
        return self.unknown(st, ins, name, dem, args, ctx)

    def fresh(self, ctx, ins, tag="call"):
        """a value determined by the call site and context"""
        t = mk(tag, ctx, ins.fn.name, ins.idx)
        return t

    def unknown(self, st, ins, name, dem, args, ctx):
        s = st.copy()
        cc = self.ctx_of(ctx, (ins.fn.name, ins.idx))
        self.uid += 1
        res = None
        if ins.ty != "void":
            res = mk("call", dem.split("(")[0], self.uid, *args)
            if ins.ty == "ptr":
                res.ptr = True
            if ins.ty == "i1":
                res = mk("bool", res)
        for a in self.pol.clobbers(name, dem, ins, args):
            if a.op != "c":
                b, o = self.split(a)
                if b.op not in ("global", "abs"):
                    self.clobber(s, b)
        s.emit(Ev("call", dem, tuple(args), res, ins, s.facts))
        outs = [Outcome("ret", res, s)]
        if not ins.x["nounwind"] and self.pol.may_unwind(name, dem, ins):
            u = st.copy()
            u.emit(Ev("throws", dem, tuple(args), None, ins, u.facts))
            outs.append(Outcome("unw", mk("exc", "?" + dem.split("(")[0]), u))
        return outs

    def runtime(self, st, ins, name, dem, args, ctx):
        if name == "__cxa_allocate_exception":
            t = mk("new", ctx, ins.fn.name, ins.idx, "exc")
            t.ptr = True
            return [Outcome("ret", t, st)]
        if name == "__cxa_free_exception":
            return [Outcome("ret", None, st)]
        if name == "__cxa_throw":
            s = st.copy()
            ty = args[1].a[0] if args[1].op == "global" else "?"
            s.emit(Ev("throw", ty, tuple(args), None, ins, s.facts))
            return [Outcome("unw", mk("exc", ty), s)]
        if name == "__cxa_rethrow":
            s = st.copy()
            s.emit(Ev("throw", "rethrow", tuple(args), None, ins, s.facts))
            return [Outcome("unw", st.aux.get("!caught", mk("exc", "?")), s)]
        if name == "__cxa_begin_catch":
            s = st.copy()
            e = args[0].a[0] if args[0].op == "excp" else mk("exc", "?")
            s.aux["!caught"] = e
            s.emit(Ev("catch", e.a[0] if e.op == "exc" else "?", tuple(args), None, ins, s.facts))
            t = mk("caught", args[0])
            t.ptr = True
            return [Outcome("ret", t, s)]
        if name == "__cxa_end_catch":
            return [Outcome("ret", None, st)]
        if name in ("__clang_call_terminate", "_ZSt9terminatev", "abort"):
            s = st.copy()
            s.emit(Ev("terminate", dem, tuple(args), None, ins, s.facts))
            return [Outcome("stop", None, s)]
        if name in ("_Znwm", "_Znam"):
            s = st.copy()
            t = mk("new", ctx, ins.fn.name, ins.idx)
            t.ptr = True
            if t in s.mem:
                del s.mem[t]
            s.emit(Ev("new" if name == "_Znwm" else "new[]", dem, tuple(args), t, ins, s.facts))
            outs = [Outcome("ret", t, s)]
            if self.pol.may_unwind(name, dem, ins):
                u = st.copy()
                u.emit(Ev("throws", dem, tuple(args), None, ins, u.facts))
                outs.append(Outcome("unw", mk("exc", "_ZTISt9bad_alloc"), u))
            return outs
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"):
            s = st.copy()
            s.emit(Ev("delete" if "_Zdl" in name else "delete[]", dem, tuple(args), None, ins, s.facts))
            return [Outcome("ret", None, s)]
        return self.algorithm(st, ins, dem, args)

    def algorithm(self, st, ins, dem, args):
        """std::copy and the like between plain pointers, which is memmove"""
        m = ALGO.match(dem)
        if not m or len(args) != 3 or m.group(2) != m.group(4) or m.group(2) not in PLAIN:
            return None
        z = PLAIN[m.group(2)]
        if m.group(1) == "copy_n":
            f, n, d = args
            if not st.facts.decide(le(ZERO, n)) is True:
                return None
            n = scale(n, z)
        else:
            f, d = args[0], args[2]
            n = sub(args[1], f)
        s = st.copy()
        if is_c(n) and 0 <= n.a[0] <= 256:
            self.copy_cells(s, d, f, n.a[0], ins)
        else:
            s.emit(Ev("memmove", dem, (d, f, n), None, ins, s.facts))
            self.clobber(s, self.split(d)[0])
        r = add(d, n)
        r.ptr = True
        return [Outcome("ret", r, s)]

    def intrinsic(self, st, ins, name, args, ctx):
        if name.startswith("llvm.type.test") or name.startswith("llvm.public.type.test"):
            md = args[1].a[0] if args[1].op == "md" else ""
            mm = re.search(r"_ZTS(\w+)", md)
            if mm:
                self.vt.setdefault(args[0], mm.group(1))
            return [Outcome("ret", TRUE, st)]
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.stack", "llvm.invariant",
                            "llvm.experimental.noalias", "llvm.va_", "llvm.trap", "llvm.donothing")):
            if name.startswith("llvm.trap"):
                return [Outcome("stop", None, st)]
            return [Outcome("ret", None, st)]
        if name.startswith("llvm.eh.typeid.for"):
            t = mk("typeid", args[0].a[0] if args[0].op == "global" else "null")
            return [Outcome("ret", t, st)]
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            s = st.copy()
            n = args[2]
            if is_c(n) and n.a[0] <= 256:
                self.copy_cells(s, args[0], args[1], n.a[0], ins)
                return [Outcome("ret", None, s)]
            s.emit(Ev("memcpy" if "memcpy" in name else "memmove", name, tuple(args[:3]), None, ins, s.facts))
            b, o = self.split(args[0])
            self.clobber(s, b)
            return [Outcome("ret", None, s)]
        if name.startswith("llvm.memset"):
            s = st.copy()
            n = args[2]
            b, o = self.split(args[0])
            if is_c(n) and args[1] is ZERO:
                self.pol.on_store(self, s, ins, args[0], n.a[0], ZERO)
                self.store(s, args[0], n.a[0], ZERO)
            else:
                s.emit(Ev("memset", name, tuple(args[:3]), None, ins, s.facts))
                self.clobber(s, b)
            return [Outcome("ret", None, s)]
        if ".with.overflow" in name:
            r = mul(args[0], args[1]) if "mul" in name else add(args[0], args[1]) if "add" in name else sub(args[0], args[1])
            return [Outcome("ret", mk("agg", r, FALSE), st)]
        if re.match(r"llvm\.(smin|smax|umin|umax|abs)", name):
            return [Outcome("ret", mk(name.split(".")[1], *args), st)]
        if re.match(r"llvm\.(fabs|sqrt|floor|ceil|pow|sin|cos|exp|log|fmuladd|fma|copysign|maxnum|minnum|trunc|rint|round|is\.constant|expect|objectsize|is\.fpclass)", name):
            if "fmuladd" in name:
                r = mk("fadd", *sorted((mk("fmul", *sorted(args[:2], key=lambda t: t.id)), args[2]), key=lambda t: t.id))
                return [Outcome("ret", r, st)]
            r = mk("m:" + name.split(".")[1], *args)
            if ins.ty == "i1":
                r = mk("bool", r)
            return [Outcome("ret", r, st)]
        return [Outcome("ret", mk("opq", name, ctx, ins.idx), st)]

    def copy_cells(self, s, dst, src, n, ins=None):
        sb, so = self.split(src)
        cells = s.mem.get(sb, {})
        pts = []
        for o, (z, v) in cells.items():
            d = sub(o, so)
            if is_c(d) and 0 <= d.a[0] and d.a[0] + z <= n:
                pts.append((d.a[0], z))
        pts.sort()
        pos = 0
        plan = []
        for o, z in pts:
            if o < pos:
                continue
            if o > pos:
                plan.append((pos, o - pos))
            plan.append((o, z))
            pos = o + z
        if pos < n:
            plan.append((pos, n - pos))
        # keep 8-byte words whole
        fine = []
        for o, z in plan:
            if (o, z) not in pts and o % 8 == 0:
                while z > 8:
                    fine.append((o, 8))
                    o += 8
                    z -= 8
            fine.append((o, z))
        vals = [(o, z, self._load(s, sb, add(so, C(o)), z)) for o, z in fine]
        for o, z, v in vals:
            if ins is not None:
                self.pol.on_store(self, s, ins, add(dst, C(o)), z, v)
            self.store(s, add(dst, C(o)), z, v)


PLAIN = {"char": 1, "int": 4, "long": 8, "float": 4, "double": 8, "std::complex<float>": 8, "std::complex<double>": 16}
ALGO = re.compile(r"[\w:<> ]*\*\s*std::(copy|move|copy_n)<(char|int|long|float|double|std::complex<(?:float|double)>)( const)?\*, "
                  r"(?:(?:int|long), )?(?:\2(?: const)?\*, )?(char|int|long|float|double|std::complex<(?:float|double)>)\*>\(")
# algorithms of the library that are read like the code that calls them
ALGOS = re.compile(r"std::(copy|copy_n|move|copy_backward|move_backward|fill|fill_n|exchange|"
                   r"__(copy|move|fill|niter|miter|iterator_category|size_to|addressof|distance|advance)\w*)\b")


def long_value(x):
    return x.op in ("m:get", "m:cast", "cast") and any(isinstance(y, T) and y.op == "T" and y.a[0] == "long" for y in x.a)


CASTF = {"sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"}

BASES = {"_ZTIN6libube5errorE": ["_ZTISt9exception"],
         "_ZTISt11range_error": ["_ZTISt13runtime_error", "_ZTISt9exception"],
         "_ZTISt13runtime_error": ["_ZTISt9exception"],
         "_ZTISt9bad_alloc": ["_ZTISt9exception"],
         "_ZTISt11logic_error": ["_ZTISt9exception"],
         "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
         "_ZTISt16invalid_argument": ["_ZTISt11logic_error", "_ZTISt9exception"]}


def catches(handler, exc):
    """does a handler for type `handler` catch exception `exc`? None=unknown"""
    if handler == "null":
        return True
    if exc == handler or handler in BASES.get(exc, ()):
        return True
    if exc.startswith("?"):
        return None
    if exc in BASES or exc.startswith("_ZTI"):
        return False
    return None


def rank(x):
    return {"alloca": 3, "new": 3, "global": 3}.get(x.op, 1)


def cells_size(z):
    return z


def depends_iv(off, hav, lctx):
    for x in subterms(off):
        if x.op in ("iv", "ivm"):
            return True
    return False


def walk(events):
    """all primitive events, descending into loops and joins, in order"""
    for e in events:
        if isinstance(e, Loop):
            for f, b in e.bodies:
                yield from walk(b)
        elif e.kind == "JOIN":
            for f, b in e.x:
                yield from walk(b)
        else:
            yield e
