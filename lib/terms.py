"""Hash-consed symbolic values with affine normalisation and a small
difference-bound style entailment procedure (linear combination of at most a
few known inequalities; no solver)."""

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "ptr")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    key = (op,) + tuple((x.id, 1) if isinstance(x, T) else x for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id, t.ptr = op, a, len(_tab), False
        _tab[key] = t
    return t


def C(n):
    return mk("c", int(n))


ZERO = C(0)
ONE = C(1)
TRUE = ONE
FALSE = ZERO
UNDEF = mk("undef")


def is_c(t):
    return t.op == "c"


# ------------------------------------------------------------ affine integers

def lin(t):
    """(const, {term: coef})"""
    if t.op == "c":
        return t.a[0], {}
    if t.op == "aff":
        return t.a[0], {x: k for k, x in t.a[1]}
    return 0, {t: 1}


class _Pairs(tuple):
    pass


def from_lin(c, d):
    items = [(k, x) for x, k in d.items() if k]
    if not items:
        return C(c)
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    items.sort(key=lambda p: p[1].id)
    key = ("aff", c) + tuple((k, x.id) for k, x in items)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id, t.ptr = "aff", (c, tuple(items)), len(_tab), False
        _tab[key] = t
    return t


def add(a, b, kb=1):
    ca, da = lin(a)
    cb, db = lin(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + k * kb
    return from_lin(ca + cb * kb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin(a)
    return from_lin(c * k, {x: v * k for x, v in d.items()})


def mul(a, b):
    if is_c(a):
        return scale(b, a.a[0])
    if is_c(b):
        return scale(a, b.a[0])
    # distribute over affine to get a canonical form
    ca, da = lin(a)
    cb, db = lin(b)
    d = {}
    for x, k in da.items():
        d[x] = d.get(x, 0) + k * cb
    for y, k in db.items():
        d[y] = d.get(y, 0) + k * ca
    for x, k in da.items():
        for y, l in db.items():
            xs = list(x.a) if x.op == "mul" else [x]
            ys = list(y.a) if y.op == "mul" else [y]
            m = mk("mul", *sorted(xs + ys, key=lambda t: t.id))
            d[m] = d.get(m, 0) + k * l
    return from_lin(ca * cb, d)


def neg(a):
    return scale(a, -1)


# ------------------------------------------------------------------ booleans

def le0(t):
    if is_c(t):
        return TRUE if t.a[0] <= 0 else FALSE
    # divide by the gcd
    c, d = lin(t)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum k x + c <= 0  ->  sum k/g x <= floor(-c/g)
        c = -((-c) // g)
        t = from_lin(c, {x: k // g for x, k in d.items()})
    return mk("le0", t)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


def eq(a, b):
    if a is b:
        return TRUE
    d = sub(a, b)
    if is_c(d):
        return TRUE if d.a[0] == 0 else FALSE
    # booleans against constants
    if is_c(b):
        if a.op == "b2i":
            if b.a[0] == 1:
                return a.a[0]
            return NOT(a.a[0]) if b.a[0] == 0 else FALSE
        if a.op in BOOLS:
            if b.a[0] in (1, -1):
                return a
            return NOT(a) if b.a[0] == 0 else FALSE
    # canonical sign
    c, l = lin(d)
    lead = min(l.items(), key=lambda p: p[0].id)
    if lead[1] < 0:
        d = neg(d)
    return mk("eq0", d)


def ne(a, b):
    return NOT(eq(a, b))


BOOLS = {"le0", "eq0", "not", "fcmp", "and", "or", "ult", "bool"}


def NOT(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "le0":
        # !(t<=0) -> t>=1 -> 1-t<=0
        return le0(sub(ONE, b.a[0]))
    return mk("not", b)


def subst(t, m, memo=None):
    """replace terms by terms"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ("c", "f", "undef", "global"):
        return t
    if t.op == "aff":
        r = C(t.a[0])
        for k, x in t.a[1]:
            r = add(r, subst(x, m, memo), k)
    elif t.op == "mul":
        r = ONE
        for x in t.a:
            r = mul(r, subst(x, m, memo))
    elif t.op == "le0":
        r = le0(subst(t.a[0], m, memo))
    elif t.op == "eq0":
        r = eq(subst(t.a[0], m, memo), ZERO)
    elif t.op == "not":
        r = NOT(subst(t.a[0], m, memo))
    else:
        na = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
        if r is not t and t.ptr:
            r.ptr = True
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    if t.op == "aff":
        for _, x in t.a[1]:
            subterms(x, seen)
    else:
        for x in t.a:
            if isinstance(x, T):
                subterms(x, seen)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        subterms(y, seen)
    return seen


def contains(t, x):
    return x in subterms(t)


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    if t.op == "c":
        return str(t.a[0])
    if t.op == "f":
        return repr(t.a[0])
    if t.op == "aff":
        r = []
        for k, x in t.a[1]:
            r.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + s(x))
        if t.a[0]:
            r.append(str(t.a[0]))
        return "(" + "+".join(r).replace("+-", "-") + ")"
    if t.op == "arg":
        return str(t.a[0])
    if t.op == "ld":
        return "[%s+%s:%s]" % (s(t.a[0]), s(t.a[1]), t.a[2])
    if t.op == "global":
        return "@" + str(t.a[0])
    if t.op in ("iv", "ivm"):
        return "%s%d" % (t.op, t.id)
    if t.op == "le0":
        return s(t.a[0]) + "<=0"
    if t.op == "eq0":
        return s(t.a[0]) + "==0"
    if t.op == "not":
        return "!" + s(t.a[0])
    if t.op in ("alloca", "new"):
        return "%s#%d" % (t.op, t.id)
    return t.op + "(" + ",".join(s(x) for x in t.a) + ")"


# ------------------------------------------------------------------ facts

class Facts:
    """Conjunction of known-true conditions."""
    __slots__ = ("les", "atoms", "eqs", "_memo", "nn")

    def __init__(self, les=(), atoms=None, eqs=(), nn=None):
        self.les = les            # tuple of affs known <= 0
        self.atoms = atoms or {}  # atom -> bool
        self.eqs = eqs            # tuple of affs known == 0
        self._memo = {}
        self.nn = nn              # predicate: is this term inherently >= 0

    def truths(self, b):
        """b with the truth values that are known in their place"""
        if b.op == "not":
            x = self.truths(b.a[0])
            return b if x is b.a[0] else NOT(x)
        if b.op not in ("eq0", "le0"):
            return b
        c, d = lin(b.a[0])
        ts = [x for x in d if x.op == "b2i"]
        if not ts:
            return b
        for x in ts:
            v = self.decide(x.a[0])
            if v is not None:
                c += d.pop(x) if v else 0 * d.pop(x)
        if len(d) == 1 and list(d)[0].op == "b2i":
            x, k = list(d.items())[0]
            if b.op == "eq0":
                return NOT(x.a[0]) if c == 0 else x.a[0] if c + k == 0 else FALSE
            lo, hi = c <= 0, c + k <= 0
            return TRUE if lo and hi else FALSE if not lo and not hi else x.a[0] if hi else NOT(x.a[0])
        t = from_lin(c, d)
        return eq(t, ZERO) if b.op == "eq0" else le0(t)

    def assume(self, b):
        """facts extended with b, or None if contradictory"""
        b = self.truths(b)
        v = self.decide(b)
        if v is True:
            return self
        if v is False:
            return None
        if b.op == "le0":
            f = Facts(self.les + (b.a[0],), self.atoms, self.eqs, self.nn)
            # a <= 0 and a != 0  -> a <= -1 ; (-a) <= 0 too -> a == 0 : left to decide
            t = b.a[0]
            e = eq(t, ZERO)
            if self.atoms.get(e) is False:
                f = Facts(f.les[:-1] + (add(t, ONE),), f.atoms, f.eqs, f.nn)
            return f
        if b.op == "eq0":
            return Facts(self.les, self.atoms, self.eqs + (b.a[0],), self.nn)
        if b.op == "not":
            x = b.a[0]
            at = dict(self.atoms)
            at[x] = False
            f = Facts(self.les, at, self.eqs, self.nn)
            if x.op == "eq0":
                t = x.a[0]
                if self.entails_le(t):
                    f = Facts(f.les + (add(t, ONE),), f.atoms, f.eqs, f.nn)
                    f = f.tighten(t)
                elif self.entails_le(neg(t)):
                    f = Facts(f.les + (add(neg(t), ONE),), f.atoms, f.eqs, f.nn)
                    f = f.tighten(t)
                if f is None:
                    return None
            elif x.op == "or":
                for y in x.a:
                    f = f.assume(NOT(y))
                    if f is None:
                        return None
            return f
        if b.op == "and":
            f = self
            for x in b.a:
                f = f.assume(x)
                if f is None:
                    return None
            return f
        if b.op == "ult":
            f = self.assume(le(ZERO, b.a[0]))
            if f is None:
                return None
            f = f.assume(lt(b.a[0], b.a[1]))
            if f is None:
                return None
            at = dict(f.atoms)
            at[b] = True
            return Facts(f.les, at, f.eqs, f.nn)
        at = dict(self.atoms)
        at[b] = True
        return Facts(self.les, at, self.eqs, self.nn)

    def tighten(self, t):
        """a bound has moved: apply the other known disequalities of the same
        term to it; None if nothing is left"""
        f = self
        d = lin(t)[1]
        n = {x: -k for x, k in d.items()}
        rest = [a.a[0] for a, v in f.atoms.items() if v is False and a.op == "eq0" and lin(a.a[0])[1] in (d, n)]
        for _ in range(len(rest)):
            ch = False
            for u in rest:
                for w in (u, neg(u)):
                    if f.entails_le(w) and not f.entails_le(add(w, ONE)):
                        f = Facts(f.les + (add(w, ONE),), f.atoms, f.eqs, f.nn)
                        ch = True
                    if f.entails_le(sub(ONE, w)) and f.entails_le(w):
                        return None
            if not ch:
                break
        return f

    def decide(self, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        b = self.truths(b)
        if b.op == "c":
            return b is TRUE
        m = self._memo.get(b)
        if m is not None:
            return m[0]
        r = self._decide(b)
        self._memo[b] = (r,)
        return r

    def _decide(self, b):
        if b in self.atoms:
            return self.atoms[b]
        if b.op == "not":
            r = self.decide(b.a[0])
            return None if r is None else not r
        if b.op == "le0":
            if self.entails_le(b.a[0]):
                return True
            if self.entails_le(sub(ONE, b.a[0])):
                return False
            return None
        if b.op == "eq0":
            t = b.a[0]
            v = self.value(t)
            if v is not None:
                return v == 0
            up = self.entails_le(t)
            if up and self.entails_le(neg(t)):
                return True
            if up and self.entails_le(add(t, ONE)):
                return False
            if not up and self.entails_le(sub(ONE, t)):
                return False
            # equality with another known-unequal through eqs
            t2 = self.reduce(t)
            if t2 is not t:
                e = eq(t2, ZERO)
                if e is TRUE:
                    return True
                if e is FALSE:
                    return False
                if e in self.atoms:
                    return self.atoms[e]
            return None
        if b.op == "ult":
            x, y = b.a
            if self.entails_le(neg(x)):
                return self.decide(lt(x, y))
            return None
        if b.op == "and":
            rs = [self.decide(x) for x in b.a]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if b.op == "or":
            rs = [self.decide(x) for x in b.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        return None

    def reduce(self, t):
        """rewrite using equalities: eliminate the highest-id term of each"""
        for _ in range(4):
            ch = False
            for e in self.eqs:
                c, d = lin(e)
                p = [x for x, k in d.items() if abs(k) == 1]
                if not p:
                    continue
                x = max(p, key=lambda z: z.id)
                ct, dt = lin(t)
                if x in dt:
                    # x = -(e - k x)/k
                    k = d[x]
                    t = add(t, e, -dt[x] * k)
                    ch = True
            if not ch:
                break
        return t

    def value(self, t):
        if is_c(t):
            return t.a[0]
        t = self.reduce(t)
        return t.a[0] if is_c(t) else None

    def entails_le(self, t, depth=4):
        t = self.reduce(t)
        if is_c(t):
            return t.a[0] <= 0
        fs = [self.reduce(f) for f in self.les] if self.eqs else list(self.les)
        fs = [f for f in fs if not is_c(f)]
        return self._ent(t, fs, depth)

    def _ent(self, t, fs, depth):
        c, d = lin(t)
        if not d:
            return c <= 0
        # inherent non-negativity / bounds
        for f in fs:
            cf, df = lin(f)
            if df == d:
                if c <= cf:
                    return True
        if depth == 0:
            return False
        # pick a term and eliminate it with a fact
        for x, k in d.items():
            if self.nn and k < 0 and self.nn(x):
                # x >= 0, so k*x <= 0: drop it
                d2 = dict(d)
                del d2[x]
                if self._ent(from_lin(c, d2), fs, depth - 1):
                    return True
            lo = inherent_le(x, k)
            if lo is not None:
                d2 = dict(d)
                del d2[x]
                if self._ent(from_lin(c + lo, d2), fs, depth - 1):
                    return True
            for f in fs:
                cf, df = lin(f)
                kf = df.get(x)
                if kf and (kf > 0) == (k > 0) and k % kf == 0:
                    m = k // kf
                    if self._ent(add(t, f, -m), [g for g in fs if g is not f], depth - 1):
                        return True
                elif kf and (kf > 0) == (k > 0) and abs(k) == 1 and abs(kf) <= 16:
                    # t <= 0 for whole numbers when q*t <= q-1
                    q = abs(kf)
                    if self._ent(add(add(scale(t, q), C(1 - q)), f, -1), [g for g in fs if g is not f], depth - 1):
                        return True
            # one term is enough: every proof must eliminate it
            break
        return False

    def all(self):
        r = [le0(x) for x in self.les] + [mk("eq0", x) for x in self.eqs]
        r += [a if v else mk("not", a) for a, v in self.atoms.items()]
        return r

    def key(self):
        return (frozenset(self.les), frozenset(self.eqs), frozenset(self.atoms.items()))

    @staticmethod
    def meet_common(fs):
        """facts that hold in all of fs"""
        f0 = fs[0]
        if all(f is f0 for f in fs):
            return f0
        les = tuple(x for x in f0.les if all(f.entails_le(x) for f in fs[1:]))
        eqs = tuple(x for x in f0.eqs if all(f.decide(mk("eq0", x)) is True for f in fs[1:]))
        at = {a: v for a, v in f0.atoms.items()
              if all(f.decide(a) is v for f in fs[1:])}
        return Facts(les, at, eqs, f0.nn)


def inherent_le(x, k):
    """an upper bound of k*x from the shape of x, or None"""
    if x.op == "b2i":
        return k if k > 0 else 0
    if x.op == "zext8":
        return 255 * k if k > 0 else 0
    if x.op == "sext8":
        return 127 * k if k > 0 else -128 * k
    if x.op == "sdiv" and is_c(x.a[1]) and x.a[1].a[0] > 0:
        return None
    return None
