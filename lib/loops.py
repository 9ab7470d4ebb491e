"""Closed forms of counted loops: iteration number, trip count and the value of
every induction location, whichever way the loop is written."""
from terms import *
from engine import Loop, walk, Ev

KAPPA = {}


def kappa(L):
    """iteration number of a loop"""
    t = KAPPA.get(L.header)
    if t is None:
        t = mk("kappa", *L.header)
        KAPPA[L.header] = t
    return t


class Counted:
    """kappa: the iteration number 0..n-1; n: trip count (meaning max(0,n));
    forms: {induction term: value in iteration kappa}"""
    __slots__ = ("k", "n", "forms", "L", "known")

    def at(self, t):
        """a body term in terms of the iteration number"""
        return neg_shape(subst(t, self.forms))


def has_iv(t):
    return any(x.op in ("iv", "ivm", "ivv", "ivx") for x in subterms(t))


def closed(L, facts):
    """facts: those holding after the loop.  None when the loop is not counted"""
    k = kappa(L)
    own = set(L.ivs)
    for f, b in L.bodies:
        for y in all_loops(b):
            own |= set(y.ivs)
    # versions joined at the head of a loop around this one do not change in this one
    first = min([t.a[0] for t in L.ivs if t.op in ("iv", "ivm") and isinstance(t.a[0], int)], default=-1)

    def has_iv(t):
        return any(x in own or x.op in ("ivv", "ivx") and not (isinstance(x.a[0], int) and x.a[0] < first) for x in subterms(t))
    forms = {}
    bases = []
    for t, (i0, ns) in L.ivs.items():
        ds = {sub(n, t) for n in ns}
        if i0.op == "undef" or len(ds) != 1:
            continue
        d = ds.pop()
        if has_iv(d):
            continue
        forms[t] = add(i0, mul(d, k))
        if is_c(d) and d.a[0]:
            bases.append((t, i0, d.a[0]))
    # second order: values determined by other induction variables one iteration behind are left
    best = None
    for t, i0, s in bases:
        cands = None
        for f, _ in L.bodies:
            c = set()
            for x in f.les:
                co = lin(x)[1].get(t)
                if not co or abs(co) != 1:
                    continue
                rest = sub(x, scale(t, co))
                if any(y in own and y not in forms for y in subterms(rest)):
                    continue
                if s > 0 and co == 1:
                    c.add(add(neg(rest), ONE))           # t + rest <= 0  ->  t < 1-rest
                elif s < 0 and co == -1:
                    c.add(add(rest, C(-1)))                # -t + rest <= 0 -> t > rest-1
            for a, v in f.atoms.items():
                if v is False and a.op == "eq0":
                    co = lin(a.a[0])[1].get(t)
                    if co and abs(co) == 1:
                        rest = scale(sub(a.a[0], scale(t, co)), -co)
                        c.add(rest)                      # t != rest
            cands = c if cands is None else cands & c
        for b in cands or ():
            if has_iv(b):
                continue
            # the loop ends exactly when t reaches b
            if s > 0 and facts.entails_le(sub(b, t)) or s < 0 and facts.entails_le(sub(t, b)) or facts.decide(eq(t, b)) is True:
                n = exact(sub(b, i0), s)
                if n is None:
                    continue
                if best is None or len(subterms(n)) < len(subterms(best)):
                    best = n
    if best is None:
        return None
    r = Counted()
    r.k, r.n, r.forms, r.L = k, neg_shape(best), forms, L
    return r


def exact(t, s):
    """t/s where that is a whole number, for steps of other sizes (iterators)"""
    if s in (1, -1):
        return scale(t, s)
    c, d = lin(t)
    if c % s or any(k % s for k in d.values()):
        return None
    r = C(c // s)
    for x, k in d.items():
        r = add(r, scale(x, k // s))
    return r


def neg_shape(t, memo=None):
    """shape(c, -k) counted from the end -> shape(c, dim(c)-k)"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "aff":
        r = C(t.a[0])
        for q, x in t.a[1]:
            r = add(r, neg_shape(x, memo), q)
    elif t.op == "mul":
        r = ONE
        for x in t.a:
            r = mul(r, neg_shape(x, memo))
    elif t.op in ("le0", "eq0", "not"):
        r = {"le0": le0, "eq0": lambda y: eq(y, ZERO), "not": NOT}[t.op](neg_shape(t.a[0], memo))
    elif t.op in ("m:shape", "m:stride") and len(t.a) == 3:
        i = neg_shape(t.a[1], memo)
        if negative(i):
            i = add(i, mk("m:dim", t.a[0], t.a[2]))
        r = mk(t.op, t.a[0], i, t.a[2])
    elif t.op == "sdiv" and t.a[0] is t.a[1]:
        r = ONE
    elif any(isinstance(x, T) for x in t.a):
        na = tuple(neg_shape(x, memo) if isinstance(x, T) else x for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
        if t.ptr:
            r.ptr = True
    else:
        r = t
    memo[t] = r
    return r


def negative(i):
    """is an index surely negative: constant, or -(iteration) - constant"""
    c, d = lin(i)
    if c >= 0:
        return False
    return all(k < 0 and x.op == "kappa" for x, k in d.items())


def all_loops(events):
    for e in events:
        if isinstance(e, Loop):
            yield e
            for f, b in e.bodies:
                yield from all_loops(b)
        elif e.kind == "JOIN":
            for f, b in e.x:
                yield from all_loops(b)


def top_loops(events):
    return [e for e in events if isinstance(e, Loop)]
