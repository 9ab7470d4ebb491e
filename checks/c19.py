"""C19: JSON text

Writer: operator<< is interpreted whole for each kind of value.  What it puts
on the stream is a summary of texts, characters and elements under loops; the
summary is compared with the grammar for every size at which the guards of the
loops can tell iterations apart, and over all 256 characters for texts.

Reader: operator>> is interpreted whole over a stream of characters with
positions.  Each way of reading (text, array, object, plain word) is a loop
whose iterations consume a number of characters under conditions on those
characters; conditions and what is kept are tabulated over all characters."""
from fmtm import *
from fcheck import *
from report import Vanished
import bytem

MIN_DECIDED = 4
UNIT = "lube/json.cpp"
VAL = "what is written is what the value holds"
STRUCT = "arrays and maps are written with all their elements in order"
TEXT = "text is written character for character, quoted"
READ = "what is read is what stands in the text"
WORDS = "numbers and words are read whole and nothing more"
JSON_ESC = {34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9}
EOF = -1


def op(P, suf, what):
    for n in sorted(P.defs):
        d = P.dem(n)
        if short(d) == "libube::operator" + suf and what in d and "var" in d and nparams(sig_args(d)) == 2:
            return P.defs[n]
    return None


# ------------------------------------------------------------------ writer
def elem_of(t, env):
    """(content, index, kind) of an element of what is written; kind: 'value' or 'key'"""
    if t.op == "m:str":
        e = elem_of(t.a[0], env)
        return e and (e[0], e[1], "bare text of " + e[2])
    while t.op in ("m:get", "cast") and t.a[0].op in ("elem", "m:at", "m:key"):
        t = t.a[0]
    if t.op in ("elem", "el"):
        i = t.a[2] if t.op == "el" else t.a[1]
        return t.a[0], bval(i, env), "value"
    if t.op == "m:key":
        return t.a[0], bval(t.a[1], env), "key"
    if t.op == "ld" and t.a[0].op == "m:ptr":
        o = t.a[1] if isinstance(t.a[1], T) else C(t.a[1])
        k = bval(o, env)
        if k is None or not t.a[2] or k % t.a[2]:
            return None
        t, off = t.a[0], k // t.a[2]
    elif t.op == "m:ptr":
        off = 0
    else:
        return None
    if len(t.a) >= 3 and isinstance(t.a[2], T) and t.a[1].op == "T":
        i = bval(t.a[2], env)
        return None if i is None else (t.a[0], i + off, "value")
    return None


def value_at(c):
    def value(t, ty, env):
        e = elem_of(t, env)
        if e is None or e[0] is not c or e[1] is None:
            raise Unclear("output of %s" % show(t)[:100])
        return (e[2], e[1])
    return value


PROFILES = [dict(defined=1, type=5, atype=5, size=1), dict(defined=0, type=0, atype=0, size=0), dict(defined=1, type=0, atype=1, size=3),
            dict(defined=1, type=0, atype=8, size=2), dict(defined=1, type=0, atype=1, size=0), dict(defined=1, type=0, atype=9, size=1)]


def looker(c, size, dims=None, byte=None, prof=None):
    def look(t, env):
        if prof is not None and t.op[:2] == "m:" and t.op[2:] in PROFILES[0] and t.a and isinstance(t.a[0], T) and t.a[0].op in ("elem", "m:key"):
            e = elem_of(t.a[0], env)
            if e and e[0] is c and e[1] is not None:
                return PROFILES[(prof + (e[1] if prof >= len(PROFILES) else 0)) % len(PROFILES)][t.op[2:]]
        if len(t.a) and t.a[0] is c:
            if t.op == "m:size":
                return size
            if t.op == "m:dim":
                return len(dims) if dims else 1
            if t.op == "m:shape" and dims:
                k = bval(t.a[1], env)
                if k is not None and -len(dims) <= k < len(dims):
                    return dims[k]
            if t.op == "m:view":
                return int(bool(dims))
        if byte and t.op in ("ld", "el"):
            e = elem_of(t, env)
            if e and e[0] is c and e[1] is not None and 0 <= e[1] < size:
                return byte(e[1])
        return None
    return look


def squash(toks):
    """tokens without white space between them"""
    r = []
    for x in toks:
        if isinstance(x, str):
            x = "".join(x.split())
            if not x:
                continue
            if r and isinstance(r[-1], str):
                r[-1] += x
                continue
        r.append(x)
    return r


def tell(toks):
    return "".join(x if isinstance(x, str) else "<%s %s>" % x for x in toks)[:120]


def compare(R, key, run, c, cases, rule, norm=squash, value=None):
    """cases: [(label, look, want)]"""
    rets = run.rets()
    if run.E.warn:
        return R.ob(key, None, "; ".join(sorted(run.E.warn))[:200], where(run), rule)
    given = set(run.st.facts.all())
    for label, look, want in cases:
        got, sure = [], False
        for o in rets:
            try:
                x = emitted(run.prog, o, look, given, value or value_at(c))
            except Unclear as e:
                return R.ob(key, None, "%s: %s" % (label, e), where(run), rule)
            if x is not None:
                got.append(norm(x[0]))
                sure |= x[1]
        if not got:
            return R.ob(key, None, "%s: no path" % label, where(run), rule)
        bad = [g for g in got if g != norm(want)]
        if not bad:
            continue
        if len(bad) == len(got) or sure and len(got) == 1:
            return R.ob(key, False, "%s is written as %s, not as %s" % (label, tell(bad[0]), tell(norm(want))), where(run), rule)
        return R.ob(key, None, "%s: %s or another way" % (label, tell(bad[0])), where(run), rule)
    R.ob(key, True, "", where(run), rule)


def seq(l, between=","):
    r = []
    for k, x in enumerate(l):
        if k:
            r.append(between)
        r += x if isinstance(x, list) else [x]
    return r


SIZES = (0, 1, 2, 3, 4, 7, 12)


def writer(R, P, enc):
    fn = op(P, "<<", "ostream")
    if fn is None:
        raise Vanished("operator<<(ostream, var)")
    k = 1 if "ostream" in sig_args(P.dem(fn.name))[0] else 0

    def start(ty, shape, extra=lambda q: []):
        return Run(R, P, None, None, 0, policy=FmtPolicy, fn=fn, setup=lambda q: q.kind(k, ty, shape) + extra(q))

    def flat(q):
        return [NOT(mk("bool", mk("m:view", q.c[k], ZERO))), eq(mk("m:dim", q.c[k], ZERO), ONE)]

    # one value
    for ty in ("int", "long", "float", "double", "char", "cdouble"):
        key = "write:%s" % ty
        with R.guard(key, VAL):
            r = start(ty, "scalar", flat if ty == "cdouble" else lambda q: [])
            c = r.c[k]
            ok = None

            def one(t, fty, env):
                if t in (mk("m:get", c, mk("T", ty), ZERO), mk("ptr", c, mk("T", ty), ZERO)):
                    if fty and fty.replace("const&", "").strip() not in (ty, "libube::var") and not (
                            ty.startswith("c") and "complex" in fty):
                        if fty.strip() in NARROW.get(ty, ()):
                            return ("value", fty)
                        raise Unclear("written as %s" % fty)
                    return ("value", ty)
                e = elem_of(t, env)
                if e and e[0] is c and e[1] == 0 and e[2] == "value":
                    return ("value", ty)
                if t.op == "m:get" and t.a[0] is c and t.a[1].op == "T":
                    return ("value", ty) if t.a[1].a[0] in WIDE.get(ty, (ty,)) else ("value", t.a[1].a[0])
                if t.op.startswith(("trunc", "fptrunc", "fptosi")) and c in subterms(t):
                    return ("value", t.op)
                raise Unclear("output of %s" % show(t)[:100])
            want = [("value", ty)]
            compare(R, key, r, c, [("a single %s" % ty, looker(c, 1), ["'"] + want + ["'"] if ty == "char" else want)], VAL,
                    norm=(lambda x: [y for y in squash(x) if y != "'"]) if ty == "char" else squash, value=one)
    with R.guard("write:nil", VAL):
        r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=fn, setup=lambda q: [
            eq(mk("m:type", q.c[k], ZERO), ZERO), eq(mk("m:heap", q.c[k]), ZERO), eq(mk("m:atype", q.c[k], ZERO), ZERO),
            NOT(mk("bool", mk("m:defined", q.c[k], ZERO)))])
        compare(R, "write:nil", r, r.c[k], [("nil", looker(r.c[k], 0), ["null"])], VAL)
    # text
    with R.guard("write:text", TEXT):
        r = start("char", "array", flat)
        c = r.c[k]
        whole = lambda x: ["".join(y if isinstance(y, str) else "<?>" for y in x)]
        try:
            for b in range(256):
                got = set()
                for o in r.rets():
                    x = emitted(P, o, looker(c, 1, byte=lambda i: b), set(r.st.facts.all()), value_at(c))
                    if x is not None:
                        got.add(tuple(x[0]))
                if len(got) == 1:
                    x = whole(got.pop())[0]
                    if len(x) >= 2 and x[0] == x[-1] == '"':
                        enc[b] = [ord(y) for y in x[1:-1]]
        except Unclear:
            enc.clear()
        def std(b):
            e = enc.get(b)
            if e is None:
                return None
            if e == [b] and b not in (34, 92):
                return True
            return len(e) == 2 and e[0] == 92 and JSON_ESC.get(e[1]) == b
        odd = [b for b in range(256) if std(b) is False]
        if len(enc) < 256:
            R.ob("write:text", None, "the text written is not known for every character", where(r), TEXT)
        elif odd:
            b = odd[0]
            R.ob("write:text", False, "in a text, %s is written as %s" % (nm(b), "".join(chr(x) for x in enc[b]) or "nothing"), where(r), TEXT)
        else:
            def text_of(s):
                return ['"' + "".join("".join(map(chr, enc[b])) for b in s) + '"']
            cs = []
            for s in ([], [97], [34], [92], [97, 98], [34, 92], [92, 92, 34], [97, 34, 98, 99, 0, 255], list(range(256))):
                cs.append(("a text of %d characters" % len(s), looker(c, len(s), byte=lambda i, s=s: s[i]), text_of(s)))
            compare(R, "write:text", r, c, cs, TEXT, norm=whole)
    # arrays
    for ty in ("int", "double", "var", "cdouble"):
        key = "write:%s array" % ty
        with R.guard(key, STRUCT):
            r = start(ty, "array", flat)
            c = r.c[k]
            compare(R, key, r, c, [("an array of %d" % n, looker(c, n, prof=p), ["["] + seq([("value", i) for i in range(n)]) + ["]"])
                                   for n in SIZES if n != 1 or ty != "cdouble" for p in (range(9) if ty == "var" else [None])], STRUCT)
    with R.guard("write:map", STRUCT):
        r = start("pair", "array", flat)
        c = r.c[k]
        compare(R, "write:map", r, c, [("a map of %d" % n, looker(c, n, prof=p), ["{"] + seq([[("key", i), ":", ("value", i)] for i in range(n)]) + ["}"])
                                       for n in SIZES for p in range(9)], STRUCT)
    # views
    for dims in ((0,), (1,), (3,), (5,)), ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 4)), ((2, 2, 3), (1, 2, 2), (3, 2, 1), (2, 1, 3)), ((2, 3, 2, 2), (1, 2, 2, 3), (3, 1, 1, 2)):
        nd = len(dims[0])
        key = "write:view of %d dimensions" % nd
        with R.guard(key, STRUCT):
            r = start("double", "array", lambda q: [mk("bool", mk("m:view", q.c[k], ZERO)), eq(mk("m:dim", q.c[k], ZERO), C(nd))])
            c = r.c[k]
            cs = []
            for d in dims:
                n = 1
                for x in d:
                    n *= x
                w = ["["] + seq([("value", i) for i in range(n)]) + ["]"]
                cs.append(("a view of %s" % "x".join(map(str, d)), looker(c, n, d), w))

            def only(x):
                return [y for y in x if not isinstance(y, str) and y[0] == "value"]
            def shapes(t, ty, env):
                if t.op == "m:shape" or t.op == "m:dim":
                    return ("shape", 0)
                return value_at(c)(t, ty, env)
            compare(R, key, r, c, cs, STRUCT, norm=squash if nd < 3 else only, value=shapes)


WIDE = {"char": ("char",), "int": ("int", "long"), "long": ("long",), "float": ("float", "double"), "double": ("double",),
        "cfloat": ("cfloat", "cdouble"), "cdouble": ("cdouble",)}
NARROW = {"long": ("int", "short", "char"), "int": ("short", "char"), "double": ("float", "int", "long"), "float": ("int", "long"),
          "cdouble": ("double", "float"), "cfloat": ("float",)}


# ------------------------------------------------------------------ reader
def chrs(t):
    return {x for x in subterms(t) if x.op == "chr"}


class Reader:
    def __init__(self, R, P, fn):
        self.R, self.P = R, P
        sig = sig_args(P.dem(fn.name))
        self.k = 1 if "istream" in sig[0] else 0
        self.r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=fn,
                     prep=lambda q: q.E.store(q.st, q.pol.pos_at(mk("strm", q.formals[1 - self.k])), 8, ZERO))
        self.s = mk("strm", self.r.formals[1 - self.k])
        self.where = where(self.r)

    def at(self, p):
        return mk("chr", self.s, p)

    def pos(self, o):
        """position of the stream at the end of a path"""
        return self.r.pol.pos(self.r.E, o.st, self.s)


def resolve(fs, m):
    """facts with what was peeked replaced by the characters"""
    return [subst(f, m) for f in fs]


def tab(fs, c, lo=EOF):
    """values of character c the conditions on it alone allow: (set, certain)"""
    mine = [f for f in fs if c in chrs(f)]
    r, sure = set(), True
    one = []
    for f in mine:
        if chrs(f) != {c}:
            sure = False
        else:
            one.append(f)
    for v in range(lo, 256):
        ok = True
        for f in one:
            x = truth(f, {c: v})
            if x is False:
                ok = False
                break
            if x is None:
                sure = False
        if ok:
            r.add(v)
    return r, sure


def posiv(L, s):
    """the loop's position: a value that grows in every iteration and says which character is looked at"""
    used = {p for f, b in L.bodies for x in list(f.all()) + [y for e in b if not isinstance(e, Loop) for y in (e.args or ()) if isinstance(y, T)]
            for c in chrs(x) if c.a[0] is s for p in subterms(c.a[1])}
    r = [t for t in L.ivs if t in used]
    return r[0] if len(r) == 1 else None


def plain_effects(evs):
    """events that keep or write something"""
    return [e for e in evs if isinstance(e, Loop) or e.kind == "JOIN" or e.kind == "var" and not e.name.startswith(("elem", "view")) or
            e.kind in ("out",) or e.kind == "io" and e.name == "value" or e.kind == "varstream"]


def skipping(L):
    return all(not plain_effects(b) for f, b in L.bodies)


def skip(rd, L, m):
    """(position iv, set skipped, certain) of a loop that only passes over characters"""
    p = posiv(L, rd.s)
    if p is None:
        cs = {t for t, c in m.items() if t in L.ivs}
        ps = {x for t in cs for x in subterms(m[t]) if x in L.ivs}
        p = ps.pop() if len(ps) == 1 else None
    if p is None:
        return None, set(), False
    i0, ns = L.ivs[p]
    acc, sure = set(), True
    for (f, b), n in zip(L.bodies, ns):
        if sub(n, p) is not ONE:
            return p, set(), False
        a, s = tab(resolve(f.all(), m), rd.at(p))
        acc |= a
        sure &= s
    return p, acc, sure


def first_char(rd, o, m):
    """(position term, table) of the first character that is not white space"""
    for e in o.events():
        if isinstance(e, Loop):
            if not skipping(e):
                return None, None, False
            p, acc, sure = skip(rd, e, m)
            if p is None:
                return None, None, False
            a, s = tab(resolve(o.facts.all(), m), rd.at(p))
            return p, a, s
        if e.kind == "io" and e.name == "value":
            break
    return None, None, False


def dispatch(rd):
    """{kind: [(outcome, position, peeked)]}"""
    r = {}
    for o in rd.r.outs:
        if o.kind != "ret":
            continue
        m = peeked(o.events())
        p, a, sure = first_char(rd, o, m)
        if p is None:
            kind = None
        else:
            kind = {frozenset([34]): "text", frozenset([91]): "array", frozenset([123]): "object"}.get(frozenset(a))
            if kind is None:
                kind = "word" if not a & {34, 91, 123} else "mixed"
        r.setdefault(kind, []).append((o, p, m, a))
    return r


def string_loop(rd, evs, facts, m, start, enc):
    """[(verdict, message)] for the loop that reads a text; start: position after the
    opening quote; evs, facts: the path it is on, after it"""
    out = []
    ls = [e for e in evs if isinstance(e, Loop) and not skipping(e)]
    if len(ls) != 1:
        return [(None, "not one loop reads the characters")], None
    L = ls[0]
    t = posiv(L, rd.s)
    if t is None:
        return [(None, "position not known")], None
    i0, ns = L.ivs[t]
    if any(x in L.ivs and x is not t for f in [facts] + [f for f, b in L.bodies] for y in f.all() for x in subterms(y)):
        return [(None, "an iteration depends on more than its position")], None
    d = facts.decide(eq(i0, start))
    if d is not True:
        c0 = sub(i0, start)
        out.append((False if is_c(c0) and c0 is not ZERO else None, "the text is read from %s characters after the opening quote" % show(c0)))
    one, two = {}, []
    dest = None
    for (f, b), n in zip(L.bodies, ns):
        k = sub(n, t)
        if not is_c(k) or not 1 <= k.a[0] <= 2:
            return out + [(None, "an iteration reads %s characters" % show(k))], None
        k = k.a[0]
        fs = resolve(f.all(), m)
        kept = []
        for e in plain_effects(b):
            if isinstance(e, Loop) or e.kind != "var" or e.name not in ("push", "append"):
                return out + [(None, "%s while reading characters" % (e if not isinstance(e, Loop) else "a loop"))], None
            x = e.args[1]
            if e.name == "append" or x.op != "num":
                return out + [(None, "keeps %s" % show(x)[:80])], None
            kept.append(subst(x.a[1], m))
            dest = e.args[0]
        c = [rd.at(add(t, C(j))) for j in range(k)]
        tb = [tab(fs, x) for x in c]
        if not all(s for a, s in tb):
            return out + [(None, "conditions of an iteration")], None
        if k == 1:
            for v in tb[0][0]:
                one.setdefault(v, []).append([bval(x, {c[0]: v}) for x in kept])
        else:
            two.append((tb[0][0], tb[1][0], lambda a, b_, c=c, kept=kept: [bval(x, {c[0]: a, c[1]: b_}) for x in kept]))
    end, sure = tab(resolve(facts.all(), m), rd.at(t))
    if not sure:
        return out + [(None, "where the text ends")], None

    def u(l):
        return [None if x is None else x & 255 for x in l]
    # read back what is written
    for b in range(256):
        e = enc.get(b) or ([92, b] if b in (34, 92) else [b])
        if len(e) == 1:
            if e[0] in end:
                out.append((False, "%s ends the text" % nm(b)))
                continue
            got = one.get(e[0], [])
        elif len(e) == 2:
            if e[0] in one or e[0] in end:
                got = one.get(e[0], [[]])
            else:
                got = [g(e[0], e[1]) for A, B, g in two if e[0] in A and e[1] in B]
        else:
            out.append((None, "%s is written as %d characters" % (nm(b), len(e))))
            continue
        got = [u(x) for x in got]
        if not got:
            out.append((False, "a text with %s, written as %s, is not read back" % (nm(b), "".join(map(chr, e)) if b < 127 else e)))
        elif any(None in x for x in got):
            out.append((None, "what is kept for %s" % nm(b)))
        else:
            out.append((all(x == [b] for x in got), "%s, written as %s, is read as %s" % (
                nm(b), "".join(map(chr, e)) if b < 127 else e, [x for x in got if x != [b]])))
    for v, l in one.items():
        if v == EOF or v == 92:
            continue
        for x in l:
            x = u(x)
            out.append((None if None in x else x == [v], "%s is read as %s" % (nm(v), x)))
    for A, B, g in two:
        if A == {92}:
            for b in B:
                if b in JSON_ESC:
                    x = u(g(92, b))
                    out.append((None if None in x else x == [JSON_ESC[b]], "\\%s is read as %s" % (chr(b), x)))
    out.append((end <= {34}, "a text ends at %s" % some(end - {34, EOF}) if end - {34, EOF} else "a text ends where the input ends"))
    return out, (t, dest)


def settle(R, key, l, w, rule):
    bad = [x for x in l if x[0] is False]
    und = [x for x in l if x[0] is None]
    R.ob(key, False if bad else None if und or not l else True, (bad or und or [(0, "nothing to check")])[0][1] if bad or und or not l else "", w, rule)


def reader(R, P, enc):
    fn = op(P, ">>", "istream")
    if fn is None:
        raise Vanished("operator>>(istream, var)")
    rd = Reader(R, P, fn)
    if rd.r.E.warn:
        return R.ob("read", None, "; ".join(sorted(rd.r.E.warn))[:200], rd.where, READ)
    D = dispatch(rd)
    if None in D or "mixed" in D:
        R.ob("read:kinds", None, "first character not known on some path", rd.where, READ)
    # white space between values
    with R.guard("read:space", READ):
        l = []
        for k, v in D.items():
            for o, p, m, a in v:
                for L in walk_loops(o.events()):
                    if skipping(L) and all(not any(isinstance(x, Loop) for x in b) for f, b in L.bodies):
                        q, acc, sure = skip(rd, L, m)
                        if q is None or not sure:
                            l.append((None, "a loop that passes over characters"))
                        else:
                            l.append((acc <= bytem.WS, "%s is passed over between values" % some(acc - bytem.WS)))
                            l.append(({9, 10, 13, 32} <= acc, "%s before a value is not passed over" % some({9, 10, 13, 32} - acc)))
        settle(R, "read:space", l, rd.where, READ)
    for kind in "text", "array", "object", "word":
        with R.guard("read:" + kind, READ):
            if kind not in D:
                R.ob("read:" + kind, None, "no path", rd.where, READ)
                continue
            l = []
            for o, p, m, a in D[kind]:
                l += globals()["read_" + kind](rd, o, p, m, enc)
            settle(R, "read:" + kind, l, rd.where, WORDS if kind == "word" else READ)


def after(rd, o, p, what):
    q = sub(rd.pos(o), p)
    return (True if q is ONE else False if is_c(q) else None, "%s characters are taken from %s on" % (show(q), what))


def stored(rd, o, dest, what):
    c = rd.r.pol.content(rd.r.E, o.st, rd.r.formals[rd.k])
    return (True if c is dest else None, "%s is not what is returned" % what)


def read_text(rd, o, p, m, enc):
    l, x = string_loop(rd, o.events(), o.facts, m, add(p, ONE), enc)
    if x:
        l.append(after(rd, o, x[0], "the closing quote"))
        l.append(stored(rd, o, x[1], "the text"))
    return l


def main_loop(rd, o):
    ls = [e for e in o.events() if isinstance(e, Loop) and not skipping(e)]
    return ls[0] if len(ls) == 1 else None


def last_skip(rd, evs, m):
    """position of the last loop over white space on this path"""
    r = None
    for e in evs:
        if isinstance(e, Loop) and skipping(e):
            r = skip(rd, e, m)[0]
    return r


def values(evs):
    return [e for e in evs if not isinstance(e, Loop) and e.kind == "io" and e.name == "value"]


def body_loops(rd, L, m):
    """per iteration: (facts, events, position of the character it starts with, table)"""
    for f, b in L.bodies:
        q = last_skip(rd, b, m)
        if q is None:
            yield f, b, None, None, False
        else:
            a, s = tab(resolve(f.all(), m), rd.at(q))
            yield f, b, q, a, s


def next_pos(rd, L, k):
    """position after iteration k, in terms of what the iteration read"""
    for t, (i0, ns) in L.ivs.items():
        if ns and any(x.op == "posv" for n in ns for x in subterms(n)) or is_c(sub(i0, i0)) and any(c.a[1] is t for f, b in L.bodies for y in walk_loops(b)
                                                                                                for v, (j, nn) in y.ivs.items() for c in chrs(j)):
            return t, ns[k]
    return None, None


def read_array(rd, o, p, m, enc):
    L = main_loop(rd, o)
    if L is None:
        return [(None, "not one loop reads the elements")]
    l = []
    dest = None
    for k, (f, b, q, a, s) in enumerate(body_loops(rd, L, m)):
        if q is None or not s:
            l.append((None, "first character of an element"))
            continue
        vs = values(b)
        t, n = next_pos(rd, L, k)
        if not vs:
            eff = [e for e in plain_effects(b) if not (isinstance(e, Loop) and skipping(e))]
            l.append((None if eff else True, "effect without a value"))
            l.append((False if a & STARTS else a == {44} or None, "%s in an array is passed over" % some(a - {44})))
            if n is not None:
                d = sub(n, q)
                l.append((d is ONE if is_c(d) else None, "%s characters are taken for a comma" % show(d)))
            continue
        if len(vs) > 1:
            l.append((None, "several values in one iteration"))
            continue
        v, at = vs[0].args[2], vs[0].args[3]
        d = sub(at, q)
        l.append((d is ZERO if is_c(d) else None, "%s characters of an element are lost" % show(d)))
        l.append((False if a & {44, 93} else True, "%s is taken for an element" % some(a & {44, 93})))
        ps = [e for e in b if not isinstance(e, Loop) and e.kind == "var" and e.name == "push" and e.args[1] is v]
        others = [e for e in b if not isinstance(e, Loop) and e.kind == "var" and e not in ps and not e.name.startswith(("elem", "assign"))]
        if len(ps) == 1 and not others:
            l.append(typed(o, f, b, ps[0], v, at))
        if others:
            l.append((None, str(others[0])[:100]))
        elif len(ps) > 1:
            l.append((False, "an element is kept %d times" % len(ps)))
        elif not ps:
            l.append((False if not [e for e in plain_effects(b) if isinstance(e, Loop) and not skipping(e) or not isinstance(e, Loop) and e.kind in ("JOIN", "call")]
                      and not any(v in subterms(x) for e in b if not isinstance(e, Loop) and e.kind == "var" and e.name != "assign" for x in e.args) else None,
                      "an element that is read is not kept"))
    q = last_skip(rd, o.events(), m)
    if q is None:
        l.append((None, "where the array ends"))
    else:
        a, s = tab(resolve(o.facts.all(), m), rd.at(q))
        l.append((a <= {93} if s else None, "an array ends at %s" % some(a - {93})))
        l.append(after(rd, o, q, "the closing bracket"))
    i0 = [i0 for t, (i0, ns) in L.ivs.items() if next_pos(rd, L, 0)[0] is t]
    if i0:
        d = sub(i0[0], p)
        l.append((d is ONE if is_c(d) else None, "the elements are read from %s characters after the opening bracket" % show(d)))
    return l


def typed(o, f, b, push, v, at):
    """an element of another type is not cast to that of the array: the array is made one of vars first"""
    arr = push.args[0]
    loops = [e for e in b if isinstance(e, Loop) and not skipping(e) and any(x.kind == "var" and not x.name.startswith("elem.") for x in walk([e]))]
    if loops:
        return rebuilt(f, loops, arr)
    about = [x for x in f.all() if any(y.op in ("m:atype", "m:type", "m:defined", "m:heap", "m:size", "m:==", "m:!=") and (y.a[0] is arr or y.a[0] is v) for y in subterms(x))]
    for x in about:
        if x.op == "not" and x.a[0].op == "bool" and x.a[0].a[0].op == "m:defined" and x.a[0].a[0].a[0] is arr:
            return True, ""
        if x.op == "eq0" and any(y.op == "m:atype" and y.a[0] is arr for y in subterms(x)):
            d = [y for y in subterms(x) if y.op in ("m:atype", "m:type")]
            if len(d) == 1 and o.facts is not None and f.decide(eq(d[0], C(8))) is True or any(y.op == "m:type" and y.a[0] is v for y in d):
                return True, ""
    other = [e for e in walk(o.events()) if e.kind == "var" and e.name not in ("push", "assign") and not e.name.startswith("elem") and e.args and e.args[0] is arr]
    differs = {"vars": False, "element": False}
    for a, val in f.atoms.items():
        if val is False and a.op == "eq0":
            d = [y for y in subterms(a) if y.op in ("m:atype", "m:type")]
            if any(y.op == "m:atype" and y.a[0] is arr for y in d):
                if len(d) == 1 and f.decide(eq(d[0], C(8))) is False:
                    differs["vars"] = True
                elif len(d) == 2 and any(y.op == "m:type" and y.a[0] is v for y in d) and is_c(sub(a.a[0], sub(d[0], d[1]))) | is_c(sub(a.a[0], sub(d[1], d[0]))):
                    differs["element"] = True
    if all(differs.values()) and not other:
        return False, "an element of another type than that of the array before it is cast to that type"
    if about:
        return None, "which elements are kept in an array of their own type"
    return (None if other else False), "an element that is not of the type of the array before it is cast to that type"


def rebuilt(f, loops, arr):
    if len(loops) != 1:
        return None, "several loops"
    q = closed(loops[0], f)
    if q is None or len(loops[0].bodies) != 1:
        return None, "the array is rebuilt"
    b = loops[0].bodies[0][1]
    w = [e for e in b if not isinstance(e, Loop) and e.kind == "var" and e.name in ("assign_elem", "push") and e.args[1].op == "elem"]
    if len(w) != 1 or w[0].name == "assign_elem" and w[0].args[0].op != "elem":
        return None, "the array is rebuilt"
    src = w[0].args[1]
    old, j = src.a[0], q.at(src.a[1])
    # the elements, each at its place
    n = [x for x in set(subterms(q.n)) if x.op == "m:size" and x.a[0] is old]
    d = sub(q.n, n[0]) if n else q.n
    if not n or not is_c(d):
        return None, "how many elements are taken over"
    k = q.at(w[0].args[0].a[1]) if w[0].name == "assign_elem" else q.k
    for t in (sub(j, q.k), sub(k, q.k), d):
        if not is_c(t):
            return None, "which elements are taken over"
    if d is not ZERO or sub(j, q.k) is not ZERO or sub(k, q.k) is not ZERO:
        return False, "when an array becomes one of vars, element k+%s becomes element k+%s for k < size%s" % (show(sub(j, q.k)), show(sub(k, q.k)), "" if d is ZERO else " + " + show(d))
    return True, ""


STARTS = {ord(x) for x in '"[{-0123456789tfn'}


def read_object(rd, o, p, m, enc):
    L = main_loop(rd, o)
    if L is None:
        return [(None, "not one loop reads the pairs")]
    l = []
    keyvar = None
    seen = set()
    for k, (f, b, q, a, s) in enumerate(body_loops(rd, L, m)):
        if q is None or not s:
            l.append((None, "first character of a part"))
            continue
        vs = values(b)
        t, n = next_pos(rd, L, k)
        if vs:
            if len(vs) > 1:
                l.append((None, "several values in one iteration"))
                continue
            v, at = vs[0].args[2], vs[0].args[3]
            if a == {58}:
                d = sub(at, add(q, ONE))
                l.append((d is ZERO if is_c(d) else None, "the value is read from %s characters after the colon" % show(d)))
                st = [e for e in b if not isinstance(e, Loop) and e.kind == "var" and e.name == "assign_elem" and e.args[1] is v]
                ks = {e.args[0].a[1] for e in st if e.args[0].op == "kelem"}
                l.append((len(ks) == 1 or (False if not any(v in subterms(x) for e in b if not isinstance(e, Loop) and e.kind in ("var", "call")
                                                          for x in e.args) else None), "a value that is read is not kept under its key"))
                if len(ks) == 1:
                    keyvar = ks.pop()
                seen.add("value")
            else:
                l.append((False if a & {44, 125, 34} and len(a) < 5 else None, "a value after %s" % some(a)))
            continue
        if a == {34}:
            sl, x = string_loop(rd, b, f, m, add(q, ONE), enc)
            l += sl
            seen.add("key")
            if x and n is not None:
                d = sub(n, x[0])
                l.append((d is ONE if is_c(d) else None, "%s characters are taken for the closing quote" % show(d)))
            if x:
                ks = [e for e in b if not isinstance(e, Loop) and e.kind == "var" and e.name == "assign" and e.args[1] is x[1]]
                if not ks:
                    l.append((None, "key not kept"))
                seen.update(("into", e.args[0]) for e in ks)
        else:
            l.append((False if a & STARTS or 125 in a else a == {44} or None, "%s in an object is passed over" % some(a - {44})))
            if n is not None:
                d = sub(n, q)
                l.append((d is ONE if is_c(d) else None, "%s characters are taken for a comma" % show(d)))
    if not {"key", "value"} <= seen:
        l.append((None, "keys and values"))
    if keyvar is not None and ("into", keyvar) not in seen:
        l.append((None, "key used is not the key read"))
    q = last_skip(rd, o.events(), m)
    if q is None:
        l.append((None, "where the object ends"))
    else:
        a, s = tab(resolve(o.facts.all(), m), rd.at(q))
        l.append((a <= {125} if s else None, "an object ends at %s" % some(a - {125})))
        l.append(after(rd, o, q, "the closing brace"))
    return l


NUMBER = {ord(x) for x in "+-.0123456789eE"}
LETTERS = {ord(x) for x in "truefalsnl"}
STOPS = {EOF, 9, 10, 13, 32, 44, 93, 125}


def from_start(rd, o, e, dest):
    """the read e of a number begins with the first character of the word"""
    st = e.args[0]
    at, why = None, "where reading of the number begins"
    num = None
    for x in o.events():
        if x is e:
            break
        if isinstance(x, Loop):
            if any(st in y.args for f, b in x.bodies for y in b if not isinstance(y, Loop) and y.kind == "io") or any(isinstance(y, Loop) for f, b in x.bodies for y in b):
                at = None
            continue
        if x.kind == "varstream" and mk("strm", *rd.r.E.split(x.args[0])) is st:
            at = ZERO if len(x.args) > 1 and x.args[1] is dest else None
        elif x.kind == "call" and "fpos" in x.name and len(x.args) > 1:
            num = x.args
        elif x.kind == "io" and x.args[0] is st:
            if x.name == "?seekg":
                a = x.args[2:]
                if len(a) == 2 and all(y.op == "ld" for y in a) and num and a[0].a[0] is num[0]:
                    at = num[1]
                elif len(a) == 2 and is_c(a[1]):
                    at = a[0] if a[1] is ZERO else None
                else:
                    at = None
            elif x.name == "read":
                went = len(x.args) > 2 and o.facts.decide(mk("bool", mk("sfail", st, x.args[1]))) is False
                at, why = None, "where reading of the number begins"
                if went:
                    at, why = ONE, "a number is read from where an earlier attempt ended"
            elif x.name not in ("clear", "init", "setstate"):
                at = None
    if at is not None and is_c(at) and at is not ZERO and at is not ONE:
        why = "a number is read from character %s of the word on" % show(at)
    elif at is ONE and not why.startswith("a number"):
        why = "a number is read from character 1 of the word on"
    return (None if at is None or not is_c(at) else at is ZERO, why)


def read_word(rd, o, p, m, enc):
    ls = [e for e in o.events() if isinstance(e, Loop) and not skipping(e)]
    if not ls and rd.pos(o) is p:
        q, a, sure = first_char(rd, o, m)
        other = any(not isinstance(e, Loop) and e.kind in ("io", "call") and e.name not in ("read", "isspace", "value") for e in o.events())
        if q is p and sure and not other and a & (NUMBER | LETTERS):
            return [(False, "of a word nothing is read")]
    if len(ls) != 1:
        return [(None, "not one loop reads the characters")]
    L = ls[0]
    t = posiv(L, rd.s)
    if t is None:
        return [(None, "position not known")]
    l = []
    i0, ns = L.ivs[t]
    d = sub(i0, p)
    l.append((d is ZERO if is_c(d) else None, "a word is read from %s characters after its beginning" % show(d)))
    dest = None
    acc = set()
    for (f, b), n in zip(L.bodies, ns):
        if sub(n, t) is not ONE:
            return l + [(None, "an iteration reads %s characters" % show(sub(n, t)))]
        a, s = tab(resolve(f.all(), m), rd.at(t))
        if not s:
            return l + [(None, "conditions of an iteration")]
        acc |= a
        eff = plain_effects(b)
        if len(eff) != 1 or isinstance(eff[0], Loop) or eff[0].kind != "var" or eff[0].name != "push" or eff[0].args[1].op != "num":
            l.append((False if not eff else None, "a character of a word is not kept"))
            continue
        dest = eff[0].args[0]
        x = subst(eff[0].args[1].a[1], m)
        for v in a:
            if v >= 0:
                y = bval(x, {rd.at(t): v})
                l.append((None if y is None else y & 255 == v, "%s is read as %s" % (nm(v), y)))
    l.append((not acc & STOPS, "%s is taken for a part of a number or word" % (some(acc & STOPS - {EOF}) if acc & STOPS - {EOF} else "the end of the input")))
    l.append((NUMBER | LETTERS <= acc, "%s ends a number or word" % some((NUMBER | LETTERS) - acc)))
    d = sub(rd.pos(o), t)
    l.append((d is ZERO if is_c(d) else None, "%s characters after a word are taken" % show(d)))
    # what the word means
    c = rd.r.pol.content(rd.r.E, o.st, rd.r.formals[rd.k])
    word = None
    for f in o.facts.all():
        g = f.a[0] if f.op == "bool" else None
        if g is not None and g.op == "m:==" and dest in g.a[:2]:
            x = g.a[1] if g.a[0] is dest else g.a[0]
            if x.op == "str":
                s = cstring(rd.P, x.a[0])
                if s is not None:
                    word = s.decode("latin-1").split("\0")[0]
    if word is not None:
        want = {"true": 1, "false": 0, "null": None}
        if word not in want:
            l.append((None, "the word %s" % word))
        elif c.op == "num" and is_c(c.a[1]):
            l.append((want[word] is not None and c.a[1].a[0] == want[word], "%s is read as %s" % (word, show(c))))
        elif c.op == "nil":
            l.append((word == "null", "%s is read as nil" % word))
        else:
            l.append((None, "%s is read as %s" % (word, show(c)[:60])))
        return l
    # a number: converted by a stream over the whole word
    if c.op == "nil" or c.op == "num" and is_c(c.a[1]):
        l.append((False, "any other word is read as %s" % show(c)))
        return l
    if c.op != "num" or c.a[1].op != "ld":
        l.append((None, "a number is read as %s" % show(c)[:80]))
        return l
    rds = [e for e in o.events() if not isinstance(e, Loop) and e.kind == "io" and e.name == "read" and len(e.args) > 2 and e.args[2] is c.a[1].a[0]]
    if not rds:
        l.append((None, "where the number comes from"))
        return l
    e = rds[-1]
    st = e.args[0]
    l.append(from_start(rd, o, e, dest))
    fl, ef = mk("sfail", st, e.args[1]), mk("seof", st, e.args[1])
    bad = o.facts.decide(mk("bool", fl))
    l.append((True if bad is False else False if bad is True else None, "a number that was not read is used"))
    eof = o.facts.decide(mk("bool", ef))
    if eof is None:
        other = any(st in subterms(f) and not any(x.op == "sfail" for x in subterms(f)) for f in o.facts.all())
        eof = None if other else False
    l.append((eof, "a word that only begins with a number is read as that number"))
    return l


def run(R):
    R.rule(VAL, "operator<<: a single value is written by value in its own type, nil as null")
    R.rule(STRUCT, "operator<<: every element once, in order, between the brackets of its kind, with a comma between neighbours and a colon after a key")
    R.rule(TEXT, "operator<<: for each of the 256 characters, itself or its JSON escape, between double quotes")
    P = R.program(UNIT)
    enc = {}
    writer(R, P, enc)
    for mod in P.mods:
        for g in mod.globals:
            x = mod.cstring(g)
            if x is not None:
                bytem.STRINGS[g] = x
    R.rule(READ, "operator>>: white space only between values; each way of reading takes the characters it stands for, keeps them once, in order, under their key, and ends where the text ends")
    R.rule(WORDS, "operator>>: a word ends before white space or a delimiter, which is not taken; true, false and null are 1, 0 and nil; anything else is a number that takes the whole word")
    reader(R, P, enc)
