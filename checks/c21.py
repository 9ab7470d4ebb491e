"""C21: varstream, the text of a var as a stream

The functions of varbuf that the iostream library calls are found in its
virtual table and interpreted on all paths; what they return, what they add to
the text and where they leave the position are compared with the protocol of
std::streambuf for a text of the size the path allows."""
from fmtm import *
from fcheck import *
import bytem
from report import Vanished

MIN_DECIDED = 2
UNIT = "lube/stream.cpp"
READ = "characters are read in order, once"
WRITE = "characters are written at the end"
SEEK = "a position outside the text is refused"
MAKE = "the stream is the text it is made of"
VTAB = "N6libube6varbufE"


cstring = bytem.cstring
bval = bytem.bval


class BufPolicy(FmtPolicy):
    def on_store(self, E, st, ins, addr, size, val):
        # what is once stored in the object may be forgotten again
        b, off = E.split(addr)
        if b is arg(0) and is_c(off):
            self.__dict__.setdefault("stored", set()).add((off.a[0], size))
        FmtPolicy.on_store(self, E, st, ins, addr, size, val)

    def inline(self, name, dem):
        if short(dem).startswith(("std::char_traits<char>::", "std::fpos<__mbstate_t>::")):
            return True
        return FmtPolicy.inline(self, name, dem)

    def special(self, E, st, ins, name, dem, s, args):
        if s.startswith(("std::char_traits<char>::to_int_type", "std::char_traits<char>::not_eof", "std::char_traits<char>::to_char_type")) and name in self.prog.defs:
            return None
        return FmtPolicy.special(self, E, st, ins, name, dem, s, args)


def addr(x):
    b, o = x.a[0], x.a[1]
    return add(b, o if isinstance(o, T) else C(o))


def at(x, this):
    """offset in the object of an address, or None"""
    d = sub(x, this)
    return d.a[0] if is_c(d) else None


class Model:
    """a text of n characters and a position in it"""
    def __init__(self, this, n, i, byte, given):
        self.this, self.n, self.i, self.byte, self.given = this, n, i, byte, given

    def text(self, t):
        return t.op == "v0" and at(t.a[0], self.this) is not None

    def char(self, k):
        """characters are told apart by their place; byte is the one looked at"""
        if not 0 <= k < self.n:
            return None
        return (self.byte + 7 * (k - self.i)) % 256

    def look(self, t, env):
        if t in self.given:
            return self.given[t]
        if t.op == "ld" and len(t.a) > 2:
            b = addr(t)
            k = at(b, self.this)
            if k is not None and t.a[2] in (4, 8):
                return self.i
            if t.a[2] == 1:
                for p in lin(b)[1]:
                    if p.op in ("m:ptr", "m:str") and self.text(p.a[0]):
                        j = bval(p.a[2], env) if p.op == "m:ptr" and len(p.a) > 2 and isinstance(p.a[2], T) and p.a[2].op != "T" else 0
                        d = bval(sub(b, p), env)
                        if j is not None and d is not None:
                            return self.char(j + d)
            return None
        if t.op == "m:size" and self.text(t.a[0]):
            return self.n
        if t.op in ("m:==", "m:!=", "m:<", "m:>", "m:<=", "m:>=") and len(t.a) > 1:
            v = []
            for x in t.a[:2]:
                if x.op in ("elem", "m:at") and self.text(x.a[0]):
                    k = bval(x.a[1], env)
                    c = self.char(k) if k is not None else None
                    v.append(None if c is None else c - 256 if c > 127 else c)
                elif x.op == "num":
                    v.append(bval(x.a[1], env))
                else:
                    v.append(None)
            if None in v:
                return None
            a, b = v
            return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[t.op[2:]])
        if t.op in ("m:get", "m:cast", "cast") and t.a[1].op == "T" and t.a[0].op in ("elem", "m:at"):
            e = t.a[0]
            k = bval(e.a[1], env)
            if self.text(e.a[0]) and k is not None:
                v = self.char(k)
                return v if v is None or t.a[1].a[0] == "char" else v - 256 if v > 127 else v
        return None


CHANGES = ("push", "pop", "shift", "unshift", "insert", "remove", "resize", "clear", "assign", "presize", "append", "assign_elem")


def step(r, this, n, i, byte, arg):
    """(returned, position after, [changes]) of the function for this text, or (None, why)"""
    given = {r.formals[0]: arg} if arg is not None and r.formals else {}
    M = Model(this, n, i, byte, given)
    env = Env(M.look)
    hit = None
    for o in r.outs:
        fs = [truth(f, env) for f in o.facts.all()]
        if False in fs:
            continue
        if None in fs:
            return None, "the condition %s" % show([f for f in o.facts.all() if truth(f, env) is None][0])[:80]
        if hit is not None:
            return None, "two paths"
        hit = o
    if hit is None:
        return None, "no path"
    if hit.kind != "ret":
        return ("throws", None, [])
    ch = []
    for e in walk(hit.events()):
        if isinstance(e, Loop):
            return None, "a loop"
        if e.kind == "read" or e.kind == "var" and e.name.startswith("elem."):
            if e.kind == "var" and M.text(e.args[0]) and len(e.args) > 1:
                k = bval(e.args[1], env)
                if k is not None and not 0 <= k < n:
                    return "throws", None, []        # there is no such character
            continue
        if e.kind == "var" and e.name in CHANGES:
            if not M.text(e.args[0]):
                return None, str(e)[:80]
            v = e.args[1] if len(e.args) > 1 else None
            if e.name == "push" and v is not None and v.op == "num":
                x = bval(v.a[1], env)
                if x is None:
                    return None, "pushes %s" % show(v)[:60]
                ch.append(("push", x % 256))
            else:
                ch.append((e.name, None))
            continue
        if e.kind in ("call", "var", "store", "method", "JOIN", "io") or e.kind == "throws":
            return None, str(e)[:80]
    pos = i
    cells = hit.st.mem.get(this, {})
    for off, (sz, v) in cells.items():
        k = off.a[0] if is_c(off) else None
        if k is None or sz not in (4, 8):
            return None, "writes to the object"
        pos = bval(v, env)
        if pos is None:
            return None, "the position becomes %s" % show(v)[:60]
    v = hit.val
    if v is not None and v.op == "agg":
        v = v.a[0]
    x = bval(v, env) if v is not None else None
    if x is None:
        return None, "returns %s" % (show(v)[:60] if v is not None else "nothing")
    return x, pos, ch


def try_all(R, key, r, this, cases, want, rule):
    """cases [(n, i, byte, arg)]; want(case) -> (returned or predicate, position, changes, what)"""
    und = None
    for c in cases:
        got = step(r, this, *c)
        if len(got) == 2:
            und = got[1]
            continue
        ret, pos, ch = got
        w, wp, wc, what = want(*c)
        where_ = "in a text of %d characters, at %d%s" % (c[0], c[1], "" if c[3] is None else ", given %d" % c[3])
        if ret == "throws":
            return R.ob(key, False, "%s: throws" % where_, where(r), rule)
        if ch != wc:
            return R.ob(key, False, "%s: %s" % (where_, "the text is changed by %s" % ch[0][0] if ch and not wc else "written are %s, not %s" % (ch, wc)), where(r), rule)
        if not (w(ret) if callable(w) else ret == w):
            return R.ob(key, False, "%s: returns %s, %s" % (where_, ret, what), where(r), rule)
        if pos != wp:
            return R.ob(key, False, "%s: the position becomes %s, not %s" % (where_, pos, wp), where(r), rule)
    R.ob(key, None if und else True, und or "", where(r), rule)


BYTES = list(range(256))
SHAPES = [(n, i) for n in range(4) for i in range(n + 1)]


def run(R):
    R.rule(READ, "underflow, uflow and pbackfail of varbuf: for a text of every size, at every position and for each of 256 characters, the character at the position (as 0 to 255) or end of file, the position moved by one, the text unchanged")
    R.rule(WRITE, "overflow: the character given, each of 256, is added at the end of the text once, and success returned; nothing for end of file")
    R.rule(SEEK, "seekpos: a position from 0 to the size is taken, any other refused and the position left as it was")
    R.rule(MAKE, "the constructors: the text is the array given, or empty; the position is its start; the stream uses the buffer in it and has no other")
    P = R.program(UNIT)
    vt = P.vtables().get(VTAB)
    if not vt:
        raise Vanished("no virtual table for libube::varbuf")
    fns = {}
    for f in vt:
        s = short(P.dem(f)) if f else ""
        if s.startswith("libube::varbuf::") and "~" not in s:
            fns[s.split("::")[-1]] = f
    unknown = [k for k in fns if k not in ("overflow", "uflow", "underflow", "pbackfail", "seekpos")]

    def one(name, rule, cases, want, miss):
        with R.guard(name, rule):
            if unknown:
                R.ob(name, None, "varbuf also defines %s" % unknown[0], "", rule)
                return
            f = P.defs.get(fns.get(name))
            if f is None:
                R.ob(name, None if name in fns else False, miss, "libube::varbuf", rule)
                return
            r = Run(R, P, None, None, 0, policy=BufPolicy, fn=f)
            if r.E.warn:
                R.ob(name, None, sorted(r.E.warn)[0][:100], where(r), rule)
                return
            try_all(R, name, r, arg(0), cases(r), want, rule)

    reads = [(n, i, b, None) for n, i in SHAPES for b in (BYTES if (n, i) in ((1, 0), (2, 1)) else (0, 97, 255))]

    def at_pos(n, i, b, a):
        return b if i < n else -1
    one("underflow", READ, lambda r: reads, lambda n, i, b, a: (at_pos(n, i, b, a), i, [], "not the character at the position"), "reading always reports the end of the text")
    one("uflow", READ, lambda r: reads, lambda n, i, b, a: (at_pos(n, i, b, a), i + 1 if i < n else i, [], "not the character at the position"),
        "reading a character does not pass it: there is no buffer for the default of uflow to move in")

    def back(n, i, b, a):
        if i == 0:
            return -1, 0, [], "though there is nothing before it"
        c = (b - 7) % 256
        if a == -1:
            return c, i - 1, [], "not the character before the position"
        if a == c:
            return (lambda x: x != -1), i - 1, [], "the character cannot be put back"
        return -1, i, [], "although another character is put back"
    one("pbackfail", READ, lambda r: [(n, i, b, a) for n, i in SHAPES for b in (0, 97, 134, 6) for a in (-1, (b - 7) % 256, (b - 8) % 256, b)],
        back, "a character cannot be put back")
    one("overflow", WRITE, lambda r: [(n, i, 97, a) for n, i in SHAPES for a in [-1] + (BYTES if (n, i) == (2, 1) else [0, 65, 255])],
        lambda n, i, b, a: ((lambda x: x != -1) if a >= 0 else (lambda x: True), i, [("push", a)] if a >= 0 else [], "which is failure"), "nothing can be written")
    one("seekpos", SEEK, lambda r: [(n, i, 97, a) for n, i in SHAPES for a in range(-2, n + 3)],
        lambda n, i, b, a: ((a, a, [], "not the position") if 0 <= a <= n else (-1, i, [], "which is not failure")), "a position cannot be sought")
    for cls in "varbuf", "varstream":
        with R.guard("make:" + cls, MAKE):
            make(R, P, cls)


def make(R, P, cls):
    key = "make:" + cls
    fn = [f for n, f in P.defs.items() if n.startswith("_ZN6libube%d%sC1E" % (len(cls), cls)) or short(P.dem(n)) == "libube::%s::%s" % (cls, cls) and "C1E" in n]
    fn = fn or [f for n, f in P.defs.items() if n.startswith("_ZN6libube%d%sC2E" % (len(cls), cls))]
    if not fn or cls == "varstream" and "C1E" not in fn[0].name:
        raise Vanished("no constructor of libube::%s" % cls)
    r = Run(R, P, None, None, 0, policy=BufPolicy, fn=fn[0])
    if len(r.formals) != 1:
        R.ob(key, None, "other arguments", where(r), MAKE)
        return
    v = r.c[0]
    l = []
    if r.E.warn:
        l.append((None, sorted(r.E.warn)[0][:100]))
    base_ = None
    for o in r.rets():
        evs = list(walk(o.events()))
        bb = [e for e in evs if e.kind == "call" and "basic_streambuf()" in str(e.name)]
        if len(bb) != 1:
            l.append((None, "the buffer"))
            continue
        B = bb[0].args[0]
        k = at(B, arg(0))
        d = o.facts.decide(mk("bool", mk("m:defined", v, ZERO)))
        tx = [(a[1], x) for a, x in o.st.aux.items() if isinstance(a, tuple) and a[0] == "v" and a[1] is not None and at(a[1], arg(0)) is not None]
        cont = [x for p, x in tx]
        last = cont[-1] if len(cont) == 1 else None
        while last is not None and last.op == "mut" and last.a[0].a == ("array",):
            last = last.a[1]               # the same text, as an array
        if d is True:
            l.append((None if last is None else True if last is v else False if last.op in ("str", "nil", "m:copy") else None, "the stream is not on the text given"))
            arr = [e for e in evs if e.kind == "var" and e.name == "array" and e.args[0] in (v, last)]
            l.append((True if arr else None, "the text is not made an array"))
        elif d is False:
            s = cstring(P, last.a[0]) if last is not None and last.op == "str" else None
            e_ = s.split(b"\0")[0] if s is not None else None
            l.append((None if e_ is None and not (last is not None and last is v) else e_ == b"", "a stream of nothing starts as %s" % (e_ if e_ is not None else "nil")))
        else:
            l.append((None, "defined or not"))
        cells = [(off, sz, x) for b, cs in o.st.mem.items() for off, (sz, x) in cs.items() if b is arg(0) and sz in (4, 8) and is_c(off) and off.a[0] > (k or 0) + 63]
        if not cells:
            l.append((False if cls == "varbuf" and not any(z in (4, 8) and f > (k or 0) + 63 for f, z in r.pol.__dict__.get("stored", ())) else None, "the position is not set"))
        for off, sz, x in cells:
            if is_c(x):
                l.append((x is ZERO, "the first position is %s" % show(x)))
            elif not x.op == "global":
                l.append((None, "the first position is %s" % show(x)))
        for e in evs:
            if e.kind == "call" and re.search("::set[pg]\\(", str(e.name)) and any(x is not ZERO for x in e.args[1:]):
                l.append((None, "the stream has a buffer"))
        if cls == "varstream":
            io = [e for e in evs if e.kind == "call" and ("basic_iostream(" in str(e.name) or "::rdbuf(" in str(e.name) or "basic_ios(" in str(e.name) or "::init(" in str(e.name))]
            bs = [e.args[-1] for e in io]
            l.append((True if B in bs else None if any(not is_c(x) for x in bs) or not io else False, "the stream is given no buffer"))
    bad = [x for x in l if x[0] is False]
    und = [x for x in l if x[0] is None]
    R.ob(key, False if bad else None if und or not l else True, (bad + und)[0][1] if bad or und else "", where(r), MAKE)
