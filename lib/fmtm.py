"""Formatted reading and writing: streams of characters with positions.

What is read from a stream is a sequence of characters chr(stream, position);
a peeked character is the one read next.  Writers are recorded as what they put
on the stream.  A function that is already being interpreted and works on a
stream reads or writes one value."""
from bytem import *


class FmtPolicy(ResPolicy):
    def pos_at(self, sd):
        a = mk("arg", "pos:" + show(sd))
        a.ptr = True
        return a

    def pos(self, E, st, sd):
        return E.load(st, self.pos_at(sd), 8)

    def setpos(self, E, st, sd, t):
        E.store(st, self.pos_at(sd), 8, t)

    def special(self, E, st, ins, name, dem, s, args):
        if name in E.stack and s.startswith("libube::") and re.search(r"[io]f?stream", dem):
            sig = sig_args(dem)
            off = len(args) - nparams(sig)
            k = [i for i, t in enumerate(sig) if "stream" in t]
            if len(k) == 1 and nparams(sig[:k[0]]) == k[0]:
                s2 = st.copy()
                sd = self.sid(E, args[off + k[0]])
                vs = [i for i, t in enumerate(sig) if "libube::var" in t]
                if re.search("of?stream", sig[k[0]]):
                    cs = tuple(self.content(E, st, args[off + i]) for i in vs)
                    r = args[off + k[0]] if ins.ty == "ptr" else None
                    if r is None and ins.ty != "void":
                        E.uid += 1
                        r = mk("wrote", E.uid, *cs)         # what it says about what it wrote
                    s2.emit(Ev("out", s, (args[off + k[0]],) + cs, r, ins, s2.facts))
                    self.io(E, s2, ins, "out", sd)
                    return self.thrower(E, st, ins, dem, [Outcome("ret", r, s2)])
                if re.search("if?stream", sig[k[0]]):
                    E.uid += 1
                    v = mk("jval", E.uid)
                    self.io(E, s2, ins, "value", sd, (v, self.pos(E, st, sd)))
                    self.setpos(E, s2, sd, mk("posv", E.uid))
                    if vs:
                        self.setc(s2, args[off + vs[0]], v)
                    elif off:
                        self.setc(s2, args[0], v)
                    return self.thrower(E, st, ins, dem, [Outcome("ret", args[off + k[0]] if ins.ty == "ptr" else None, s2)])
        if s.startswith("std::operator>>") and len(args) == 2:
            r = ResPolicy.special(self, E, st, ins, name, dem, s, args)
            for o in r or ():
                E.uid += 1
                self.setpos(E, o.st, self.sid(E, args[0]), mk("posv", E.uid))
            return r
        return ResPolicy.special(self, E, st, ins, name, dem, s, args)

    def stream(self, E, st, ins, name, dem, cls, meth, args):
        r = ResPolicy.stream(self, E, st, ins, name, dem, cls, meth, args)
        if r is not None and meth in ("put", "write"):
            for o in r:
                if o.kind == "ret":
                    o.st.emit(Ev("out", "std::ostream::%s(%s)" % (meth, "char" if meth == "put" else "char const*, long"), tuple(args), None, ins, o.st.facts))
        if r is None or meth not in ("get", "peek", "ignore", "unget", "putback", "read", "getline", "readsome", "operator>>", "seekg", "sync"):
            return r
        sd = self.sid(E, args[0])
        p = self.pos(E, st, sd)
        ch = mk("chr", sd, p)
        for o in r:
            if o.kind != "ret":
                continue
            if meth in ("get", "peek") and len(args) == 1:
                if o.val is not None:
                    o.val = ch
                if meth == "get":
                    self.setpos(E, o.st, sd, add(p, ONE))
            elif meth == "get" and len(args) == 2:
                E.store(o.st, args[1], 1, mk("trunc8", ch))
                self.setpos(E, o.st, sd, add(p, ONE))
            elif meth == "ignore" and len(args) <= 3 and (len(args) == 1 or args[1] is ONE):
                self.setpos(E, o.st, sd, add(p, ONE))
            elif meth == "unget":
                self.setpos(E, o.st, sd, sub(p, ONE))
            else:
                E.uid += 1
                self.setpos(E, o.st, sd, mk("posv", E.uid))
        return r


def peeked(events):
    """values carried through a loop that are always the character at the
    position of the stream: {value: character}"""
    m = {}
    for e in walk_loops(events):
        ps = [(t, i0, ns) for t, (i0, ns) in e.ivs.items()]
        for t, i0, ns in ps:
            for p, p0, pns in ps:
                if p is t:
                    continue
                f = form(i0, p0)
                if f is None or len(ns) != len(pns):
                    continue
                if all(f(pn) is n for n, pn in zip(ns, pns)):
                    m[t] = f(p)
    return m


def form(t, p):
    """t as a function of the position p"""
    cs = [x for x in subterms(t) if x.op == "chr" and x.a[1] is p]
    if len(cs) != 1:
        return None
    c = cs[0]
    return lambda q: subst(t, {c: mk("chr", c.a[0], q)})


def walk_loops(events):
    for e in events:
        if isinstance(e, Loop):
            yield e
            for f, b in e.bodies:
                yield from walk_loops(b)
        elif e.kind == "JOIN":
            for f, b in e.x:
                yield from walk_loops(b)


# ---------------------------------------------------------------- summaries at given sizes
class Unclear(Exception):
    pass


class Env(dict):
    """values of terms; look(t) gives those that follow from the sizes of what is written"""
    def __init__(self, look):
        dict.__init__(self)
        self.look = look

    def __contains__(self, t):
        return dict.__contains__(self, t) or self.look(t, self) is not None

    def __getitem__(self, t):
        return dict.__getitem__(self, t) if dict.__contains__(self, t) else self.look(t, self)


def truth(f, env):
    v = bval(f, env)
    return None if v is None else bool(v)


def instantiate(events, env, emit, known=frozenset(), limit=5000):
    """what the summary of a path emits for the sizes in env: emit(event, env)
    is called for every event in order; raises Unclear when the sizes do not
    decide which way a loop or an alternative goes"""
    for e in events:
        if isinstance(e, Loop):
            cur = {}
            for t, (i0, ns) in e.ivs.items():
                v = bval(i0, env)
                if v is not None:
                    cur[t] = v
            env.update(cur)
            own = set(e.ivs)
            n = 0
            while True:
                can = []
                for k, (f, b) in enumerate(e.bodies):
                    inner = {t for y in walk_loops(b) for t in y.ivs}
                    v, sure = True, True
                    for x in f.all():
                        if x in known and not own & set(subterms(x)) or inner & set(subterms(x)):
                            continue
                        y = truth(x, env)
                        if y is False:
                            v = False
                            break
                        if y is None:
                            sure = False
                    if v:
                        can.append((k, b, sure))
                if not can:
                    break
                if len(can) > 1 or not can[0][2]:
                    raise Unclear("loop")
                k, b, sure = can[0]
                instantiate(b, env, emit, known | set(e.bodies[k][0].all()), limit)
                nx = {}
                for t, (i0, ns) in e.ivs.items():
                    if len(ns) == len(e.bodies):
                        v = bval(ns[k], env)
                        if v is not None:
                            nx[t] = v
                for t in e.ivs:
                    dict.pop(env, t, None)
                env.update(nx)
                n += 1
                if n > limit:
                    raise Unclear("does not end")
        elif e.kind == "JOIN":
            can = []
            for f, b in e.x:
                v, sure = True, True
                for x in f.all():
                    if x in known:
                        continue
                    y = truth(x, env)
                    if y is False:
                        v = False
                        break
                    if y is None:
                        sure = False
                if v:
                    can.append((b, sure, set(f.all())))
            if len(can) != 1:
                if can and all(quiet(x[0]) for x in can):
                    continue
                raise Unclear("alternative")
            instantiate(can[0][0], env, emit, known | can[0][2], limit)
        else:
            emit(e, env)


def quiet(b):
    return not any(isinstance(e, Loop) or e.kind in ("out", "JOIN") for e in b)


def emitted(prog, o, look, given, value, envclass=Env):
    """tokens a path puts on the stream for these sizes: texts and what
    value(term, name, env) makes of everything else; None when the path is not
    the one taken.  given: conditions assumed from the start"""
    env = envclass(look)
    toks = []

    def text(s):
        if toks and isinstance(toks[-1], str):
            toks[-1] += s
        else:
            toks.append(s)

    def emit(e, env):
        if e.kind != "out":
            return
        if e.res is not None and e.res.op == "wrote":
            w = bval(e.res, env)
            if w is None:
                raise Unclear("whether %s wrote" % e.name[:60])
            if not w:
                return
        x = e.args[1:]
        if not x:
            return
        if len(x) > 1:
            raise Unclear("output of several values: %s" % e.name[:80])
        t = x[0]
        if t.op == "global":
            s = cstring(prog, t)
            if s is not None:
                return text(s.decode("latin-1").split("\0")[0])
            if "endl" in t.a[0]:
                return text("\n")
            if "flush" in t.a[0]:
                return
        ty = sig_args(e.name)[-1] if "(" in e.name else ""
        v = bval(t, env)
        if v is not None and ty in ("char", "signed char", "unsigned char"):
            return text(chr(v & 255))
        if t.op == "c" and ty in ("int", "long", "unsigned long", "unsigned int"):
            return text(str(v))
        toks.append(value(t, ty, env))
    if any(truth(f, env) is False for f in o.facts.all() if not has_iv_any(f)):
        return None
    instantiate(o.events(), env, emit, frozenset(o.facts.all()))
    sure = True
    for f in o.facts.all():
        if f in given:
            continue
        y = truth(f, env)
        if y is False:
            return None
        if y is None and not any(x.op in ("sfail", "sbad", "sgood", "srdstate") for x in subterms(f)):
            sure = False
    return toks, sure


def has_iv_any(t):
    return any(x.op in ("iv", "ivm", "ivv", "ivx") for x in subterms(t))
