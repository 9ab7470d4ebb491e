"""C17: a failure reported by the system or a library does not pass unnoticed

Every function that opens, reads or writes a file, loads a library, or calls a
library that returns a status is interpreted on all its paths.  On each path
that returns normally, the conditions of the path must say that each of those
operations worked."""
import os
from resm import *
from fcheck import *
from seqm import SeqRun
from c16 import UNITS as U16, each_unit, own, edges, is_dtor, merge, nparams_run, strip
from report import Vanished
from ir import REPO

UNITS = sorted(set(U16) | {"lube/graph.cpp"})
MIN_DECIDED = 6
NOTED = set(STATUS) | (set(HANDLES) - {"malloc", "calloc", "strdup"}) | {"dlsym"}
OPEN = re.compile(r"std::basic_(i|o)?fstream<.*>::(basic_(i|o)?fstream|open)$")


def touches(P):
    fns = {f.name: f for f in P.defs.values()}
    reach, g, size = {}, {}, {}
    for n, f in fns.items():
        s, out = set(), set()
        for c in edges(f):
            for m in P.mods:
                c = m.aliases.get(c, c)
            d = short(P.dem(c))
            if c in NOTED:
                s.add(c)
            elif OPEN.match(d) and sig_args(P.dem(c)) or d == "libube::var::getline":
                s.add("stream")
            out.add(c)
        reach[n], g[n] = s, out
        size[n] = len(list(f.instrs()))
    direct = {n: bool(s) for n, s in reach.items()}
    ch = True
    while ch:
        ch = False
        for n in fns:
            for c in g[n]:
                if c in reach and own(P.dem(c)) and not reach[c] <= reach[n]:
                    reach[n] |= reach[c]
                    ch = True
    r = {}
    for n in fns:
        if not reach[n] or not own(P.dem(n)):
            continue
        todo, seen = [n], set()
        while todo:
            x = todo.pop()
            if x not in seen and x in size and (x == n or own(P.dem(x))):
                seen.add(x)
                todo += list(g[x])
        whole = sum(size[x] for x in seen) <= 400
        if whole or direct[n]:
            r[n] = (fns[n], reach[n], whole)
    return r


class Alone(ResPolicy):
    """a function too large to follow everything it calls"""

    def inline(self, name, dem):
        f = self.prog.defs.get(name)
        if f is not None and own(dem) and not short(dem).startswith("libube::var::") and len(list(f.instrs())) > 40:
            return False
        return ResPolicy.inline(self, name, dem)


def scoped(events, facts):
    """events with the facts known where their scope ends"""
    for e in events:
        if isinstance(e, Loop):
            for f, b in e.bodies:
                yield from scoped(b, f)
        elif e.kind == "JOIN":
            for f, b in e.x:
                yield from scoped(b, f)
        else:
            yield e, facts


def tested(e, facts):
    """(verdict, text): does the path know that this call worked"""
    r = e.res
    if e.kind == "acquire":
        d = facts.decide(eq(r, ZERO))
        return (True if d is False else False if d is True else None)
    if e.name == "dlsym":
        return True if facts.decide(eq(r, ZERO)) is False else None
    w = STATUS[e.name]
    if w == "nonzero":
        d = facts.decide(eq(r, ZERO))
        return None if d is None else not d
    if w == "zero":
        return facts.decide(eq(r, ZERO))
    if w == "nonneg":
        return facts.decide(le(ZERO, r))
    k = w[1]
    if k >= len(e.args):
        return None
    d = facts.decide(eq(r, e.args[k]))
    if d is None and facts.decide(le(e.args[k], r)) is True:
        return True
    return d


def mentions(t, r):
    return isinstance(t, T) and any(x is r for x in subterms(t))


def one_path(R, r, o, put):
    top = o.events()
    joins = [e for e in walk(top) if e.kind == "JOIN"]
    for e, f in scoped(top, o.facts):
        if e.kind not in ("acquire", "status") or e.name not in NOTED:
            continue
        d = tested(e, f)
        if e.name == "dlsym" and d is None and o.st.aux.get(("found", e.res)) is TRUE:
            d = True
        k = "%s@%s" % (e.name, R_loc(e))
        if d is True:
            put(k, True, "known to have worked", e)
            continue
        if o.val is not None and mentions(o.val, e.res):
            put(k, True, "reported to the caller", e)
            continue
        kept = [b for b, c in o.st.mem.items() if b.op not in ("alloca",) and any(mentions(cell(v), e.res) for v in c.values())]
        if kept and e.kind == "status" and e.name != "dlsym":
            put(k, None, "its status is kept", e)
            continue
        known = [b for b in f.all() if mentions(b, e.res)]
        clear_ = all(all(x.op in ("c", "aff", "status", "handle", "symbol", "k", "eq0", "le0", "not", "m:size", "v0", "arg", "iarg", "ld", "sdiv", "alloca", "ext",
                                  "m:shape", "m:str", "ver", "mut", "num", "f", "T") for x in subterms(b)) for b in known)
        if d is False:
            ev = list(walk(top))
            other = [x for x in ev[ev.index(e) + 1:] if x.kind == e.kind and x is not e and x.name == e.name]
            put(k, None if other or joins else False, "%s: the failure of %s is ignored" % (e.where(), e.name), e)
        else:
            put(k, False if (not known or clear_) and not joins else None,
                "%s: whether %s worked is not looked at" % (e.where(), e.name), e)
    streams(R, r, o, put, joins)
    documents(R, r, o, put)


def cell(v):
    return v[1] if isinstance(v, tuple) and len(v) > 1 else v


def R_loc(e):
    f = e.where()
    return f.split(":")[0].split("/")[-1] + "." + fnname(e)


def fnname(e):
    return e.ins.fn.name if hasattr(e, "ins") and e.ins is not None else ""


OUT = {"out", "endl"}
SYNC = {"close", "flush", "endl"}


def streams(R, r, o, put, joins):
    top = o.events()
    per = {}
    pos = {}
    for i, e in enumerate(top):
        for x in walk([e]):
            if x.kind == "io":
                per.setdefault(x.args[0], []).append((i, x, isinstance(e, Loop)))
                if not isinstance(e, Loop):
                    pos[(x.args[0], x.args[1])] = i
    for s, lst in per.items():
        ops = [(i, x, lp) for i, x, lp in lst if x.name not in ("destroy", "init")]
        if not ops:
            continue
        loops_ = [i for i, x, lp in ops if lp]

        def at(v):
            if (s, v) in pos:
                return pos[(s, v)]
            if v.op == "iovx":
                return max(loops_ or [-1])
            return -1
        # what the path knows of the stream
        okat, okloop, notbad, opened, eofat = [], [], [], [], []
        for b in o.facts.all():
            n = b.op == "not"
            a = b.a[0] if n else b
            if a.op == "eq0" and not n and a.a[0].op == "srdstate" and a.a[0].a[0] is s:
                okat.append(at(a.a[0].a[1]))
            if a.op != "bool" or a.a[0].op not in ("sfail", "sgood", "sbad", "seof", "sopen") or a.a[0].a[0] is not s:
                continue
            q, v = a.a[0].op, a.a[0].a[1]
            if q == "sfail" and n or q == "sgood" and not n:
                okat.append(at(v))
            elif q == "sbad" and n:
                notbad.append(at(v))
            elif q == "seof" and not n:
                eofat.append(at(v))
            elif q == "sopen" and not n:
                opened.append(at(v))
        # a line that was read was read well
        for i, e in enumerate(top):
            for x, f in scoped([e], o.facts):
                if x.kind == "io" and x.args[0] is s and x.name in ("getline", "read"):
                    c = x.args[2] if len(x.args) > 2 else None
                    if isinstance(e, Loop):
                        okloop.append(i)
                    if any(b.op == "bool" and b.a[0].op == "m:defined" and b.a[0].a[0] is c for b in f.all()):
                        if isinstance(e, Loop):
                            okloop.pop()
                        okat.append(i - 0.5 if isinstance(e, Loop) else i)
        odd = [x for i, x, lp in ops if x.name.startswith("?") or x.name in ("clear", "setstate", "exceptions")]
        exc = [x for i, x, lp in ops if x.name == "exceptions"]
        name = "stream@%s" % R_loc(ops[0][1])
        openers = [(i, x, lp) for i, x, lp in ops if x.name == "open"]
        und = bool(joins or exc or [x for x in odd if x.name in ("clear", "setstate")])
        for i, x, lp in openers:
            if any(j >= i and j == int(j) for j in okat + opened):
                put(name + ".open", True, "known to be open", x)
            elif lp:
                put(name + ".open", None, "opened in a loop", x)
            else:
                put(name + ".open", None if und else False, "%s: whether the file could be opened is not looked at" % x.where(), x)
        inonly = openers and all(len(x.args) > 2 and "ifstream" in x.args[2].a[0] for i, x, lp in openers)
        outs = [(i, x) for i, x, lp in ops if x.name in OUT or x.name.startswith("?")]
        reads = [(i, x) for i, x, lp in ops if x.name in ("read", "getline")]
        file_ = bool(openers) or s.a[0] is arg(0)
        if outs and openers and not inonly:
            last = max(i for i, x in outs)
            sync = [i for i, x, lp in ops if x.name in SYNC and i >= last]
            if not sync:
                late = [j for j in okat if j >= last]
                put(name + ".written", None if und else False, "%s: what was written may still be in memory when it is last looked at"
                    % outs[-1][1].where() if late else "%s: whether the file could be written is not looked at" % outs[-1][1].where(), outs[-1][1])
            elif any(j >= min(sync) for j in okat):
                put(name + ".written", True, "known to be written after the last output", outs[-1][1])
            else:
                put(name + ".written", None if und else False, "%s: whether the file could be written is not looked at after the last output"
                    % outs[-1][1].where(), outs[-1][1])
        if reads and file_:
            last = max(i for i, x in reads)
            if any(j >= last for j in okat + notbad):
                put(name + ".read", True, "known to be read", reads[-1][1])
            elif any(mentions(o.val, c) for c in [reads[-1][1].args[2] if len(reads[-1][1].args) > 2 else None] if o.val is not None and c is not None):
                put(name + ".read", True, "reported to the caller", reads[-1][1])
            elif any(j >= last for j in eofat):
                put(name + ".read", True, "read to the end", reads[-1][1])
            elif isinstance(top[last], Loop) and last not in okloop:
                put(name + ".read", True, "every line read is known to be one", reads[-1][1])
            else:
                inside = isinstance(top[last], Loop) and any(mentions(b, s) for f, _ in top[last].bodies for b in f.all())
                put(name + ".read", None if und or odd or inside else False,
                    "%s: a read error is taken for the end of the file" % reads[-1][1].where(), reads[-1][1])


def documents(R, r, o, put):
    """the XML parser is told where the document ends"""
    top = o.events()
    ps = [(i, e) for i, e in enumerate(top) if not isinstance(e, Loop) and e.kind == "status" and e.name == "XML_Parse"]
    lp = [i for i, e in enumerate(top) if isinstance(e, Loop) and [x for x in walk([e]) if x.kind == "status" and x.name == "XML_Parse"]]
    if not ps and not lp:
        return
    k = "document"
    if not ps or lp and max(lp) > ps[-1][0]:
        x = [y for y in walk([top[max(lp)]]) if y.kind == "status" and y.name == "XML_Parse"]
        put(k, False if all(len(y.args) > 3 and y.args[3] is ZERO for y in x) else None,
            "%s: the parser is never told that the document ends, so an unfinished one is accepted" % x[-1].where(), x[-1])
        return
    e = ps[-1][1]
    d = o.facts.decide(eq(e.args[3], ZERO)) if len(e.args) > 3 else None
    put(k, None if d is None else not d, "the parser is told that the document ends" if d is False else
        "%s: the parser is never told that the document ends, so an unfinished one is accepted" % e.where(), e)


def unit(R, u):
    P = R.program(u)
    name = os.path.basename(u)[:-4]
    ts = touches(P)
    seen = set()
    for n, (f, reach, whole) in sorted(ts.items()):
        dem = P.dem(n)
        if is_dtor(dem) or re.search(r"C1E", n) and n.replace("C1E", "C2E") in ts:
            continue
        key = "%s.%s" % (name, "::".join(strip(short(dem)).split("::")[-2:]))
        if key in seen:
            key += "/%d" % nparams_run(P, f)
        seen.add(key)
        with R.guard(key, "noted"), R.budget(40):
            r = Run(R, P, None, None, nparams_run(P, f), None, policy=ResPolicy if whole else Alone, fn=f)
            R.saw(r.E)
            out = {}
            for o in r.outs:
                if o.kind != "ret":
                    continue

                def put(k, v, m, e, out=out):
                    out.setdefault(k, []).append((v, m))
                    out.setdefault(k + "!", e)
                one_path(R, r, o, put)
            for k in sorted(x for x in out if not x.endswith("!")):
                kk = k.split("@")[0] + (k.split(".", 2)[-1] if "stream@" in k and False else "")
                suffix = "." + k.rsplit(".", 1)[-1] if k.startswith("stream@") else ""
                merge(R, "%s.%s%s" % (key, kk, suffix), out[k], "%s in %s" % (out[k + "!"].where(), r.dem),
                      "document" if k == "document" else "stream" if k.startswith("stream") else "noted")
                R.sites += 1


def errors(R):
    """what() of an error is the text of what it was made from, kept by the error itself"""
    prog = R.program("lube/var.cpp", "lube/heap.cpp")
    this = arg(0)
    with R.guard("error::what", "error"):
        try:
            ctor = R.one(prog, r"libube::error::error\(libube::var\)$")
            what = R.one(prog, r"libube::error::what\(\) const$")
        except AttributeError:
            ctor = next(f for n, f in sorted(prog.defs.items()) if f.order and re.search(r"libube::error::error\(libube::var\)$", prog.dem(n)))
            what = next(f for n, f in sorted(prog.defs.items()) if f.order and re.search(r"libube::error::what\(\) const$", prog.dem(n)))
        w = SeqRun(R, prog, what)
        rets = [o for o in w.outs if o.kind == "ret"]
        r = SeqRun(R, prog, ctor)
        a1 = r.c[1] if 1 in r.c else arg(1)
        out = []
        for o in r.outs:
            if o.kind != "ret":
                continue
            held = [v for k, v in o.st.aux.items() if isinstance(k, tuple) and k[0] == "v" and this in subterms(k[1]) and isinstance(v, T)]
            for q in rets:
                out.append(said(o, q, this, a1, held))
        if not out:
            out = [(None, "no outcome")]
        worst = [x for x in out if x[0] is False] or [x for x in out if x[0] is None] or [(True, "")]
        R.ob("error::what", worst[0][0], worst[0][1], r.dem, "error")


def said(o, q, this, a1, held):
    v = q.val
    if v is None or v.op == "str" or is_c(v):
        return (False if v is not None else None), "what() is %s, whatever the error was made from" % (show(v) if v is not None else "unknown")
    if v.op != "ld" or v.a[0] is not this:
        return None, "what() is %s" % show(v)
    cell = o.st.mem.get(this, {}).get(v.a[1])
    if cell is None:
        return False, "the text that what() returns is never set"
    t = cell[1]
    if t.op != "m:str":
        return (False if is_c(t) else None), "the text that what() returns is %s" % show(t)
    x = t.a[0]
    evs = list(walk(o.events()))
    if not any(x is h for h in held):
        return None, "the error does not hold the text itself"
    if a1 in subterms(x):
        return True, ""
    if x.op != "streamval":
        return (False if clear(x) else None), "the text that what() returns is that of %s" % show(x)
    told = [e for e in evs if e.kind in ("out", "varstream") and any(isinstance(y, T) and a1 in subterms(y) for y in e.args)]
    if told:
        return True, ""
    other = [e for e in evs if e.kind in ("call", "method") and any(isinstance(y, T) and a1 in subterms(y) for y in e.args)]
    return (None if other else False), "what the error was made from is not written into its text"


def run(R):
    R.rule("error", "error(x) writes x into the text it keeps, and what() returns that text")
    R.rule("noted", "on every path that returns normally the conditions of the path say that each library call that reports a status worked")
    R.rule("stream", "a file that is opened is known to be open; after the last output a file is flushed or closed and then known not to have "
                     "failed; the end of the input is known to be the end, not a read error")
    R.rule("document", "the last call of the XML parser on every normal path says that the document ends there")
    each_unit(R, UNITS, unit)
    errors(R)
