"""C24: what goes in and out through a module is all of it, in order

Each module's functions are interpreted on all paths; what they give the
library behind them, and what they make of what it gives them, is compared with
what was asked for: at the sizes at which the paths differ (sound files,
plots), or for one arbitrary entry (directories, pages, modules)."""
from fmtm import *
from fcheck import *
from bytem import bval
from report import Vanished

MIN_DECIDED = 4
SOUND = "a sound file is all its frames, one row per channel"
PAGE = "a page is the texts received, whole and in order"
PLOT = "every element is given to gnuplot once and in order"
DIRS = "a directory has every entry once, under its path"
GRAPH = "a graph has every edge and vertex added, and is what is written"
LOAD = "a module loads the library of its name and calls its factory"


class ModPolicy(ResPolicy):
    """remembers what a structure holds when a library is given it"""
    def special(self, E, st, ins, name, dem, s, args):
        if name.startswith("sf_open") and len(args) > 2:
            m = {}
            for k in st.mem.get(args[2], {}).items():
                m[k[0]] = k[1][1]
            s2 = st.copy()
            s2.emit(Ev("given", name, (args[2],), None, ins, st.facts, x=m))
            r = ResPolicy.special(self, E, s2, ins, name, dem, s, args)
            if r is not None:
                return r
            st.trace = s2.trace
        if name == "curl_easy_perform":
            m = {k[1]: v for k, v in st.aux.items() if isinstance(k, tuple) and k[0] == "v" and isinstance(v, T)}
            st.emit(Ev("given", name, (), None, ins, st.facts, x=m))
        return ResPolicy.special(self, E, st, ins, name, dem, s, args)


def methods(P, unit, meth, cls=r"\w+"):
    l = []
    for n in sorted(P.defs):
        f = P.defs[n]
        if re.match(r"libube::%s::%s$" % (cls, meth), short(P.dem(n))) and f.order:
            l.append(f)
    return l


def one(P, unit, meth, cls=r"\w+", pred=None):
    l = [f for f in methods(P, unit, meth, cls) if pred is None or pred(f)]
    if not l:
        raise Vanished("%s in %s" % (meth, unit))
    return l[0]


CK = ("call", "status", "acquire", "release", "libcall")


def calls(o, name):
    return [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind in CK and e.name == name]


def warned(r):
    """what makes a summary incomplete; paths that were joined are still told apart by the JOIN events"""
    return sorted(x for x in r.E.warn if not x.startswith("join@"))


def result(o):
    """content of the var returned"""
    for k, v in o.st.aux.items():
        if isinstance(k, tuple) and k[0] == "v" and isinstance(v, T) and show(k[1]) == "ret":
            return v
    return None


def literal(P, t):
    if t.op == "str":
        t = t.a[0]
    if t.op == "global":
        s = cstring(P, t)
        if s is not None:
            return s.split(b"\0")[0].decode("latin-1")
    return None


def end(R, key, l, r, rule):
    bad = [x for x in l if x[0] is False]
    und = [x for x in l if x[0] is None]
    R.ob(key, False if bad else None if und or not l else True, (bad + und)[0][1] if bad or und else "", where(r), rule)


# ------------------------------------------------------------------ sound files
SIZES = ((5, 1, 8000), (5, 2, 44100), (4, 3, 11025))


def info_base(o):
    c = [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind in CK and e.name.startswith("sf_open")]
    return c[0] if len(c) == 1 else None


def possible(o, env):
    return not any(truth(f, env) is False for f in o.facts.all())


def sound_env(o, info, frames, chan, rate, extra=None):
    status = {e.res: e for e in walk(o.events()) if isinstance(e, Ev) and e.kind == "status" and e.res is not None}

    def look(t, env):
        if t.op == "ld" and t.a[0] is info:
            k = t.a[1].a[0] if isinstance(t.a[1], T) and is_c(t.a[1]) else t.a[1]
            return {0: frames, 8: rate, 12: chan}.get(k)
        if t in status and status[t].name.startswith("sf_"):
            return bval(status[t].args[2], env)                # as many as were asked for
        if t.op == "handle":
            return 4096
        return extra(t, env) if extra else None
    return Env(look)


def sound_read(R, P):
    fn = one(P, "lube/sndfile.cpp", "read")
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fn)
    l = []
    rets = r.rets()
    for frames, chan, rate in SIZES:
        n = 0
        for o in rets:
            if warned(r):
                l.append((None, warned(r)[0][:100]))
                break
            op = info_base(o)
            if op is None:
                l.append((None, "how the file is opened"))
                continue
            env = sound_env(o, op.args[2], frames, chan, rate)
            if not possible(o, env):
                continue
            n += 1
            l += sound_read1(P, o, op, env, frames, chan, rate)
        if not n and rets:
            l.append((None, "no way of reading a file of %d frames and %d channels" % (frames, chan)))
    end(R, "sound:read", l, r, SOUND)


def sound_read1(P, o, op, env, frames, chan, rate):
    l = []
    what = "of %d frames and %d channels" % (frames, chan)
    rd = [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind in CK and e.name in ("sf_readf_float", "sf_read_float")]
    if len(rd) != 1:
        return [(False if not rd and not any(isinstance(e, Ev) and str(e.name).startswith("sf_read") for e in walk(o.events())) else None, "nothing is read from a file " + what)]
    e = rd[0]
    n = bval(e.args[2], env)
    if n is None:
        return [(None, "how much is read")]
    per = 1 if e.name == "sf_readf_float" else chan
    l.append((n == frames * per, "%d of the %d %s of a file are read" % (n, frames * per, "frames" if per == 1 and e.name == "sf_readf_float" else "samples")))
    buf = e.args[1]
    if buf.op != "m:ptr":
        return l + [(None, "where the samples go")]
    x = buf.a[0]
    if len(buf.a) > 2 and is_c(buf.a[2]) and buf.a[2] is not ZERO:
        l.append((False, "the samples are put from element %s on" % show(buf.a[2])))
    size = None
    if x.op == "mut" and show(x.a[0]) == "k(resize)":
        size = bval(x.a[-1], env)
        if size is not None:
            l.append((size == frames * chan, "the array for a file %s has %d elements" % (what, size)))
        b = x.a[1]
        if b.op == "num":
            l.append((b.a[0] in ("float",) if isinstance(b.a[0], str) else "float" in show(b), "the samples, floats, are put in an array of another type: %s" % show(b)))
    if size is None:
        l.append((None, "the size of the array"))
    # rate
    st = [y for y in walk(o.events()) if isinstance(y, Ev) and y.kind == "var" and y.name == "assign_elem" and y.args[0].op == "kelem" and literal(P, y.args[0].a[1]) == "rate"]
    if not st:
        other = [y for y in walk(o.events()) if isinstance(y, Ev) and y.kind == "var" and y.name in ("assign_elem", "assign", "insert") and any(z.op == "arg" for z in subterms(y.args[0]))]
        l.append((None if other else False, "the rate of the file is not kept"))
    else:
        v = st[-1].args[1]
        k = bval(v.a[-1], env) if v.op == "num" else None
        l.append((None if k is None else k == rate, "what is kept as the rate is not that of the file"))
    # result
    c = result(o)
    if c is None:
        return l + [(None, "what is returned")]
    if c is x:
        if chan != 1:
            l.append((False, "a file %s is returned without a row for each channel" % what))
        return l
    v = c
    tr = False
    if v.op == "m:transpose" or v.op in ("apply", "m:apply") and "transpose" in show(v.a[0]):
        tr = True
        v = v.a[0] if v.op == "m:transpose" else v.a[1]
    if v.op == "mut" and "transpose" in show(v.a[0]):
        tr, v = True, v.a[1]
    if v.op == "m:view" and v.a[0] is x and v.a[1].op == "il":
        b, k = v.a[1].a[0], v.a[1].a[1]
        mem = o.st.mem.get(b, {})
        dims = []
        for j in range(k if isinstance(k, int) else k.a[0]):
            y = [val for off, (z, val) in mem.items() if is_c(off) and off.a[0] == 4 * j]
            dims.append(bval(y[0], env) if y else None)
        if None in dims:
            return l + [(None, "the shape of what is read")]
        want = [frames, chan]
        if tr:
            l.append((dims == want or chan == 1 and dims == [1, frames] and None, "the frames of a file %s are taken as an array of %s" % (what, dims)))
        else:
            l.append((False if chan > 1 else None, "what is read from a file %s is not transposed: the frames are the rows" % what))
        return l
    return l + [(None, "what is returned")]


def sound_write(R, P):
    fn = one(P, "lube/sndfile.cpp", "write")
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fn)
    V = r.formals[2] if len(r.formals) > 2 else None
    l = []
    v = None
    for o in r.outs:
        for e in walk(o.events()):
            if isinstance(e, Ev) and e.kind == "read" and e.name in ("size", "atype", "dim") and e.args and e.args[0].op == "v0" and show(e.args[0].a[0]) == "a2":
                v = e.args[0]
    if v is None:
        raise Vanished("the array written")
    for dim, rows, cols in ((1, 1, 6), (2, 2, 5), (2, 3, 4), (2, 1, 7)):
        n = 0
        size = rows * cols

        def facts(t, env):
            if t.op[:2] == "m:" and t.a and t.a[0] is v:
                if t.op == "m:dim":
                    return dim
                if t.op == "m:size":
                    return size
                if t.op == "m:shape":
                    k = bval(t.a[1], env)
                    sh = [rows, cols] if dim == 2 else [cols]
                    return sh[k] if k is not None and -len(sh) <= k < len(sh) else None
                if t.op == "m:atype":
                    return 4
                if t.op == "m:defined":
                    return 1
            if t.op == "m:get" and t.a[0].op == "kelem" and literal(P, t.a[0].a[1]) == "rate":
                return 8000
            return None
        for o in r.rets():
            if warned(r):
                l.append((None, warned(r)[0][:100]))
                break
            op = info_base(o)
            if op is None:
                l.append((None, "how the file is opened"))
                continue
            env = sound_env(o, op.args[2], None, rows, None, facts)
            if not possible(o, env):
                continue
            n += 1
            what = "an array of %s" % ("%d" % cols if dim == 1 else "%d rows of %d" % (rows, cols))
            g = [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind == "given"]
            m = {k.a[0]: t for k, t in g[0].x.items() if is_c(k)} if g else {}
            for k, name, want in (8, "rate", 8000), (12, "number of channels", rows):
                t = m.get(k)
                x = bval(t, env) if t is not None else None
                if x is None:
                    l.append((None, "the %s of a file written" % name))
                else:
                    l.append((x == want, "%s is written with %s %d, not %d" % (what, name, x, want)))
            wr = [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind in CK and e.name in ("sf_writef_float", "sf_write_float")]
            if len(wr) != 1:
                l.append((False if not wr and not any(isinstance(e, Ev) and str(e.name).startswith("sf_write") for e in walk(o.events())) else None, "nothing of %s is written" % what))
                continue
            k = bval(wr[0].args[2], env)
            per = rows if wr[0].name == "sf_write_float" else 1
            l.append((None if k is None else k == cols * per, "%s of %d %s of %s are written" % (k, cols * per, "samples" if wr[0].name == "sf_write_float" else "frames", what)))
            b = wr[0].args[1]
            if b.op != "m:ptr":
                l.append((None, "what is written"))
                continue
            if len(b.a) > 2 and is_c(b.a[2]) and b.a[2] is not ZERO:
                l.append((False, "what is written starts at element %s" % show(b.a[2])))
            c = b.a[0]
            tr = c.op in ("apply", "m:apply", "mut") and "transpose" in show(c.a[0]) and c.a[1] is v
            if rows > 1:
                l.append((True if tr else False if c is v else None, "%s is written row by row, not frame by frame" % what))
            else:
                l.append((True if tr or c is v else None, "what is written"))
        if not n:
            l.append((None, "no way of writing"))
    end(R, "sound:write", l, r, SOUND)


# ------------------------------------------------------------------ plots
def plot(R, P):
    fn = one(P, "lube/gnuplot.cpp", "write")
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fn)
    if warned(r):
        R.ob("plot", None, warned(r)[0][:100], where(r), PLOT)
        return
    v = None
    for o in r.outs:
        for e in walk(o.events()):
            if isinstance(e, Ev) and e.kind in ("read", "var") and e.args and e.args[0].op == "v0" and show(e.args[0].a[0]) == "a2":
                v = e.args[0]
    if v is None:
        raise Vanished("what is plotted")
    cmd = ("a command", 1, 1, None, None)
    l = []
    for label, items in (
            ("a command", [("cmd",)]), ("two commands", [("cmd",), ("cmd",)]),
            ("a vector of 3", [(t, 1, (3,)) for t in (2,)]), ("a vector of longs", [(3, 1, (2,))]), ("a vector of floats", [(4, 1, (2,))]),
            ("a vector of doubles", [(5, 1, (2,))]), ("a matrix of 2 rows and 3 columns", [(5, 2, (2, 3))]), ("a matrix of ints", [(2, 2, (2, 1))]),
            ("a matrix of floats", [(4, 2, (3, 2))]), ("a matrix of longs", [(3, 2, (1, 2))]),
            ("a command and a vector", [("cmd",), (4, 1, (2,))]), ("a vector and a command", [(4, 1, (1,)), ("cmd",)]), ("a value", [(5, 0, (1,))]), ("nothing", [])):
        got = None
        try:
            for o in r.rets():
                x = plotted(P, o, v, items)
                if x is not None:
                    if got is not None and got != x:
                        raise Unclear("more than one way")
                    got = x
        except Unclear as e:
            l.append((None, "%s: %s" % (label, e)))
            continue
        if got is None:
            # refused on every path that is clear?
            l.append((None, "%s: not written" % label))
            continue
        l.append((normal_text(got) == normal_text(expected(items)), "%s is given to gnuplot as %s" % (label, spell(got)[:90])))
    end(R, "plot", l, r, PLOT)
    l = []
    for o in r.rets():
        d = [f for f in o.facts.all() if any(x.op == "m:defined" and show(x.a[0]) == "v0(a1,0)" for x in subterms(f))]
        a = [x for f in d for x in subterms(f) if x.op == "m:defined" and show(x.a[0]) == "v0(a1,0)"]
        if not a or o.facts.decide(mk("bool", a[0])) is not True:
            continue
        toks = []
        for e in o.events():
            if isinstance(e, Loop):
                break
            if e.kind == "out":
                toks += [("text", literal(P, t)) if literal(P, t) is not None else ("val", t) for t in e.args[1:]]
            elif e.kind in CK and e.name == "fputs":
                toks.append(("fputs", literal(P, e.args[0])))
        w = [k for k, x in enumerate(toks) if x[0] == "val" and x[1].op == "v0" and show(x[1]) == "v0(a1,0)"]
        t = [k for k, x in enumerate(toks) if x[0] == "text" and x[1].startswith("set output")]
        l.append((True if w and t and t[0] < w[0] else None if w or any(x[0] == "val" for x in toks) else False, "the file that a plot goes to is not given"))
    end(R, "plot:file", l, r, PLOT)


def plotted(P, o, v, items):
    """text a path gives to the stream for these elements; None when it is not the path taken"""
    def item(t, env):
        if t.op in ("elem", "m:at") and t.a[0] is v:
            k = bval(t.a[1], env)
            return k if k is not None and 0 <= k < len(items) else None
        return None

    def look(t, env):
        if t.op == "status":
            return 1
        if t.op[:2] == "m:" and t.a and isinstance(t.a[0], T):
            if t.a[0] is v and t.op == "m:size":
                return len(items)
            if show(t.a[0]) == "v0(a1,0)" and t.op == "m:defined":
                return 0
            k = item(t.a[0], env)
            if k is None:
                return None
            i = items[k]
            if t.op in ("m:atype", "m:type"):
                return 1 if i[0] == "cmd" else i[0]
            if t.op == "m:dim":
                return 1 if i[0] == "cmd" else i[1]
            if t.op in ("m:defined",):
                return 1
            if i[0] == "cmd":
                return None
            if t.op == "m:size":
                n = 1
                for x in i[2]:
                    n *= x
                return n
            if t.op == "m:shape":
                d = bval(t.a[1], env)
                return i[2][d] if d is not None and -len(i[2]) <= d < len(i[2]) else None
        return None
    env = Env(look)
    if any(truth(f, env) is False for f in o.facts.all() if not has_iv_any(f)):
        return None
    bufs = {}
    text = []

    def cell(t, env):
        if t.op in ("elem", "m:at") and isinstance(t.a[0], T):
            k = item(t.a[0], env)
            if k is not None:
                j = t.a[1]
                ix = tuple(bval(y, env) for y in (j.a if j.op == "idx" else (j,)))
                if None not in ix:
                    i = items[k]
                    if i[0] == "cmd":
                        return ("char", k, ix)
                    if len(ix) == 1 and len(i[2]) == 2:
                        if t.op == "elem" and t.a[1].op != "idx" and not 0 <= ix[0] < i[2][0] * i[2][1]:
                            return ("outside", k, ix)
                        return ("n", k, (ix[0] // i[2][1], ix[0] % i[2][1]))
                    return ("n", k, ix)
        k = item(t, env)
        if k is not None:
            return ("all", k)
        return None

    def emit(e, env):
        if e.kind == "varstream" and "varstream" in e.name and e.args:
            bufs[root(e.args[0])] = []
            return
        if e.kind == "out":
            b = root(e.args[0])
            if b not in bufs or len(e.args) != 2:
                raise Unclear("output elsewhere: %s" % e.name[:50])
            t = e.args[1]
            s = literal(P, t)
            if s is None and t.op == "global" and "endl" in t.a[0]:
                s = "\n"
            if s is None and is_c(t) and "char" in e.name:
                s = chr(t.a[0] & 255)
            if s is None:
                s = cell(t, env)
            if s is None and t.op == "m:str" and item(t.a[0], env) is not None:
                s = ("cmd", item(t.a[0], env))
            if s is None:
                raise Unclear("what %s is" % show(t)[:50])
            bufs[b].append(s)
            return
        if e.kind in CK and e.name in ("fputs", "fputc", "putc"):
            t = e.args[0]
            s = literal(P, t)
            if s is None and is_c(t):
                s = chr(t.a[0] & 255)
            if s is None and t.op == "m:str" and item(t.a[0], env) is not None:
                s = ("cmd", item(t.a[0], env))
            if s is None and t.op == "call" and t.a[0].endswith("varstream::str") and root(t.a[-1]) in bufs:
                text.extend(bufs[root(t.a[-1])])
                return
            if s is None:
                raise Unclear("what %s is" % show(t)[:50])
            text.append(s)
            return
        if e.kind in CK and (e.name in ("fprintf", "fwrite", "write", "vfprintf") or e.name.startswith("libube::gnuplot")):
            raise Unclear("written with %s" % e.name)
    instantiate(o.events(), env, emit, frozenset(o.facts.all()))
    for f in o.facts.all():
        if not has_iv_any(f) and truth(f, env) is False:
            return None
    return text


def root(a):
    k = [x for x in lin(a)[1] if x.op in ("alloca", "arg", "new", "global")]
    return k[0] if len(k) == 1 else a


def expected(items):
    t = []
    for k, i in enumerate(items):
        if i[0] == "cmd":
            t += [("cmd", k), "\n"]
        elif i[1] < 2:
            for j in range(i[2][0]):
                t += [("n", k, (j,)), "\n"]
            t += ["e\n"]
        else:
            for c in range(i[2][1]):
                for j in range(i[2][0]):
                    t += [" ", ("n", k, (j, c))]
                t.append("\n")
            t += ["e\n"]
    return t


def normal_text(toks):
    """lines of words; blank lines before the end of data do not matter"""
    lines = [[]]
    glued = False
    for t in toks:
        if isinstance(t, str):
            for ch in t:
                if ch == "\n":
                    lines.append([])
                    glued = False
                elif ch in " \t":
                    glued = False
                elif glued and lines[-1]:
                    lines[-1][-1] += (ch,)
                else:
                    lines[-1].append((ch,))
                    glued = True
        elif glued and lines[-1]:
            lines[-1][-1] += (t,)
        else:
            lines[-1].append((t,))
            glued = True
    out = []
    for x in lines:
        if x == [("e",)]:
            while out and not out[-1]:
                out.pop()
        out.append(x)
    while out and not out[-1]:
        out.pop()
    # the last line must be ended
    ended = not toks or isinstance(toks[-1], str) and toks[-1].endswith("\n")
    return out, ended


def spell(toks):
    return "".join(t if isinstance(t, str) else "<%s>" % ",".join(map(str, t[2] if len(t) > 2 else t[1:])) for t in toks).encode("unicode_escape").decode()


# ------------------------------------------------------------------ pages
def page(R, P):
    fn = one(P, "lube/curl.cpp", "transfer")
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fn)
    l = []
    cb = None
    for o in r.rets():
        if warned(r):
            l.append((None, warned(r)[0][:100]))
            continue
        opts = {}
        done = calls(o, "curl_easy_perform")
        if len(done) != 1:
            l.append((False if not done and not any(str(e.name).startswith("curl_") and "perform" in str(e.name) for e in walk(o.events()) if isinstance(e, Ev)) else None, "the page is not got"))
            continue
        for e in walk(o.events()):
            if e is done[0]:
                break
            if isinstance(e, Ev) and e.kind in CK and e.name == "curl_easy_setopt" and is_c(e.args[1]):
                opts[e.args[1].a[0]] = e.args[2]
        if not opts:
            l.append((None, "what the library is told"))
            continue
        u = opts.get(10002)
        l.append((u is not None and (True if u.op == "m:str" and show(u.a[0]) == "v0(a1,0)" else None), "the library is not told which page to get"))
        f, d = opts.get(20011), opts.get(10001)
        l.append((f is not None and d is not None, "the library is not told what to call with what it receives"))
        if f is None or d is None:
            continue
        if f.op == "global" and f.a[0] in P.defs:
            cb = f.a[0]
        obj = root(d)
        c = result(o)
        g = [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind == "given"]
        own = [v for k, v in g[0].x.items() if isinstance(k, T) and obj in subterms(k)] if g else []
        l.append((None if c is None or not own else True if c in own else False if c.op in ("nil", "str", "num") and c not in own else None, "what is returned is not what was received"))
    end(R, "page:request", l, r, PAGE)
    if cb is None:
        R.ob("page:received", None, "which function is called with what is received", where(r), PAGE)
        return
    q = Run(R, P, None, None, 0, policy=ModPolicy, fn=P.defs[cb])
    l = []
    ptr, size, n, this = q.formals
    env1 = {size: ONE}
    for o in q.rets():
        if warned(q):
            l.append((None, warned(q)[0][:100]))
            continue
        if o.facts.decide(eq(n, ZERO)) is True:
            continue
        v = subst(o.val, env1) if o.val is not None else None
        v = subst(v, {}) if v is not None else None
        v = unmul(v)
        l.append((v is n if v is not None and (v is n or clear(v)) else None, "%s of what is received is said to be taken" % show(o.val)[:40]))
        ap = [e for e in walk(o.events()) if isinstance(e, Ev) and e.kind == "var" and e.name in ("append", "push", "insert", "assign", "replace")]
        mine = [e for e in ap if this in subterms(e.args[0])]
        if not mine and any(isinstance(e, Ev) and e.kind == "var" and e.args and this in subterms(e.args[0]) for e in walk(o.events())):
            l.append((None, "what is done with what was before"))
            continue
        if len(mine) != 1:
            l.append((False if not ap and not any(isinstance(e, Loop) or e.kind in ("call", "JOIN", "varstream", "out", "functor", "method") for e in o.events()) else None, "what is received is not kept"))
            continue
        e = mine[0]
        l.append((True if e.name == "append" else False if e.name == "assign" else None, "what is received takes the place of what was before"))
        t = e.args[1]
        if t.op != "strn":
            l.append((False if t is ptr or t.op == "str" and t.a[0] is ptr else None, "what is received is kept as text up to the first null"))
            continue
        k = unmul(subst(t.a[0], env1))
        l.append((k is n if k is n or clear(k) else None, "%s characters of what is received are kept" % show(t.a[0])))
        l.append((t.a[1] is ptr if t.a[1] is ptr or clear(t.a[1]) else None, "what is kept is not from the start of what is received"))
    end(R, "page:received", l, q, PAGE)


def unmul(t):
    """products with one"""
    if t is None:
        return None
    if t.op == "mul":
        a = [unmul(x) for x in t.a]
        a = [x for x in a if x is not ONE]
        return a[0] if len(a) == 1 else ONE if not a else t
    if t.op in ("trunc32", "zext32", "sext32", "trunc64", "zext64"):
        return unmul(t.a[0])
    return t


# ------------------------------------------------------------------ directories
def provenance(evs):
    """{address: what the object there was made of} and a function that follows terms through it"""
    at = {}
    PATHISH = ("string", "extension", "stem", "parent_path", "filename", "path", "native", "generic_string", "u8string", "root_path", "relative_path", "replace_extension")

    def res(t, depth=0):
        if depth > 20 or not isinstance(t, T):
            return t
        if t in at:
            return at[t]
        if t.op == "str":
            return res(t.a[0], depth + 1)
        if t.op == "call" and isinstance(t.a[0], str):
            n = t.a[0].rsplit("::", 1)[-1]
            if n in ("c_str", "data", "native"):
                return res(t.a[-1], depth + 1)
            if n in ("operator->", "operator*"):
                return ("it", t.a[-1])
            if "directory_entry::" in t.a[0] and (n == "path" or t.a[0].endswith("path const&") or "operator" in t.a[0]):
                x = res(t.a[-1], depth + 1)
                return x
        return t
    return at, res


def fsname(e):
    """last word of the name of a function of the filesystem or string libraries"""
    s = short(str(e.name))
    m = re.search(r"([\w~]+|operator[^\w(]+|operator [^(]*)(\(|$)", s.rsplit("::", 1)[-1])
    return s.rsplit("::", 1)[-1].split("(")[0]


def follow(evs):
    """walk the events of one iteration: every var assignment with the origin of keys and values"""
    at, res = provenance(evs)
    out = []

    def run(evs):
        for e in evs:
            if isinstance(e, Loop) or e.kind == "JOIN":
                out.append(("odd", e))
                continue
            if e.kind == "call":
                n = fsname(e)
                s = short(str(e.name))
                if s.startswith("libube::"):
                    out.append(("own", e, [res(a) for a in e.args]))
                    continue
                if ("filesystem" in s) and n in ("string", "extension", "stem", "parent_path", "filename", "generic_string", "root_path", "relative_path") and len(e.args) == 2:
                    x = res(e.args[1])
                    at[e.args[0]] = x if n in ("string", "generic_string") else (n, x)
                elif "filesystem" in s and n == "path" and len(e.args) >= 2 and "directory_entry" not in s:
                    at[e.args[0]] = res(e.args[1])
                elif n == "basic_string" and len(e.args) >= 2:
                    at[e.args[0]] = res(e.args[1])
                elif n == "operator++" and "iterator" in s:
                    it = e.args[1] if len(e.args) == 3 else e.args[0]
                    out.append(("next", it))
                elif n in ("increment",):
                    out.append(("next", e.args[0]))
                elif n in ("disable_recursion_pending", "pop"):
                    out.append(("skip", e))
                elif n in ("is_directory", "is_symlink", "is_regular_file", "exists", "is_empty", "symlink_status", "status"):
                    out.append(("ask", n, res(e.args[0]) if e.args else None, e.res))
                elif n in ("operator=", "assign", "append", "operator+=", "operator/=", "replace", "replace_extension", "remove_filename", "clear", "erase"):
                    out.append(("odd", e))
            elif e.kind == "var" and e.name == "assign_elem":
                t = e.args[0]
                if t.op == "kelem":
                    out.append(("entry", res(t.a[1]), e.args[1], e))
                elif t.op == "elem" and is_c(t.a[1]):
                    out.append(("part", t.a[1].a[0], res(e.args[1]), e))
                else:
                    out.append(("odd", e))
            elif e.kind == "var" and e.name not in ("elem.operator[]", "assign", "destroy", "ctor", "ctor.str"):
                out.append(("odd", e))
            elif e.kind in ("varstream", "out"):
                out.append(("odd", e))
    run(evs)
    return out


def asked(facts, w, name, path):
    """what the facts say of a question asked of the entry"""
    for x in w:
        if x[0] == "ask" and x[1] == name and x[2] == path and x[3] is not None:
            d = facts.decide(x[3]) if x[3].op in ("bool", "eq0", "not", "le0") else facts.decide(mk("bool", x[3]))
            if d is not None:
                return d
    return None


def listing(R, P, meth, recursive, rule=DIRS):
    pred = (lambda f: "path" in P.dem(f.name).rsplit("(", 1)[1]) if meth == "tree" else None
    fs_ = methods(P, "lube/path.cpp", meth)
    if not fs_:
        raise Vanished("%s of path" % meth)
    fn = fs_[0]
    for f in fs_:
        if meth == "tree":
            q = Run(R, P, None, None, 0, policy=ModPolicy, fn=f)
            if any(isinstance(e, Loop) for o in q.outs for e in o.events()):
                fn = f
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fn)
    l = []
    if warned(r):
        R.ob("directory:" + meth, None, warned(r)[0][:100], where(r), rule)
        return
    for o in r.rets():
        # a path that is not there
        w = follow(o.events())
        for x in w:
            if x[0] == "ask" and x[1] == "exists" and x[3] is not None:
                d = o.facts.decide(x[3] if x[3].op == "bool" else mk("bool", x[3]))
                if d is False:
                    l.append((False, "a path that is not there is not refused"))
        ls = [e for e in o.events() if isinstance(e, Loop)]
        if not ls:
            # a file, listed as itself
            en = [x for x in w if x[0] == "entry"]
            if meth == "rdir" and en:
                d = [o.facts.decide(x[3] if x[3].op == "bool" else mk("bool", x[3])) for x in w if x[0] == "ask" and x[1] == "is_directory" and x[3] is not None]
                l.append((False if True in d else True if False in d else None, "a directory is listed as itself, without what is in it"))
                l += parts(r, o.facts, w, en[0][1], "the file")
            elif not en and not any(x[0] in ("own", "odd", "part", "skip", "next") for x in w) and not any(e.kind == "throw" for e in o.events()):
                l.append((False, "nothing is listed"))
            else:
                l.append((None, "listed without going through the directory"))
            continue
        if len(ls) != 1:
            l.append((None, "several loops"))
            continue
        made = [e for e in o.events() if isinstance(e, Ev) and e.kind in CK and re.search(r"directory_iterator::(recursive_)?directory_iterator$", short(str(e.name)).split("(")[0])]
        begin = [e for e in made if len(e.args) > 1]
        rec = [("recursive" in str(e.name)) for e in begin]
        if len(begin) != 1:
            l.append((None, "how the directory is gone through"))
            continue
        l.append((rec[0] == recursive, "%s goes through %s" % (meth, "what is in directories as well" if rec[0] else "one directory only")))
        it = begin[0].args[0]
        if recursive and len(begin[0].args) > 2 and is_c(begin[0].args[2]):
            opt = begin[0].args[2].a[0]
            l.append((not opt & 1, "links to directories are followed"))
        for facts, b in ls[0].bodies:
            w = follow(b)
            if any(x[0] == "odd" for x in w):
                l.append((None, "what is kept of an entry"))
                continue
            if any(x[0] == "skip" for x in w):
                l.append((False if recursive else None, "what is in a directory is left out"))
            nx = [x for x in w if x[0] == "next"]
            l.append((len(nx) == 1 if nx else None, "%d entries are gone past at a time" % len(nx)))
            en = [x for x in w if x[0] == "entry"]
            own = [x for x in w if x[0] == "own"]
            if not en:
                l.append((False if not own else None, "an entry is left out"))
                continue
            if len({repr(x[1]) for x in en}) != 1:
                l.append((None, "several keys for an entry"))
                continue
            key = en[0][1]
            e0 = ("it", it)
            want = ("filename", e0) if meth == "tree" else e0
            l.append((True if key == want else False if origin(key) == e0 else None, "an entry is kept under its %s" % (key[0] if isinstance(key, tuple) else "path")))
            if meth != "tree":
                l += parts(r, facts, w, e0, "an entry")
                continue
            isdir, islink = asked(facts, w, "is_directory", e0), asked(facts, w, "is_symlink", e0)
            down = [x for x in own if x[1].args and any(y == e0 for y in x[2])]
            if own and not down:
                l.append((None, "what is called for an entry"))
            elif down:
                l.append((False if isdir is False or islink is True else True if isdir and islink is False else False if not {"is_symlink", "is_directory"} <= {x[1] for x in w if x[0] == "ask"} and not any(x[0] == "ask" and x[1] in ("status", "symlink_status") for x in w) else None,
                          "what is not a directory is listed" if isdir is False or islink is False else "a link is followed"))
            else:
                l.append((False if isdir and islink is False else True if isdir is False or islink else None, "what is in a directory is left out"))
    end(R, "directory:" + meth, l, r, rule)


def origin(k):
    while isinstance(k, tuple) and k[0] in ("filename", "stem", "extension", "parent_path", "root_path", "relative_path"):
        k = k[1]
    return k


def parts(r, facts, w, e0, what):
    """parent, stem and extension, exactly when they are asked for"""
    ps = {}
    for x in w:
        if x[0] == "part":
            ps[x[1]] = x[2]
    flag = [t for t in r.formals if t.op == "iarg"]
    if len(flag) != 1:
        return [(None, "whether the parts of a path are asked for")]
    want = facts.decide(eq(flag[0], ZERO))
    if want is None:
        return [(None if ps or not any(flag[0] in subterms(f) for f in facts.all()) else None, "whether the parts of a path are asked for")]
    if want is True:
        return [(not ps, "the parts of the path of %s are given when they are not asked for" % what)]
    if not ps:
        return [(False if not any(x[0] in ("own", "odd") for x in w) else None, "the parts of the path of %s are not given" % what)]
    l = []
    for k, n in enumerate(("parent_path", "stem", "extension")):
        g = ps.get(k)
        l.append((True if g == (n, e0) else False if g is None or origin(g) == e0 else None, "part %d of the path of %s is %s" % (k, what, "not there" if g is None else g[0] if isinstance(g, tuple) and g[0] != "it" else "all of it")))
    return l


# ------------------------------------------------------------------ modules
def load(R, P):
    fn = None
    for n in sorted(P.defs):
        if re.match(r"libube::module::module\(libube::var\)$", P.dem(n)) and P.defs[n].order:
            fn = P.defs[n]
    if fn is None:
        raise Vanished("module::module")
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fn)
    l = []
    for o in r.rets():
        if warned(r):
            l.append((None, warned(r)[0][:100]))
            continue
        toks = []
        for e in walk(o.events()):
            if isinstance(e, Ev) and e.kind == "out":
                for t in e.args[1:]:
                    s = literal(P, t)
                    if s is None and is_c(t):
                        s = chr(t.a[0] & 255)
                    if s is not None and toks and isinstance(toks[-1], str):
                        toks[-1] += s
                    else:
                        toks.append(s if s is not None else t)
        op, sy = calls(o, "dlopen"), calls(o, "dlsym")
        if len(op) != 1 or not (op[0].args[0].op == "call" and op[0].args[0].a[0].endswith("varstream::str")):
            l.append((None, "the name of the library"))
        else:
            names = [t for t in toks if isinstance(t, T)]
            known = all(t.op == "m:str" and show(t.a[0]) == "v0(a1,0)" or show(t) == "v0(a1,0)" for t in names)
            spelt = [t if isinstance(t, str) else 0 for t in toks]
            l.append((spelt == ["lib", 0, ".so"] if known else None, "the library loaded is %s" % "".join(t if isinstance(t, str) else "<name>" for t in toks)))
        if len(sy) != 1:
            l.append((None if sy else False, "the factory is not looked up"))
            continue
        s = literal(P, sy[0].args[1])
        l.append((None if s is None else s == "factory", "the function called to make an instance is %r" % s))
        if op and op[0].res is not None:
            l.append((True if sy[0].args[0] is op[0].res else None, "the factory is looked up in the library"))
    end(R, "module:load", l, r, LOAD)


def graph(R, P):
    """every edge and vertex goes into the graph once; what is written is that graph"""
    def bcalls(o, name):
        return [e for e in o.events() if isinstance(e, Ev) and e.kind == "call" and "boost::%s<" % name in e.name]

    def other(o, p):
        """some other function was given the graph"""
        return any(isinstance(e, (Loop,)) or e.kind == "JOIN" or e.kind == "call" and (p is None or any(p in subterms(a) for a in e.args if isinstance(a, T)))
                   for e in o.events())

    fv, fe, fw = (one(P, "lube/graph.cpp", m) for m in ("addVertex", "addEdge", "writeGraphViz"))
    g = None
    l = []
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fv)
    for o in r.rets():
        c = bcalls(o, "add_vertex")
        if warned(r) or len(c) > 1:
            l.append((None, (warned(r) or ["more than one addition"])[0][:100]))
        elif not c:
            l.append((None if other(o, None) else False, "no vertex is added"))
        else:
            g = c[0].args[-1]
            l.append((True if o.val is c[0].res else False if is_c(o.val) else None, "what is returned is %s, not the vertex added" % show(o.val)[:40]))
    end(R, "graph:vertex", l, r, GRAPH)
    l = []
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fe)
    for o in r.rets():
        c = bcalls(o, "add_edge")
        if warned(r) or len(c) > 1:
            l.append((None, (warned(r) or ["more than one addition"])[0][:100]))
        elif not c:
            l.append((None if g is None or other(o, g) else False, "no edge is added"))
        else:
            a = [x for x in c[0].args if x in r.formals]
            l.append((True if a == list(r.formals[:2]) else False if sorted(map(show, a)) != sorted(map(show, r.formals)) and len(a) == 2 or a == list(r.formals[:2])[::-1] else None,
                      "the edge added is from %s to %s" % tuple((["?"] * 2 + [show(x) for x in a])[-2:])))
            if g is not None:
                l.append((True if c[0].args[-1] is g else None, "the graph the edge is added to"))
    end(R, "graph:edge", l, r, GRAPH)
    l = []
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=fw)
    for o in r.rets():
        c = bcalls(o, "write_graphviz")
        op = [e for e in o.events() if isinstance(e, Ev) and e.kind == "io" and e.name == "open"]
        if warned(r) or len(c) > 1 or len(op) != 1:
            l.append((None, (warned(r) or ["what is written"])[0][:100]))
        elif not c:
            l.append((None if g is None or other(o, g) else False, "the graph is not written"))
        else:
            at = mk("strm", *r.E.split(c[0].args[0]))
            l.append((True if at is op[0].args[0] or mk("strm", c[0].args[0]) is op[0].args[0] else None, "what the graph is written to"))
            l.append((None if g is None else True if g in c[0].args[1:2] else None, "the graph written"))
    end(R, "graph:write", l, r, GRAPH)


def create(R, P):
    """the instance returned is the one the factory made, and it is kept once"""
    r = Run(R, P, None, None, 0, policy=ModPolicy, fn=one(P, "lube/module.cpp", "create"))
    l = []
    for o in r.rets():
        made = [e for e in o.events() if isinstance(e, Ev) and e.kind == "call" and e.name == "indirect"]
        kept = [e for e in o.events() if isinstance(e, Ev) and e.kind == "vec"]
        if warned(r) or any(isinstance(e, Loop) or e.kind == "JOIN" for e in o.events()):
            l.append((None, "what is done"))
            continue
        if len(made) != 1:
            l.append((False if not made and not any(e.kind == "call" for e in o.events()) else None, "the factory is called %d times" % len(made)))
            continue
        cell = made[0].args[1]
        inst = o.val if o.val.op == "ld" and o.val.a[0] is r.E.split(cell)[0] else None
        push = [e for e in kept if e.name in ("push_back", "emplace_back")]
        if len(push) != len(kept) or len(push) > 1:
            l.append((None, "where the instance is kept"))
            continue
        if not push:
            l.append((False, "the instance made is not kept, and is never deleted"))
            continue
        x = push[0].args[1]
        l.append((True if x.op == "ld" and x.a[0] is r.E.split(cell)[0] else None, "what is kept"))
        l.append((True if inst is not None or o.val.op == "ld" and any(t.op == "vdata" for t in subterms(o.val.a[0])) else False if o.val is ZERO else None, "what is returned"))
        if inst is None and o.val.op == "ld":
            sz = [t for t in subterms(o.val) if t.op == "vsize"]
            l.append((True if sz else False if is_c(o.val.a[1]) else None, "the instance returned is always the same one"))
    end(R, "module:create", l, r, LOAD)


def run(R):
    R.rule(SOUND, "sound files are read and written whole: as many frames as there are, into an array of frames times channels, a row for each channel, with the rate of the file")
    R.rule(PAGE, "the library is told which page to get and what to call; each text received is appended with its length, and what has been received is returned")
    R.rule(PLOT, "commands are given to gnuplot on a line each, vectors one number to a line, matrices column by column, data ended by e")
    R.rule(DIRS, "every entry that the system gives is kept once under its path (in a tree: its name), with its parts when asked for; what is in a directory is listed in a tree, links not followed; a path that is not there is refused")
    R.rule(LOAD, "module: the library opened is lib<name>.so and the function called factory; the instance it makes is kept once and returned")
    R.rule(GRAPH, "addVertex adds one vertex and returns it, addEdge adds one edge from its first argument to its second, writeGraphViz writes that graph to the file it opens")
    todo = [("sound:read", SOUND, "lube/sndfile.cpp", sound_read), ("sound:write", SOUND, "lube/sndfile.cpp", sound_write), ("plot", PLOT, "lube/gnuplot.cpp", plot),
            ("page", PAGE, "lube/curl.cpp", page), ("directory:dir", DIRS, "lube/path.cpp", lambda R, P: listing(R, P, "dir", False)),
            ("directory:rdir", DIRS, "lube/path.cpp", lambda R, P: listing(R, P, "rdir", True)), ("directory:tree", DIRS, "lube/path.cpp", lambda R, P: listing(R, P, "tree", False)),
            ("module:load", LOAD, "lube/module.cpp", load), ("module:create", LOAD, "lube/module.cpp", create), ("graph", GRAPH, "lube/graph.cpp", graph)]
    for key, rule, unit, f in todo:
        with R.guard(key, rule):
            f(R, R.program(unit))
