"""C23: what a configuration, an option or a file of settings or lines holds is
what was set, given or read

The public functions of Config and Option and the ini and txt modules are
interpreted on all paths; the paths that can be taken for each kind of section,
entry, option and line are picked out by their guards, and what they return or
store is compared with the definition."""
import itertools
from seqm import *
from report import *
from loops import all_loops
from fmtm import Env, instantiate, emitted, truth, Unclear, has_iv_any, FmtPolicy
import bytem, c02
from bytem import bval
from c02 import Verdict

MIN_DECIDED = 6
FOUND = "what was set is found, and the default otherwise"
MERGE = "a file of settings is merged entry by entry"
OPTION = "an option holds its argument, or what it was declared with"
LINE = "a line of settings is read as what it is"
TEXT = "the lines of a text are its elements"
cstring = bytem.cstring


def done(R, r, k, V, rule):
    c02.done(R, r, k, V, rule)


def quiet_facts(o):
    return [f for f in o.facts.all() if not has_iv_any(f)]


def feasible(fs, env):
    """True, False or None: whether the conditions hold"""
    res = True
    for f in fs:
        v = truth(f, env)
        if v is False:
            return False
        if v is None:
            res = None
    return res


def taken(outs, look, V, skip=lambda f: False):
    """the paths taken in a case; an undecided one makes the verdict undecided"""
    env = Env(look)
    res = []
    for o in outs:
        v = feasible([f for f in quiet_facts(o) if not skip(f)], env)
        if v is None:
            V.put(None, "cannot tell when a path is taken")
        elif v:
            res.append(o)
    if not res:
        V.put(None, "no path is taken")
    return res


def known_term(t):
    """made of settings, sections and arguments only"""
    return all(x.op in ("v0", "kelem", "elem", "arg", "iarg", "nil", "num", "str", "m:str", "m:cast", "m:get", "m:copy", "T", "k", "c", "global", "ld", "add", "mul") or x.op[:2] == "m:" for x in subterms(t))


def same(t, want, V, what):
    V.put(True if t is want else False if t is not None and known_term(t) else None, "%s is %s" % (what, show(t) if t is not None else "not known"))


def stores(o):
    return [e for e in walk(o.events()) if e.kind == "var" and (e.name in WRITERS or e.name.startswith("set"))]


# ---------------------------------------------------------------- sections and entries
class Conf:
    def __init__(self, R, prog):
        self.R, self.prog = R, prog
        f = var_fn(prog, "configSection", ns="libube::Config::")
        self.sect = r = SeqRun(R, prog, f)
        self.all = None
        for o in r.rets():
            c = r.pol.content(r.E, o.st, r.sret)
            if c.op == "kelem" and c.a[0].op == "v0" and any(x.op == "global" for x in subterms(c.a[0])):
                self.all = c.a[0]
        self.own = mk("v0", arg(0), ZERO)

    def entry(self, s, e):
        return mk("kelem", mk("kelem", self.all, s), e)


def defined(t):
    return t.op == "m:defined" and t.a[0]


def reading(R, prog, K):
    for n, f in sorted(prog.defs.items()):
        d = prog.dem(n)
        mm = re.match(r"(?:(.*) )?libube::Config::config(?:<(.*)>)?\(libube::var(?:, (.*))?\)$", d)
        if not mm or not f.order:
            continue
        ty = mm.group(2)
        k = "config(entry)" if ty is None else "config<%s>(entry, default)" % ty
        with R.guard(k, FOUND):
            r = SeqRun(R, prog, f)
            V = Verdict(bool(r.rets()))
            sec, e = mk("kelem", K.all, K.own), mk("v0", arg(1), ZERO)
            want = K.entry(K.own, e)
            for d_, i in ((0, -1), (1, -1), (1, 0), (1, 1), (1, 4)):
                def look(t, env):
                    if defined(t) is sec:
                        return d_
                    if defined(t) is want:
                        return None if i < 0 else 1
                    if t.op == "m:index" and t.a[0] is sec and t.a[1] is e:
                        return i
                    if t.op == "m:size" and t.a[0] is sec:
                        return 5 if d_ else 0
                    return None
                for o in taken(r.outs, look, V):
                    if o.kind != "ret":
                        V.put(False if any(x.kind == "throw" for x in walk(o.events())) else None, "an entry cannot be read")
                        continue
                    if ty is None:
                        got = r.pol.content(r.E, o.st, r.sret)
                        same(got, want if i >= 0 else NIL, V, "%s entry of %s section" % ("an" if i >= 0 else "a missing", "a" if d_ else "no"))
                        continue
                    got = o.val
                    if i < 0:
                        V.put(True if got is r.formals[1] else False if got is not None and known_term(got) else None, "a missing entry gives %s" % show(got))
                        continue
                    if got is None or got is r.formals[1] or is_c(got):
                        V.put(False, "entry number %d gives %s" % (i, show(got) if got is not None else "nothing"))
                        continue
                    cs = [x for x in subterms(got) if x.op in ("m:cast", "m:str", "m:get")]
                    good = [x for x in cs if x.a[0] is want and (x.op == "m:str") == (ty == "char const*") and (x.op == "m:str" or not isinstance(x.a[1], T) or x.a[1] is mk("T", ty))]
                    V.put(True if good and got is good[0] else False if known_term(got) and cs else None, "an entry gives %s" % show(got))
            done(R, r, k, V, FOUND)
    k = "configSet()"
    with R.guard(k, FOUND):
        r = SeqRun(R, prog, var_fn(prog, "configSet", ns="libube::Config::"))
        V = Verdict(bool(r.rets()))
        want = K.entry(K.own, mk("v0", arg(1), ZERO))
        for d_ in (0, 1):
            for o in taken(r.outs, lambda t, env: d_ if defined(t) is K.own else None, V):
                if o.kind != "ret":
                    V.put(False if any(x.kind == "throw" for x in walk(o.events())) else None, "an entry cannot be set")
                    continue
                w = stores(o)
                if not d_:
                    V.put(True if not w else False if all(known_term(x) for e in w for x in e.args if isinstance(x, T)) else None, "without a section something is set")
                    continue
                if not w:
                    V.put(False if not list(all_loops(o.events())) else None, "nothing is set")
                    continue
                V.put(True if len(w) == 1 else None, "set in another way")
                e = w[-1]
                same(e.args[0], want, V, "what is set")
                if len(e.args) > 1:
                    same(e.args[1], mk("v0", arg(2), ZERO), V, "the value set")
        done(R, r, k, V, FOUND)
    for nm, pat in (("configSection()", "configSection"), ("Config()", None)):
        with R.guard(nm, FOUND):
            if pat:
                r = K.sect
            else:
                r = SeqRun(R, prog, [f for n, f in sorted(prog.defs.items()) if prog.dem(n) == "libube::Config::Config(libube::var)" and f.order and "C2E" in n][0])
            V = Verdict(bool(r.rets()))
            a = mk("v0", arg(1), ZERO)
            for d_, g in itertools.product((0, 1), (0, 1)):
                if pat and not g:
                    continue
                for o in taken(r.outs, lambda t, env: d_ if defined(t) is a else g if defined(t) is K.all else None, V):
                    if o.kind != "ret":
                        V.put(False if any(x.kind == "throw" for x in walk(o.events())) else None, "a section cannot be chosen")
                        continue
                    now = r.pol.content(r.E, o.st, arg(0))
                    ok = (a,) if d_ else (NIL, a)
                    V.put(True if now in ok else False if known_term(now) else None, "given %s the section becomes %s" % ("a section" if d_ else "nil", show(now)))
                    if pat:
                        got = r.pol.content(r.E, o.st, r.sret)
                        V.put(True if got in [mk("kelem", K.all, x) for x in ok] else False if known_term(got) else None, "what is returned is %s" % show(got))
                    if g:
                        bad = [e for e in stores(o) if e.args[0] is K.all]
                        V.put(True if not bad else False, "what was set before is lost")
            done(R, r, nm, V, FOUND)


def merging(R, prog, K):
    k = "configFile()"
    with R.guard(k, MERGE):
        r = SeqRun(R, prog, var_fn(prog, "configFile", ns="libube::Config::"))
        V = Verdict(bool(r.rets()))
        cnf = mk("uninit")

        def node(t, env):
            """the entry of the file a content is: a tuple of positions"""
            if t is cnf:
                return ()
            if t.op == "elem":
                p, i = node(t.a[0], env), bval(t.a[1], env)
                return p + (i,) if p is not None and i is not None else None
            if t.op == "kelem" and t.a[1].op == "m:key":
                p, q, i = node(t.a[0], env), node(t.a[1].a[0], env), bval(t.a[1].a[1], env)
                return p + (i,) if p is not None and p == q and i is not None else None
            return None

        for shape, was in itertools.product(((), (0,), (1,), (2, 1), (0, 2), (1, 1, 3)), (0, 1)):
            def look(t, env):
                if t.op[:2] == "m:" and t.a and isinstance(t.a[0], T) and any(x is K.all for x in subterms(t.a[0])):
                    # what was set before
                    return was if t.op == "m:defined" else was * 3 if t.op == "m:size" else was - 1 if t.op == "m:index" else None
                if t.op == "m:size":
                    p = node(t.a[0], env)
                    return len(shape) if p == () else shape[p[0]] if p is not None and len(p) == 1 and 0 <= p[0] < len(shape) else None
                if t.op == "m:defined" and node(t.a[0], env) is not None:
                    return 1
                return None
            got = {}

            def emit(e, env):
                if e.kind != "var" or e.name not in WRITERS or not e.args:
                    return
                t = e.args[0]
                if not any(x is K.all for x in subterms(t)):
                    if any(x is cnf for x in subterms(t)):
                        raise Unclear("the file is changed")
                    return
                if t.op != "kelem" or t.a[0].op != "kelem" or t.a[0].a[0] is not K.all:
                    if known_or_file(t):
                        V.put(False, "%s is set" % show(t))
                    raise Unclear(show(t))
                key = []
                for x in (t.a[0].a[1], t.a[1]):
                    if x.op != "m:key":
                        if known_term(x):
                            V.put(False, "%s is set" % show(t))
                        raise Unclear(show(x))
                    p, i = node(x.a[0], env), bval(x.a[1], env)
                    if p is None or i is None:
                        raise Unclear(show(x))
                    key.append(p + (i,))
                v = node(e.args[1], env)
                if v is None:
                    raise Unclear(show(e.args[1]))
                if e.name == "assign_elem":
                    got[tuple(key)] = v
                else:
                    raise Unclear(e.name)
            for o in r.rets():
                try:
                    got.clear()
                    env = Env(look)
                    instantiate(list(o.events()), env, emit, frozenset(f for f in o.facts.all() if truth(f, env) is None))
                except Unclear as x:
                    V.put(None, "another form: %s" % x)
                    continue
                want = {((i,), (i, j)): (i, j) for i, n in enumerate(shape) for j in range(n)}
                V.put(got == want, "a file with sections of %s entries sets %s" % (list(shape), sorted(got.items())))
        done(R, r, k, V, MERGE)


def known_or_file(t):
    return all(x.op in ("v0", "kelem", "elem", "m:key", "uninit", "iv", "ivx", "ver", "k", "c", "arg", "global", "add") for x in subterms(t))


# ---------------------------------------------------------------- options
OPT = "libube::Option::"


def opt_fn(prog, pat):
    for n, f in sorted(prog.defs.items()):
        if re.match(OPT + pat + "$", prog.dem(n)) and f.order and "C1E" not in n:
            return f
    raise Vanished("no %s%s" % (OPT, pat))


class Layout:
    """where an Option keeps what: found from the functions that set it"""
    def __init__(self, R, prog):
        L = self
        L.argc = L.argv = L.opts = L.string = L.opt = L.usage = None
        r = self.make = SeqRun(R, prog, opt_fn(prog, r"Option\(int, char\*\*, libube::var\)"))
        for o in r.rets():
            for off, (sz, v) in o.st.mem.get(arg(0), {}).items():
                if v is r.formals[0]:
                    L.argc = off
                elif v is r.formals[1]:
                    L.argv = off
            for kk, c in o.st.aux.items():
                if isinstance(kk, tuple) and kk[0] == "v" and c is mk("v0", arg(3), ZERO) and any(x is arg(0) for x in subterms(kk[1])):
                    L.string = mk("v0", kk[1], ZERO)
        r = self.next = SeqRun(R, prog, opt_fn(prog, r"operator bool\(\)"))
        for o in r.rets():
            for off, (sz, v) in o.st.mem.get(arg(0), {}).items():
                if v.op == "call" and v.a[0] == "getopt":
                    L.opt = off
        r = self.line = SeqRun(R, prog, opt_fn(prog, r"operator\(\)\(libube::var\)"))
        for o in r.rets():
            for e in walk(o.events()):
                if e.kind == "var" and e.name == "push":
                    L.usage = e.args[0]
        r = self.declare = SeqRun(R, prog, opt_fn(prog, r"operator\(\)\(char, libube::var, libube::var\)"))
        for o in r.rets():
            for e in walk(o.events()):
                if e.kind == "var" and e.name == "assign_elem" and e.args[0].op == "kelem":
                    L.opts = e.args[0].a[0]




def field(off, size):
    return mk("ld", arg(0), off, size, ZERO)


def is_char(t, c):
    return t.op == "num" and t.a[0] is mk("T", "char") and t.a[1] is c or t.op == "num" and "char" == t.a[0] and t.a[1] is c


def options(R, prog):
    L = Layout(R, prog)
    k = "Option(argc, argv, options)"
    with R.guard(k, OPTION):
        r = L.make
        V = Verdict(bool(r.rets()))
        a = mk("v0", arg(3), ZERO)
        for d_ in (0, 1):
            for o in taken(r.outs, lambda t, env: d_ if defined(t) is a else None, V):
                if o.kind != "ret":
                    continue
                vs = [v for off, (sz, v) in o.st.mem.get(arg(0), {}).items()]
                V.put(True if r.formals[0] in vs and r.formals[1] in vs else None, "the arguments are not kept")
                ind = [(off, v) for b, mm in o.st.mem.items() if b.op == "global" and b.a[0] == "optind" for off, (sz, v) in mm.items()]
                V.put(True if ind and ind[-1][1] is ONE else False if ind and is_c(ind[-1][1]) else None, "the search for options starts at argument %s" % (show(ind[-1][1]) if ind else "?"))
                if L.string is not None:
                    c = r.pol.content(r.E, o.st, L.string.a[0])
                    e = c.op == "str" and c.a[0].op == "global" and cstring(prog, c.a[0])
                    V.put(True if c is a and d_ else True if not d_ and isinstance(e, bytes) and e.split(b"\0")[0] == b"" else
                          False if known_term(c) else None, "given %s the options are %s" % ("options" if d_ else "nil", show(c)))
        done(R, r, k, V, OPTION)
    k = "Option as a condition"
    with R.guard(k, OPTION):
        r = L.next
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            g = [e for e in walk(o.events()) if e.kind == "call" and e.name.startswith("getopt")]
            if len(g) != 1 or L.argc is None or L.string is None:
                V.put(None, "options are found in another way")
                continue
            want = (field(L.argc, 4), field(L.argv, 8), mk("m:str", L.string))
            for w, x in zip(want, g[0].args):
                V.put(True if x is w else False if known_term(x) else None, "getopt() is given %s" % show(x))
            keep = o.st.mem.get(arg(0), {})
            V.put(True if any(v is g[0].res for sz, v in keep.values()) else False if not any(e.kind == "store" for e in walk(o.events())) else None, "the option found is not kept")
            for c in (-1, 58, 97):
                v = bval(o.val, {g[0].res: c})
                V.put(None if v is None else bool(v) == (c != -1), "after option %d there %s more" % (c, "is" if v else "is no"))
        done(R, r, k, V, OPTION)
    k = "Option::arg()"
    with R.guard(k, OPTION):
        r = SeqRun(R, prog, opt_fn(prog, r"arg\(\)(?: const)?"))
        V = Verdict(bool(r.rets()))
        for p, last in itertools.product((0, 1 << 20), (-1, 63, 97)):
            for o in taken(r.outs, lambda t, env: p if t.op == "ld" and t.a[0].op == "global" and t.a[0].a[0] == "optarg" else last if L.opt is not None and t is field(L.opt, 4) else None, V):
                if o.kind == "ret":
                    c = r.pol.content(r.E, o.st, r.sret)
                    good = c.op == "str" and c.a[0].op == "ld" and c.a[0].a[0].op == "global" and c.a[0].a[0].a[0] == "optarg"
                    V.put(good and p != 0 if good or c.op in ("nil", "num", "str") else None, "%s argument is %s" % ("an" if p else "no", show(c)))
                elif any(e.kind == "throw" for e in o.events()):
                    V.put(not p, "an argument is refused")
        done(R, r, k, V, OPTION)
    k = "Option::args()"
    with R.guard(k, OPTION):
        r = SeqRun(R, prog, opt_fn(prog, r"args\(\)"))
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            c = r.pol.content(r.E, o.st, r.sret)
            if c.op != "m:ctor" or len(c.a) < 3 or L.argc is None:
                V.put(None, "the arguments are %s" % show(c))
                continue
            n, p = c.a[1], c.a[2]
            for cnt, i in ((5, 1), (5, 3), (4, 4)):
                env = {}
                for x in list(subterms(n)) + list(subterms(p)):
                    if x.op == "ld":
                        if x.a[0].op == "global" and x.a[0].a[0] == "optind":
                            env[x] = i
                        elif x is field(L.argc, 4):
                            env[x] = cnt
                        elif x is field(L.argv, 8):
                            env[x] = 1 << 20
                a, b = bval(n, env), bval(p, env)
                V.put(None if a is None or b is None else a == cnt - i and b == (1 << 20) + 8 * i,
                      "of %d words, where options end at %d, %s from number %s on are arguments" % (cnt, i, a, None if b is None else (b - (1 << 20)) / 8))
        done(R, r, k, V, OPTION)
    k = "Option(c, description, default)"
    with R.guard(k, OPTION):
        r = L.declare
        V = Verdict(bool(r.rets()))
        a = mk("v0", arg(3), ZERO)
        ch = r.formals[0]
        for d_, sz in ((0, 0), (1, 0), (1, 1), (1, 3)):
            for o in taken(r.outs, lambda t, env: d_ if defined(t) is a else sz if t.op == "m:size" and t.a[0] is a else None, V):
                if o.kind != "ret":
                    continue
                ev = list(walk(o.events()))
                w = [e for e in ev if e.kind == "var" and e.name in WRITERS]
                sets = [e for e in w if e.args[0].op == "kelem"]
                if not sets:
                    V.put(None, "the default is kept in another way")
                else:
                    V.put(True if is_num(sets[-1].args[0].a[1], ch) else False if known_term(sets[-1].args[0]) else None, "the default is kept as %s" % show(sets[-1].args[0]))
                    same(sets[-1].args[1], a, V, "the default kept")
                ps = [e for e in w if e.name == "push" and e.args[0] is L.string]
                pushed = [e.args[1] for e in ps]
                if not L.string or not pushed:
                    V.put(None, "the option is declared in another way")
                else:
                    V.put(True if is_num(pushed[0], ch) else False if pushed[0].op == "num" else None, "the first character declared is %s" % show(pushed[0]))
                    colon = [x for x in pushed[1:] if x.op == "num" and is_num(x, C(58))]
                    if len(colon) != len(pushed) - 1:
                        V.put(None, "declared otherwise")
                    else:
                        V.put(len(colon) == d_, "an option %s default is declared to %s" % ("with a" if d_ else "without", "take an argument" if len(colon) else "take no argument"))
                lines = [e for e in w if e.name == "push" and e.args[0] is L.usage]
                V.put(True if len(lines) == 1 else False if L.usage is not None and len(lines) != 1 and all(known_term(e.args[0]) for e in w) else None, "%d lines of usage are added" % len(lines))
        done(R, r, k, V, OPTION)
    k = "Option(text)"
    with R.guard(k, OPTION):
        r = L.line
        V = Verdict(bool(r.rets()))
        for o in r.rets():
            w = [e for e in walk(o.events()) if e.kind == "var" and e.name in WRITERS]
            if len(w) != 1 or w[0].name != "push":
                V.put(False if not w else None, "%d lines of usage are added" % len(w))
                continue
            t = w[0].args[1]
            while t.op in ("str", "m:str", "m:copy"):
                t = t.a[0]
            same(t, mk("v0", arg(1), ZERO), V, "the line of usage")
        done(R, r, k, V, OPTION)
    k = "Option::operator[]"
    with R.guard(k, OPTION):
        try:
            r = SeqRun(R, prog, opt_fn(prog, r"operator\[\]\(char\)"))
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                c = r.pol.content(r.E, o.st, r.sret)
                V.put(True if c.op == "kelem" and c.a[0] is L.opts and is_num(c.a[1], r.formals[0]) else False if known_term(c) and L.opts is not None else None, "the option is %s" % show(c))
            done(R, r, k, V, OPTION)
        except Vanished:
            pass              # inline, not used here
    parsing(R, prog, L)
    with R.guard("Option::usage()", OPTION):
        r = SeqRun(R, prog, opt_fn(prog, r"usage\(\)"))
        V = Verdict(bool(r.rets()))
        for n in range(4):
            def look(t, env):
                if t.op == "m:size" and t.a[0] is L.usage:
                    return n
                return None

            def value(t, ty, env):
                for x in subterms(t):
                    if x.op == "elem" and x.a[0] is L.usage:
                        return ("line", bval(x.a[1], env))
                return ("other", show(t))
            for o in r.rets():
                try:
                    x = emitted(prog, o, look, set(), value)
                except Unclear as u:
                    V.put(None, str(u))
                    continue
                if x is None:
                    continue
                toks = x[0]
                got = [t[1] for t in toks if isinstance(t, tuple) and t[0] == "line"]
                V.put(got == list(range(n)) if None not in got else None, "of %d lines of usage numbers %s are shown" % (n, got))
                after = [toks[i + 1] if i + 1 < len(toks) else "" for i, t in enumerate(toks) if isinstance(t, tuple) and t[0] == "line"]
                V.put(True if all(isinstance(t, str) and t.startswith("\n") for t in after) else False if all(isinstance(t, str) or t[0] == "line" for t in after) else None, "a line of usage does not end")
        done(R, r, "Option::usage()", V, OPTION)


def is_num(t, c):
    return t.op == "num" and t.a[-1] is c and "char" in show(t.a[0])


def parsing(R, prog, L):
    k = "Option::parse()"
    with R.guard(k, OPTION):
        r = SeqRun(R, prog, opt_fn(prog, r"parse\(int, char\*\*\)"), policy=OptSeq)
        V = Verdict(bool(r.rets()))
        if L.argc is not None and L.argv is not None:
            st = r.pol.__dict__.get("stored", set())
            for off, v in ((L.argc, r.formals[0]), (L.argv, r.formals[1])):
                if is_c(off):
                    V.put(True if (off.a[0], v) in st else None if not st else False, "the words given are not kept")
        for o in r.rets():
            c = r.pol.content(r.E, o.st, r.sret)
            V.put(True if c is L.opts else False if known_term(c) else None, "what is returned is %s" % show(c))
        loops = {id(l): l for o in r.outs for l in o.events() if isinstance(l, Loop) and any(e.kind == "call" and e.name.startswith("getopt") for f, b in l.bodies for e in walk(b))}
        if not loops:
            V.put(None, "options are found in another way")
        tails = [(list(o.facts.all()), [e for e in o.events() if not isinstance(e, Loop)], o.kind) for o in r.outs]
        for l in loops.values():
            cand = [(list(f.all()), b, "body") for f, b in l.bodies]
            for c, p, was in itertools.product((97, 63, 58), (0, 1 << 20), (0, 1)):
                def look(t, env):
                    if t.op == "call" and t.a[0] == "getopt":
                        return c
                    if t.op == "ld" and t.a[0].op == "global" and t.a[0].a[0] == "optarg":
                        return p
                    if defined(t) and any(x is L.opts for x in subterms(t.a[0])):
                        return was
                    if t.op == "m:index" and t.a[0] is L.opts:
                        return 0 if was else -1
                    if t.op == "m:==" and len(t.a) >= 2:
                        x, y = t.a[0], t.a[1]
                        if x.op == "num" and y.op == "num":
                            u, v = bval(x.a[-1], env), bval(y.a[-1], env)
                            return None if u is None or v is None else int((u & 255) == (v & 255))
                    return None
                env = Env(look)
                poss = [(b, feasible([f for f in fs if any(x.op in ("call", "ld") or x is L.opts for x in subterms(f))], env)) for fs, b, kd in cand]
                if any(v is None for b, v in poss):
                    V.put(None, "cannot tell when a path is taken")
                    continue
                poss = [b for b, v in poss if v]
                if c == 63:
                    V.put(True if not poss else False if all(not any(e.kind == "call" and e.name.startswith("exit") for e in walk(b)) for b in poss) else None, "an option not known is taken as one")
                    continue
                V.put(True if len(poss) >= 1 else None, "an option is not stored")
                for b in poss:
                    w = [e for e in walk(b) if e.kind == "var" and e.name in WRITERS and any(x is L.opts for x in subterms(e.args[0]))]
                    if len(w) != 1 or w[0].name != "assign_elem" or w[0].args[0].op != "kelem":
                        V.put(False if not w and not [e for e in walk(b) if e.kind == "var" and e.name in WRITERS] else None, "an option is not stored")
                        continue
                    key, v = w[0].args[0].a[1], w[0].args[1]
                    g = [e.res for e in walk(b) if e.kind == "call" and e.name.startswith("getopt")]
                    x = key
                    kv = bval(x.a[-1], env) if x.op == "num" else None
                    V.put(None if kv is None or not g else (kv & 255) == c and "char" in show(x.a[0]), "option %d is stored as %s" % (c, show(key)))
                    isarg = v.op == "str" and v.a[0].op == "ld" and v.a[0].a[0].op == "global" and v.a[0].a[0].a[0] == "optarg"
                    isone = v.op == "num" and bval(v.a[-1], env) == 1
                    V.put((isarg if p else isone) if isarg or v.op in ("num", "nil") else None, "an option %s argument holds %s" % ("with an" if p else "without", show(v)))
        done(R, r, k, V, OPTION)


class OptSeq(SeqPolicy):
    def on_store(self, E, st, ins, addr, size, val):
        b, off = E.split(addr)
        if b is arg(0) and is_c(off):
            self.__dict__.setdefault("stored", set()).add((off.a[0], val))
        SeqPolicy.on_store(self, E, st, ins, addr, size, val)


# ---------------------------------------------------------------- files
def mode_of(prog, o, cls):
    """how a file is opened"""
    for e in walk(o.events()):
        if e.kind == "call" and cls in e.name and ("basic_%s" % cls in e.name or "::open" in e.name) and is_c(e.args[-1]):
            if e.name.split("(")[0].split("::")[-1].startswith("basic_") or "open" in e.name.split("(")[0]:
                return e.args[-1].a[0]
    return None


def module_fn(prog, cls, meth):
    for n, f in sorted(prog.defs.items()):
        if short(prog.dem(n)) == "libube::%s::%s" % (cls, meth) and f.order:
            return f
    raise Vanished("no %s::%s" % (cls, meth))


def line_content(ev):
    """content of the line read and the place in the events"""
    g = [e for e in ev if e.kind == "var" and e.name == "getline"]
    return g[0].args[0] if len({e.args[0] for e in g}) == 1 else None


KINDS = [  # name, size, first, position of ], parts at =, parts at :, what it is
    ("an empty line", 0, 0, -1, 0, 0, "skip"),
    ("a comment after ;", 3, 59, -1, 1, 1, "skip"),
    ("a comment after #", 3, 35, -1, 1, 1, "skip"),
    ("a comment after ; with =", 5, 59, -1, 2, 1, "skip"),
    ("a comment after # with :", 5, 35, -1, 1, 2, "skip"),
    ("a lone ;", 1, 59, -1, 1, 1, "skip"),
    ("[name]", 6, 91, 5, 1, 1, "section"),
    ("[name] and more", 9, 91, 5, 1, 1, "section"),
    ("[na=me]", 7, 91, 6, 2, 1, "section"),
    ("[]", 2, 91, 1, 1, 1, "section"),
    ("[ without ]", 5, 91, -1, 1, 1, "refuse"),
    ("key = value", 9, 107, -1, 2, 1, "="),
    ("key : value", 9, 107, -1, 1, 2, ":"),
    ("key = a : b", 9, 107, -1, 2, 2, "="),
    ("key = [a]", 9, 107, 8, 2, 1, "="),
    ("neither", 4, 107, -1, 1, 1, "refuse"),
    ("a single character", 1, 107, -1, 1, 1, "refuse"),
]


def seps(prog, t):
    s = cstring(prog, t) if t.op == "global" else cstring(prog, t.a[0]) if t.op == "str" and t.a[0].op == "global" else None
    if s is not None:
        return s.split(b"\0")[0].decode("latin-1")
    if t.op == "num" and is_c(t.a[-1]):
        return chr(t.a[-1].a[0] & 255)
    return None


def settings(R, prog):
    k = "inifile::read()"
    with R.guard(k, LINE):
        r = SeqRun(R, prog, module_fn(prog, "inifile", "read"))
        V = Verdict(bool(r.rets()))
        cand = []
        for o in r.outs:
            tail = list(o.events())
            i = max([j for j, e in enumerate(tail) if isinstance(e, Loop)], default=-1)
            if i >= 0:
                for f, b in tail[i].bodies:
                    if not any(b is x[1] for x in cand):
                        cand.append((list(f.all()), b, "body"))
            cand.append((list(o.facts.all()), [e for e in tail[i + 1:]], o.kind))
        cand = [(fs, list(b), kd, line_content(walk(b))) for fs, b, kd in cand]
        cand = [c for c in cand if c[3] is not None]
        if not any(kd == "body" for fs, b, kd, ln in cand):
            V.put(None, "lines are read in another way")
        sections = set()
        for fs, b, kd, ln in cand:
            if any(isinstance(e, Loop) for e in b) or any(e.kind == "JOIN" for e in b):
                V.put(None, "a line is read in a loop of its own")
        for name, n, c, close, eq_, col, what in KINDS:
            for fs, b, kd, ln in cand:
                ev = list(walk(b))
                st = [i for i, e in enumerate(ev) if e.kind == "var" and e.name == "strip" and e.args[0] is ln]
                raw = {e.res.a[0] if e.res.op in ("not", "bool") and isinstance(e.res.a[0], T) else e.res for e in ev[:st[0] if st else len(ev)] if e.kind == "read" and e.res is not None}
                raw |= {y.a[0] for y in list(raw) if y.op in ("not", "bool") and isinstance(y.a[0], T)}

                def look(t, env):
                    if not t.op.startswith("m:"):
                        return None
                    un = 1 if t in raw else 0       # there are blanks around it yet
                    if t.op == "m:defined" and t.a[0] is ln:
                        return 1
                    if t.op == "m:size":
                        if t.a[0] is ln:
                            return n + 2 * un
                        x = t.a[0]
                        if x.op == "m:split" and x.a[0] is ln:
                            s = seps(prog, x.a[1])
                            return eq_ if s == "=" else col if s == ":" else None
                    if t.op == "m:==":
                        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                            if x.op == "num" and y.op == "elem" and y.a[0] is ln and is_c(x.a[-1]):
                                if y.a[1] is ONE and n > 1:
                                    # the second character is a letter, in a blank line a blank
                                    return int((x.a[-1].a[0] & 255) == (c if un else 120))
                                if y.a[1] is not ZERO:
                                    return None
                                return int((x.a[-1].a[0] & 255) == (32 if un else c))
                    if t.op == "m:index" and t.a[0] is ln and len(t.a) > 1:
                        if is_num(t.a[1], C(93)):
                            return close + un if close >= 0 else -1
                        for parts, ch in ((eq_, 61), (col, 58)):
                            if is_num(t.a[1], C(ch)):
                                return 3 + un if parts > 1 else -1
                    return None
                env = Env(look)
                mine = [f for f in fs if any(x is ln for x in subterms(f))]
                v = feasible(mine, env)
                if v is False:
                    continue
                if v is None:
                    V.put(None, "cannot tell what is done with %s" % name)
                    continue
                throws = kd != "body" and any(e.kind == "throw" for e in ev) or kd == "body" and any(e.kind == "throw" for e in ev)
                if kd == "ret":
                    V.put(None, "reading ends")
                    continue
                if throws or what == "refuse":
                    V.put(throws and what == "refuse", "%s is %s" % (name, "refused" if throws else "accepted"))
                    continue
                w = [e for e in ev if e.kind == "var" and e.name in WRITERS and e.args]
                sets = [e for e in w if e.name == "assign_elem"]
                if what == "skip":
                    V.put(True if not w else False if sets or any(e.name == "assign" and e.args[0].op.startswith("v") for e in w) else None, "%s changes what is read" % name)
                    continue
                if what == "section":
                    V.put(True if not sets else False, "%s sets something" % name)
                    got = part(w, ln, env, n)
                    if got is None:
                        V.put(False if not [e for e in w if e.name == "assign"] else None, "%s is not taken as a section" % name)
                        continue
                    tgt, (frm, ln_) = got
                    sections.add(tgt)
                    V.put((frm, ln_) == (1, close - 1), "of %s the %s characters from number %s are the name" % (name, ln_, frm))
                    continue
                # a setting
                if len(sets) != 1:
                    V.put(False if not w else None, "%s sets nothing" % name)
                    continue
                e = sets[0]
                t, v = e.args[0], e.args[1]
                if t.op != "kelem" or t.a[0].op != "kelem":
                    V.put(None, "%s sets %s" % (name, show(t)))
                    continue
                sections.add(t.a[0].a[1])
                before = ev[:ev.index(e)]
                for x, i, role in ((t.a[1], 0, "key"), (v, 1, "value")):
                    if x.op != "elem" or x.a[0].op != "m:split" or x.a[0].a[0] is not ln or not is_c(x.a[1]):
                        V.put(None, "the %s is %s" % (role, show(x)))
                        continue
                    V.put(x.a[1].a[0] == i, "of %s part %d is the %s" % (name, x.a[1].a[0], role))
                    sp = x.a[0]
                    V.put(seps(prog, sp.a[1]) == what, "%s is split at %s" % (name, seps(prog, sp.a[1])))
                    lim = sp.a[2] if len(sp.a) > 2 else None
                    V.put(True if lim is C(2) else False if lim is not None and is_c(lim) else None, "%s is split %s times" % (name, show(lim)))
                    V.put(True if any(y.kind == "var" and y.name == "strip" and y.args[0] is x for y in before) else False, "the %s keeps its blanks" % role)
        V.put(True if len(sections) == 1 else None, "sections are kept in several ways")
        done(R, r, k, V, LINE)


def part(w, ln, env, n):
    """the last var assigned and which part of the line it becomes: (var, (from, length))"""
    val, tgt = {}, None
    for e in w:
        t = e.args[0]
        if e.name == "assign":
            x = e.args[1]
            if x.op == "m:copy" and x.a[0] is ln:
                val.setdefault(x, [0, n])
                tgt = t
                val[t] = val[x]
            elif x in val:
                tgt = t
                val[t] = val[x]
            else:
                return None
        elif e.name == "resize":
            def sizes(x, en):
                y = x.a[0] if x.op == "m:size" else None
                return (val[y][1] if y in val else n if y is ln or y is not None and y.op == "m:copy" and y.a[0] is ln else None) if y is not None else env.look(x, en)
            z = bval(e.args[1], Env(sizes))
            if t not in val and t.op == "m:copy" and t.a[0] is ln:
                val[t] = [0, n]
            if t not in val or z is None:
                return None
            val[t][1] = z
        elif e.name == "shift":
            if t not in val and t.op == "m:copy" and t.a[0] is ln:
                val[t] = [0, n]
            if t not in val:
                return None
            val[t][0] += 1
            val[t][1] -= 1
        else:
            return None
    return None if tgt is None else (tgt, tuple(val[tgt]))


def texts(R, prog, cls):
    if cls == "txtfile":
        k = "txtfile::read()"
        with R.guard(k, TEXT):
            r = SeqRun(R, prog, module_fn(prog, cls, "read"))
            V = Verdict(bool(r.rets()))
            for o in r.rets():
                tail = list(o.events())
                ls = [e for e in tail if isinstance(e, Loop)]
                if len(ls) != 1 or any(e.kind == "JOIN" for e in tail):
                    V.put(None, "lines are read in another way")
                    continue
                for f, b in ls[0].bodies:
                    ev = list(walk(b))
                    ln = line_content(ev)
                    if ln is None or any(e.kind == "JOIN" or isinstance(e, Loop) for e in b):
                        V.put(None, "lines are read in another way")
                        continue
                    ps = [e for e in ev if e.kind == "var" and e.name in WRITERS]
                    other = [e for e in ev if e.kind == "var" and e.args and e.args[0] is ln and e.name not in ("getline",) and not e.name.startswith("elem")]
                    if not ps:
                        V.put(False if not other else None, "a line is left out")
                        continue
                    if len(ps) > 1 or ps[0].name != "push":
                        V.put(False if [e.name for e in ps] == ["push"] * len(ps) else None if ps[0].name != "unshift" else False, "a line becomes %d elements" % len(ps))
                        continue
                    V.put(True if ps[0].args[1].op == "m:copy" and ps[0].args[1].a[0] is ln else None, "a line becomes %s" % show(ps[0].args[1]))
                    if other:
                        V.put(False if any(e.name in ("strip", "chomp", "shift", "pop", "resize") for e in other) else None, "a line is changed")
                after = tail[tail.index(ls[0]) + 1:]
                V.put(True if not [e for e in walk(after) if e.kind == "var" and e.name in WRITERS] else None, "something follows the lines")
            done(R, r, k, V, TEXT)
    k = "%s::write()" % cls
    with R.guard(k, TEXT):
        r = SeqRun(R, prog, module_fn(prog, cls, "write"))
        V = Verdict(bool(r.rets()))
        src = mk("v0", arg(2), ZERO)
        for n in range(4):
            def look(t, env):
                return n if t.op == "m:size" and t.a[0] is src else 1 if defined(t) is src else None

            def value(t, ty, env):
                while t.op in ("m:str", "str", "m:copy"):
                    t = t.a[0]
                if t.op == "elem" and t.a[0] is src:
                    i = bval(t.a[1], env)
                    if i is not None:
                        return ("el", i)
                raise Unclear(show(t))
            for o in r.rets():
                m_ = mode_of(prog, o, "ofstream")
                if m_ is not None:
                    V.put(False if m_ & 1 or m_ & 8 and not m_ & 32 else True, "the file is opened to keep what it held")
                try:
                    x = emitted(prog, o, look, set(), value)
                except Unclear as u:
                    V.put(None, str(u))
                    continue
                if x is None:
                    continue
                want = [y for i in range(n) for y in (("el", i), "\n")]
                V.put(x[0] == want, "of %d elements is written %s" % (n, x[0]))
        done(R, r, k, V, TEXT)


def run(R):
    R.rule(FOUND, "config() finds an entry exactly if its section has it, and gives nil or the default otherwise; configSet() sets it in the section that configSection() chose")
    R.rule(MERGE, "configFile() sets every entry of every section of the file to its value there")
    R.rule(OPTION, "a declared option holds its default until parse() stores its argument, or 1; what follows the options are the arguments")
    R.rule(LINE, "a stripped line is blank, a comment, a [section], a setting split at its first = or else :, or is refused")
    R.rule(TEXT, "reading a text gives its lines in order, writing writes every element as a line")
    prog = R.program("lube/config.cpp", "lube/heap.cpp")

    ini, txt = R.program("lube/inifile.cpp", "lube/heap.cpp"), R.program("lube/txtfile.cpp", "lube/heap.cpp")

    def conf(R):
        K = Conf(R, prog)
        reading(R, prog, K)
        merging(R, prog, K)
    R.parallel([conf, lambda R: options(R, prog), lambda R: settings(R, ini), lambda R: texts(R, txt, "txtfile"), lambda R: texts(R, ini, "inifile")])
    return R.finish(MIN_DECIDED)
