"""Abstract effect of code that uses the operating system and other libraries:
handles that must be released, statuses that must be looked at, and streams
that remember failure.

A handle is the result of an acquiring function; every use is an event.  A
stream is an abstract object with a version that changes with every operation;
fail(), bad(), eof(), is_open() and the conversions are predicates of a stream
at a version, so facts about them hold for that point of the history only."""
from functor import *

# acquiring function: (releasing functions, how the handle is returned)
HANDLES = {
    "sf_open": ("sf_close",), "sf_open_fd": ("sf_close",), "sf_open_virtual": ("sf_close",),
    "popen": ("pclose",), "fopen": ("fclose",), "fdopen": ("fclose",), "tmpfile": ("fclose",),
    "dlopen": ("dlclose",),
    "XML_ParserCreate": ("XML_ParserFree",), "XML_ParserCreateNS": ("XML_ParserFree",), "XML_ParserCreate_MM": ("XML_ParserFree",),
    "curl_easy_init": ("curl_easy_cleanup",), "curl_slist_append": ("curl_slist_free_all",), "curl_multi_init": ("curl_multi_cleanup",),
    "opendir": ("closedir",), "malloc": ("free", "realloc"), "calloc": ("free", "realloc"), "strdup": ("free",),
}
RELEASE = {f for v in HANDLES.values() for f in v}
# status functions: what the result says when the call worked
#   "nonnull" result != 0, "zero" result == 0, "nonneg" result >= 0, ("arg", k) result == argument k
STATUS = {
    "XML_Parse": "nonzero", "XML_ParseBuffer": "nonzero",
    "curl_easy_perform": "zero",
    "fputs": "nonneg", "fprintf": "nonneg", "fputc": "nonneg", "putc": "nonneg",
    "sf_readf_float": ("arg", 2), "sf_read_float": ("arg", 2), "sf_writef_float": ("arg", 2), "sf_write_float": ("arg", 2),
    "fwrite": ("arg", 2), "fread": ("arg", 2),
    "fflush": "zero",
}
# may call back into C++ and so throw
CALLBACK = {"XML_Parse", "XML_ParseBuffer", "curl_easy_perform"}
# failures other than for want of memory
QUIET = re.compile(r"(libube::(var::(var|~var|size|atype|type|defined|dim|heap|operator bool)\b|error::|varstream|operator<<)|std::|operator new)")
SMART = re.compile(r"std::(unique_ptr|__uniq_ptr|tuple|_Tuple_impl|_Head_base|get|__get_helper|default_delete|forward|move|"
                   r"swap|make_unique|exchange|addressof|min|max|remove_reference|decay|__invoke|reference_wrapper|"
                   r"__uniq_ptr_impl|__uniq_ptr_data)\b")

IOQ = {"fail": "sfail", "bad": "sbad", "eof": "seof", "good": "sgood", "is_open": "sopen", "operator bool": "!sfail", "operator!": "sfail",
       "operator void*": "!sfail"}
STREAM = re.compile(r"std::(basic_[io]?f?stream|basic_ios|basic_[io]stream|basic_stringstream|basic_filebuf)\b.*?>::(~?[\w ]+|operator[^:]*)$")


class ResPolicy(FunctorPolicy):
    def clobbers(self, name, dem, ins, args):
        if name and not name.startswith("_Z") and name != "factory" and any(name in m_.declares for m_ in self.prog.mods):
            # a library stores what it is given; only results are written here
            return [args[2]] if name.startswith("sf_open") and len(args) > 2 else []
        return FunctorPolicy.clobbers(self, name, dem, ins, args)

    def inline(self, name, dem):
        if short(dem).startswith(("__gnu_cxx::__normal_iterator", "__gnu_cxx::operator", "bool __gnu_cxx::operator")):
            return True
        if SMART.match(short(dem)) or name.startswith(("_ZNSt5tuple", "_ZNSt10unique_ptr", "_ZNSt15__uniq")):
            return True
        return FunctorPolicy.inline(self, name, dem)

    def may_unwind(self, name, dem, ins):
        if not self.unwind:
            return False
        if not name.startswith("_Z"):
            return name in CALLBACK
        return not QUIET.match(short(dem)) and FunctorPolicy.may_unwind(self, name, dem, ins)

    def thrower(self, E, st0, ins, dem, outs, args=()):
        if QUIET.match(short(dem)):
            return outs
        return FunctorPolicy.thrower(self, E, st0, ins, dem, outs, args)

    # ------------------------------------------------------------ streams
    def sid(self, E, p):
        """the object a stream pointer belongs to: whole objects and members"""
        c, terms = lin(p)
        k = [x for x in terms if x.op in ("alloca", "arg", "new", "global")]
        if not k and len(terms) == 2 and c == 0:
            # a stream given by reference: its base is found through its table
            b = [x for x in terms if x.op == "iarg"]
            v = [x for x in terms if x.op == "ld"]
            if len(b) == 1 and len(v) == 1 and any(y.op == "ld" and b[0] in subterms(y) for y in subterms(v[0]) if y is not v[0]):
                return mk("strm", b[0])
        if len(k) != 1:
            return mk("strm", p)
        return mk("strm", k[0], C(c))

    def iov(self, st, s):
        return st.aux.get(("io", s), ZERO)

    def io(self, E, st, ins, op, s, extra=()):
        """an operation that changes the state of a stream"""
        E.uid += 1
        v = mk("iov", E.uid)
        st.aux = dict(st.aux)
        st.aux[("io", s)] = v
        st.emit(Ev("io", op, (s, v) + tuple(extra), None, ins, st.facts))
        return v

    def widen_aux(self, key, old, new, ctx):
        if isinstance(key, tuple) and key[0] in ("io", "vec"):
            return mk("iovx", ctx, key[1])
        return FunctorPolicy.widen_aux(self, key, old, new, ctx)

    def join_aux(self, key, vals, ctx):
        if isinstance(key, tuple) and key[0] in ("io", "vec") and not all(v == vals[0] for v in vals):
            return mk("iovx", ctx, key[1])
        return FunctorPolicy.join_aux(self, key, vals, ctx)

    def special(self, E, st, ins, name, dem, s, args):
        if not name.startswith("_Z"):
            r = self.library(E, st, ins, name, dem, args)
            if r is not None:
                return r
        m = re.match(r"std::vector<.*>::(\w+|operator\[\]|~vector)$", s)
        if m:
            r = self.vector(E, st, ins, name, dem, m.group(1), args)
            if r is not None:
                return r
        if s.startswith("std::char_traits<char>::"):
            w = s[24:]
            if w == "eof":
                return [Outcome("ret", C(-1), st)]
            if w == "eq_int_type" and ins.ty == "i1":
                a = [E.load(st, x, 4) if x.op in ("alloca",) else None for x in args[:2]]
                if None not in a:
                    return [Outcome("ret", eq(a[0], a[1]), st)]
        m = STREAM.match(s)
        if m:
            cls, meth = m.group(1), m.group(2).strip()
            return self.stream(E, st, ins, name, dem, cls, meth, args)
        if s.startswith(("std::getline", "std::operator>>")) or s == "libube::operator>>":
            s2 = st.copy()
            sd = self.sid(E, args[0])
            self.io(E, s2, ins, "read", sd)
            for a in args[1:]:
                if ("v", a) in s2.aux or s == "libube::operator>>":
                    E.uid += 1
                    self.setc(s2, a, mk("vx", C(E.uid), a))
                elif a.op != "c":
                    b, o = E.split(a)
                    if b.op not in ("global", "abs"):
                        E.clobber(s2, b)
            return self.thrower(E, st, ins, dem, [Outcome("ret", args[0], s2)])
        r = FunctorPolicy.special(self, E, st, ins, name, dem, s, args)
        if r is None and (name not in self.prog.defs or not self.inline(name, dem)) and self.given(E, st, args):
            # some other function works on the stream
            st2 = st.copy()
            for sd in self.given(E, st, args):
                self.io(E, st2, ins, "?" + s, sd)
            return E.unknown(st2, ins, name, dem, args, ())
        return r

    def given(self, E, st, args):
        """streams that a call can work on: an argument, or part of one"""
        bases = {E.split(a)[0] for a in args if a.op != "c"}
        whole = {a for a in args}
        r = []
        for k in st.aux:
            if isinstance(k, tuple) and k[0] == "io" and k[1].op == "strm" and k[1].a[0] in bases:
                if k[1].a[0] in whole or any(self.sid(E, a) is k[1] for a in args if a.op != "c"):
                    r.append(k[1])
        return sorted(r, key=lambda t: t.id)

    def library(self, E, st, ins, name, dem, args):
        if name == "dlerror":
            return self.dlerror(E, st, ins)
        if name == "dlsym":
            s2 = st.copy()
            E.uid += 1
            r = mk("symbol", E.uid)
            r.ptr = True
            s2.aux = dict(s2.aux)
            s2.aux[("dl",)] = r
            s2.emit(Ev("status", name, tuple(args), r, ins, s2.facts))
            return [Outcome("ret", r, s2)]
        if name in HANDLES:
            s2 = st.copy()
            E.uid += 1
            h = mk("handle", mk("k", name), E.uid)
            h.ptr = True
            for a in self.clobbers(name, dem, ins, args):
                b, o = E.split(a)
                if b.op not in ("global", "abs"):
                    E.clobber(s2, b)
            if name == "dlopen":
                s2.aux = dict(s2.aux)
                s2.aux[("dl",)] = h
            s2.emit(Ev("acquire", name, tuple(args), h, ins, s2.facts))
            return [Outcome("ret", h, s2)]
        if name in RELEASE:
            s2 = st.copy()
            E.uid += 1
            r = mk("call", name, E.uid)
            s2.emit(Ev("release", name, tuple(args), r, ins, s2.facts))
            return [Outcome("ret", r if ins.ty != "void" else None, s2)]
        if name in ("XML_SetUserData", "XML_SetParamEntityParsing"):
            s2 = st.copy()
            s2.aux = dict(s2.aux)
            if name == "XML_SetUserData":
                s2.aux[("user",)] = args[1]
            s2.emit(Ev("libcall", name, tuple(args), None, ins, s2.facts))
            return [Outcome("ret", None if ins.ty == "void" else mk("call", name, C(0)), s2)]
        if name in STATUS:
            s2 = st.copy()
            E.uid += 1
            r = mk("status", mk("k", name), E.uid)
            if name in CALLBACK:
                self.callback(E, s2)
            elif "read" in name and len(args) > 1:
                b = [x for x in lin(args[1])[1] if x.op == "m:ptr"]
                if b:
                    self.bump(E, s2, b[0].a[0], False)
            s2.emit(Ev("status", name, tuple(args), r, ins, s2.facts))
            outs = [Outcome("ret", r, s2)]
            if self.may_unwind(name, dem, ins):
                u = st.copy()
                u.emit(Ev("throws", dem, tuple(args), None, ins, u.facts))
                outs.append(Outcome("unw", mk("exc", "?" + name), u))
            return outs
        return None

    def vector(self, E, st, ins, name, dem, meth, args):
        """a vector of pointers: its elements are vdata + 8 i, i < vsize"""
        v = args[0]
        if not re.search(r"vector<[^,]*\*,", dem):
            return None
        ver = st.aux.get(("vec", v), ZERO)
        n, d = mk("vsize", v, ver), mk("vdata", v, ver)
        d.ptr = True
        if meth == "size":
            return [Outcome("ret", n, st)]
        if meth == "empty":
            return [Outcome("ret", eq(n, ZERO), st)]
        if meth in ("begin", "cbegin", "data"):
            return [Outcome("ret", d, st)]
        if meth in ("end", "cend"):
            return [Outcome("ret", add(d, scale(n, 8)), st)]
        if meth in ("operator[]", "at"):
            p = add(d, scale(args[1], 8))
            return [Outcome("ret", p, st)]
        if meth == "back":
            return [Outcome("ret", add(d, add(scale(n, 8), C(-8))), st)]
        if meth == "front":
            return [Outcome("ret", d, st)]
        s2 = st.copy()
        val = tuple(E.load(st, a, 8, True) for a in args[1:] if meth in ("push_back", "emplace_back"))
        s2.emit(Ev("vec", meth, (v,) + val, None, ins, s2.facts))
        if meth in ("vector", "~vector"):
            return [Outcome("ret", None, s2)]
        E.uid += 1
        s2.aux = dict(s2.aux)
        s2.aux[("vec", v)] = mk("ver", E.uid)
        if meth in ("push_back", "emplace_back"):
            nv = mk("ver", E.uid)
            nd = mk("vdata", v, nv)
            nd.ptr = True
            E.store(s2, add(nd, scale(n, 8)), 8, val[0]) if val else None
            f = s2.facts.assume(eq(mk("vsize", v, nv), add(n, ONE)))
            if f is not None:
                s2.facts = f
            if ins.ty == "ptr":
                return [Outcome("ret", add(nd, scale(n, 8)), s2)]
            return [Outcome("ret", None, s2)]
        return E.unknown(s2, ins, name, dem, args, ())

    def dlerror(self, E, st, ins):
        """reports whether the last operation worked, once"""
        h = st.aux.get(("dl",))
        s2 = st.copy()
        s2.aux = dict(s2.aux)
        s2.aux[("dl",)] = NIL
        E.uid += 1
        r = mk("dlerr", E.uid)
        r.ptr = True
        if h is None or h.op not in ("handle", "symbol"):
            if h is NIL:
                return [Outcome("ret", ZERO, s2)]
            return [Outcome("ret", r, s2)]
        outs = []
        if h.op == "handle":
            f = s2.facts.assume(NOT(eq(h, ZERO)))
            if f is not None:
                a = s2.copy()
                a.facts = f
                outs.append(Outcome("ret", ZERO, a))
            f = s2.facts.assume(eq(h, ZERO))
        else:
            # a symbol may be there and be null
            a = s2.copy()
            a.aux[("found", h)] = TRUE
            outs.append(Outcome("ret", ZERO, a))
            f = s2.facts.assume(eq(h, ZERO))
        if f is not None:
            f = f.assume(NOT(eq(r, ZERO)))
        if f is not None:
            s2.facts = f
            outs.append(Outcome("ret", r, s2))
        return outs

    def callback(self, E, st):
        """handlers run: the values in the objects of this unit may change"""
        for k in list(st.aux):
            if isinstance(k, tuple) and k[0] == "v" and st.aux[k].op not in ("num", "str") or \
                    isinstance(k, tuple) and k[0] == "v" and E.split(k[1])[0] is st.aux.get(("user",)):
                E.uid += 1
                b, o = E.split(k[1])
                u = st.aux.get(("user",))
                if u is not None and E.split(u)[0] is b:
                    self.setc(st, k[1], mk("vx", C(E.uid), k[1]))
        u = st.aux.get(("user",))
        if u is not None:
            st.aux = dict(st.aux)
            E.uid += 1
            st.aux[("mv", E.split(u)[0])] = C(E.uid)

    def stream(self, E, st, ins, name, dem, cls, meth, args):
        if meth.startswith("basic_") or meth == "open":
            s2 = st.copy()
            sd = self.sid(E, args[0])
            op = "open" if len(args) > 1 and re.search(r"char const\*|std::string|filesystem|basic_string", dem) else "init"
            self.io(E, s2, ins, op, sd, (mk("k", cls),))
            return self.thrower(E, st, ins, dem, [Outcome("ret", None, s2)])
        if meth.startswith("~"):
            s2 = st.copy()
            s2.emit(Ev("io", "destroy", (self.sid(E, args[0]), ZERO), None, ins, s2.facts))
            return [Outcome("ret", None, s2)]
        if meth in IOQ:
            sd = self.sid(E, args[0])
            q = IOQ[meth]
            t = mk("bool", mk(q.lstrip("!"), sd, self.iov(st, sd)))
            if ins.ty != "i1":
                return None
            return [Outcome("ret", NOT(t) if q[0] == "!" else t, st)]
        if meth == "rdstate":
            return [Outcome("ret", mk("srdstate", self.sid(E, args[0]), self.iov(st, self.sid(E, args[0]))), st)]
        s2 = st.copy()
        sd = self.sid(E, args[0])
        op = {"close": "close", "flush": "flush", "clear": "clear", "setstate": "setstate", "exceptions": "exceptions",
              "get": "read", "peek": "read", "getline": "read", "read": "read", "ignore": "read", "readsome": "read", "operator>>": "read",
              "unget": "read", "putback": "read",
              "put": "out", "write": "out", "operator<<": "out"}.get(meth, "?" + meth)
        if op == "out" and meth == "operator<<" and any(a.op == "global" and ("endl" in a.a[0] or "flush" in a.a[0]) for a in args[1:]):
            op = "endl"
        extra = tuple(args[1:])
        self.io(E, s2, ins, op, sd, extra)
        if op == "?close":
            pass
        ret = None
        if ins.ty == "ptr":
            ret = args[0]
        elif ins.ty != "void":
            E.uid += 1
            ret = mk("ioval", mk("k", meth), sd, E.uid)
            if ins.ty == "i1":
                ret = mk("bool", ret)
        for a in args[1:]:
            if op == "read" and a.op != "c":
                b, o = E.split(a)
                if b.op not in ("global", "abs"):
                    E.clobber(s2, b)
        return self.thrower(E, st, ins, dem, [Outcome("ret", ret, s2)])

    def call(self, E, st, ins, name, dem, args):
        s = short(dem)
        outs = FunctorPolicy.call(self, E, st, ins, name, dem, args)
        if outs and (s == "libube::operator<<" or s.startswith("std::operator<<") or re.match(r"std::basic_ostream<.*>::operator<<", s)):
            for o in outs:
                if o.kind == "ret":
                    end = any(a.op == "global" and ("endl" in a.a[0] or "flush" in a.a[0]) for a in args[1:])
                    self.io(E, o.st, ins, "endl" if end else "out", self.sid(E, args[0]), tuple(args[1:2]))
        if outs and s == "libube::var::getline":
            for o in outs:
                if o.kind == "ret":
                    self.io(E, o.st, ins, "getline", self.sid(E, args[-1]), (self.content(E, o.st, args[0]),))
        return outs


def ios(o):
    return [e for e in walk(o.events()) if e.kind == "io"]


def good(facts, s, v):
    """the facts say that the stream had not failed at that version"""
    if facts.decide(mk("bool", mk("sfail", s, v))) is False or facts.decide(mk("bool", mk("sgood", s, v))) is True:
        return True
    if facts.decide(eq(mk("srdstate", s, v), ZERO)) is True:
        return True
    return False
