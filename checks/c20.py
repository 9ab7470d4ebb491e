"""C20: XML documents

Writer: XMLFile::write is interpreted whole.  The summary of what it puts on
the file is instantiated for documents of each shape (elements with and without
attributes, data, children, texts with every character), a nested element being
one event, and the text read back with the rules of XML.

Reader: the callbacks given to expat and the function that feeds it are
interpreted on all paths; what they keep of an element, an attribute and a
piece of text is compared with where the tree has it."""
from fmtm import *
from fcheck import *
import bytem
from report import Vanished

MIN_DECIDED = 3
UNIT = "lube/xmlfile.cpp"
WRITE = "the document written is the tree"
READ = "the tree read is the document"
FEED = "the parser is given the whole file"
NAME, ATTR, TYPE, DATA = range(4)


# ------------------------------------------------------------------ models of what is written
class Elem:
    def __init__(self, name, attrs=None, data=None):
        self.items = [name, Attr(attrs) if attrs is not None else None, "text", data]


class Attr:
    def __init__(self, l):
        self.l = l


class Unknown(Exception):
    pass


def node(t, c, env):
    """[value] a content stands for in the model, or None"""
    if t is c:
        return [env.model]
    if t.op in ("elem", "m:at", "m:key"):
        p = node(t.a[0], c, env)
        i = bval(t.a[1], env)
        if p is None or i is None:
            return None
        p = p[0]
        if isinstance(p, str):
            return [ord(p[i])] if t.op != "m:key" and 0 <= i < len(p) else None
        l = p.items if isinstance(p, Elem) else [x[0] if t.op == "m:key" else x[1] for x in p.l] if isinstance(p, Attr) else p if isinstance(p, list) else None
        if l is None or not 0 <= i < len(l):
            return None
        return [l[i]]
    return None


def facet(v, what):
    isarr = isinstance(v, (str, list, Elem, Attr))
    if what == "m:size":
        return 4 if isinstance(v, Elem) else len(v.l) if isinstance(v, Attr) else len(v) if isarr else 0 if v is None else 1
    if what == "m:defined":
        return int(v is not None)
    if what == "m:type":
        return 0 if isarr or v is None else TAG["int"]
    if what == "m:atype":
        return TAG["char"] if isinstance(v, str) else 9 if isinstance(v, Attr) else 8 if isarr else 0 if v is None else TAG["int"]
    if what == "m:dim":
        return 1
    if what == "m:view":
        return 0
    return None


def look_in(prog, c):
    def look(t, env):
        if t.op == "wrote":
            p = node(t.a[1], c, env)
            return None if p is None else int(isinstance(p[0], Elem))
        if t.op[:2] == "m:" and t.a and isinstance(t.a[0], T):
            if t.op == "m:==":
                s = [cstring(prog, x.a[0]) if x.op == "str" else None for x in t.a[:2]]
                for k in 0, 1:
                    if s[k] is not None:
                        p = node(t.a[1 - k], c, env)
                        if p is not None:
                            return int(p[0] == s[k].decode("latin-1").split("\0")[0])
                return None
            f = facet(None, t.op)
            if f is not None:
                p = node(t.a[0], c, env)
                return None if p is None else facet(p[0], t.op)
        if t.op == "m:heap":
            p = node(t.a[0], c, env)
            return None if p is None else int(isinstance(p[0], (str, list, Elem, Attr)))
        if t.op == "ld" and t.a[2] == 1:
            b, k = t.a[0], t.a[1] if isinstance(t.a[1], T) else C(t.a[1])
            co, d = lin(add(b, k))
            ps = [x for x in d if x.op in ("m:str", "m:ptr") and d[x] == 1]
            if len(ps) == 1:
                p = node(ps[0].a[0], c, env)
                i = bval(sub(add(b, k), ps[0]), env)
                if p is not None and isinstance(p[0], str) and i is not None and len(ps[0].a) < 4:
                    if ps[0].op == "m:ptr" and len(ps[0].a) >= 3:
                        j = bval(ps[0].a[2], env)
                        if j is None:
                            return None
                        i += j
                    if 0 <= i < len(p[0]):
                        return ord(p[0][i])
                    if i == len(p[0]):
                        return 0
        return None
    return look


CHILD = 0xE000


def write_one(prog, o, c, model, given):
    """(text, certain) the path writes for this tree, nested elements as private characters; None when it is not taken"""
    kids = []
    look = look_in(prog, c)

    def value(t, ty, env):
        p = node(t, c, env)
        if p is not None and isinstance(p[0], Elem):
            kids.append(p[0])
            return chr(CHILD + len(kids) - 1)
        if t.op == "m:str":
            p = node(t.a[0], c, env)
            if p is not None and isinstance(p[0], str):
                return p[0]
        raise Unclear("writes %s" % show(t)[:100])

    class E(Env):
        pass
    E.model = model
    x = emitted(prog, o, look, given, value, E)
    if x is None:
        return None
    return "".join(x[0]), x[1], kids


ENT = {"amp": "&", "lt": "<", "gt": ">", "apos": "'", "quot": '"'}


def decode(s):
    """text of character data; raises ValueError"""
    r, i = [], 0
    while i < len(s):
        ch = s[i]
        if ch == "<":
            raise ValueError("a bare <")
        if ch != "&":
            r.append(ch)
            i += 1
            continue
        j = s.find(";", i)
        n = s[i + 1:j] if j > 0 else "?"
        if n in ENT:
            r.append(ENT[n])
        elif re.match(r"#[0-9]+$", n):
            r.append(chr(int(n[1:])))
        elif re.match(r"#x[0-9a-fA-F]+$", n):
            r.append(chr(int(n[2:], 16)))
        else:
            raise ValueError("&%s" % (n[:8] if j > 0 else ""))
        i = j + 1
    return "".join(r)


def read_back(s, kids):
    """(name, attributes, data) of the text of one element; raises ValueError"""
    m = re.match(r"\s*<([^\s<>/=\"'&]+)", s)
    if not m:
        raise ValueError("no element")
    name, i = m.group(1), m.end()
    attrs = []
    while True:
        m = re.compile(r"\s+([^\s<>/=\"'&]+)\s*=\s*(\"([^\"]*)\"|'([^']*)')").match(s, i)
        if not m:
            break
        attrs.append((m.group(1), decode(m.group(3) if m.group(3) is not None else m.group(4))))
        i = m.end()
    m = re.compile(r"\s*/>\s*$").match(s, i)
    if m:
        return name, attrs, []
    m = re.compile(r"\s*>").match(s, i)
    if not m:
        raise ValueError("attributes")
    i = m.end()
    m = re.search(r"</([^\s<>]+)\s*>\s*$", s)
    if not m or m.start() < i:
        raise ValueError("no end tag")
    if m.group(1) != name:
        raise ValueError("end tag </%s>" % m.group(1))
    body = s[i:m.start()]
    data = []
    for x in re.split("([%s-%s])" % (chr(CHILD), chr(CHILD + 200)), body):
        if not x:
            continue
        if ord(x[0]) >= CHILD and len(x) == 1:
            data.append(kids[ord(x) - CHILD])
        else:
            data.append(decode(x))
    return name, attrs, data


def normal(e):
    """the same of a model: neighbouring texts are one"""
    n, a, t, d = e.items
    r = []
    for x in d or []:
        if isinstance(x, str) and not x:
            continue
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    return n, list(a.l) if a else [], r


ALL = "".join(chr(v) for v in range(256) if v >= 32 or v in (9, 10, 13))
INATTR = "".join(chr(v) for v in range(32, 256))
LEAF = Elem("leaf")
MODELS = [
    ("an element without attributes or data", Elem("a")),
    ("an element with an attribute", Elem("a", [("k", "v")])),
    ("an element with two attributes", Elem("a", [("k", "v"), ("l", "w x")])),
    ("an element with three attributes", Elem("a", [("k", ""), ("l", "w"), ("m", "v")], ["t"])),
    ("an element with text", Elem("ab", None, ["text"])),
    ("an element with a text of one character", Elem("ab", None, ["x"])),
    ("an element with a child", Elem("a", None, [LEAF])),
    ("an element with two children", Elem("a", [("k", "v")], [LEAF, Elem("b", None, ["x"])])),
    ("an element with texts between children", Elem("a", [("k", "v")], ["x", LEAF, "y", Elem("b", [("z", "q")]), "zz"])),
    ("an element with an empty text", Elem("a", None, [""])),
    ("an element with a text of four characters", Elem("a", None, ["four", "<&>'"])),
    ("every character in a text", Elem("a", None, [ALL])),
    ("every character in an attribute", Elem("a", [("k", INATTR)])),
    ("escapes one after the other", Elem("a", [("k", "&&<<\"\"''>>")], ["&&<<\"\"''>>&"])),
    ("many children", Elem("a", None, [LEAF, "x"] * 20)),
]
NOT_ELEM = [("a text", "text"), ("a text of four characters", "four"), ("nil", None), ("a number", 4), ("an array", ["a", "b", "c"]),
            ("an array of four", ["a", None, "attr", None])]


def method(P, cls, meth):
    for n in sorted(P.defs):
        if short(P.dem(n)) == "libube::%s::%s" % (cls, meth):
            return P.defs[n]
    raise Vanished("libube::%s::%s" % (cls, meth))


def writer(R, P):
    fn = method(P, "XMLFile", "write")
    r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=fn)
    if r.E.warn:
        return R.ob("write", None, "; ".join(sorted(r.E.warn))[:200], where(r), WRITE)
    given = set(r.st.facts.all())
    c = r.c[1]
    decl = re.compile(r"^\s*(<\?xml version=[\"']1\.[01][\"'][^?]*\?>)?\s*")
    for label, m in MODELS:
        key = "write:" + label
        with R.guard(key, WRITE):
            try:
                got = [x for x in (write_one(P, o, c, m, given) for o in r.rets()) if x is not None]
            except Unclear as e:
                R.ob(key, None, str(e), where(r), WRITE)
                continue
            if len({x[0] for x in got}) != 1:
                R.ob(key, None, "not one way of writing", where(r), WRITE)
                continue
            s, sure, kids = got[0]
            s = s[decl.match(s).end():]
            try:
                back = read_back(s, kids)
                bad = back != normal(m)
            except ValueError as e:
                bad = True
                label += " (%s)" % e
            R.ob(key, not bad, "%s is written as %s" % (label, "".join(x if ord(x) < CHILD else "<...>" for x in s)[:100].encode("ascii", "backslashreplace").decode()), where(r), WRITE)
    for label, m in NOT_ELEM:
        key = "write:refused:" + label
        with R.guard(key, WRITE):
            try:
                rets = [x for x in (write_one(P, o, c, m, given) for o in r.rets()) if x is not None]
                thr = [x for x in (write_one(P, o, c, m, given) for o in r.throws()) if x is not None]
            except Unclear as e:
                R.ob(key, None, str(e), where(r), WRITE)
                continue
            wrote = [x for x in thr if x[0][decl.match(x[0]).end():].strip()]
            if rets:
                R.ob(key, False if all(x[1] for x in rets) else None, "%s is written as a document" % label, where(r), WRITE)
            elif wrote:
                R.ob(key, False if all(x[1] for x in wrote) else None, "%s is refused after %s has been written" % (label, wrote[0][0][:60]), where(r), WRITE)
            else:
                R.ob(key, True, "", where(r), WRITE)


# ------------------------------------------------------------------ reader
def addr(x):
    o = x.a[1] if isinstance(x.a[1], T) else C(x.a[1])
    return o if x.a[0].op == "abs" else add(x.a[0], o)


def ev(o, kind, name=None):
    return [e for e in o.events() if not isinstance(e, Loop) and e.kind == kind and (name is None or e.name == name)]


def handlers(r):
    """functions given to expat: {kind: name}"""
    h = {}
    for o in r.outs:
        for e in walk(o.events()):
            if isinstance(e, Loop) or not e.name:
                continue
            n = e.name
            gs = [a.a[0] for a in e.args[1:] if a.op == "global"]
            if n == "XML_SetElementHandler" and len(gs) == 2:
                h["start"], h["end"] = gs
            elif n == "XML_SetStartElementHandler" and gs:
                h["start"] = gs[0]
            elif n == "XML_SetEndElementHandler" and gs:
                h["end"] = gs[0]
            elif n == "XML_SetCharacterDataHandler" and gs:
                h["text"] = gs[0]
    return h


def stack_of(t):
    """S where t is elem(S, size(S)-1)"""
    if t.op == "elem" and t.a[1] is add(mk("m:size", t.a[0], ZERO), C(-1)):
        return t.a[0]
    return None


def field(t, this):
    """is a content that of a var in the object the callback is given"""
    if t.op not in ("v0", "vx"):
        return False
    a = [x for x in t.a if isinstance(x, T) and this in subterms(x)]
    return bool(a)


def odd(b):
    """events that might do what is asked for in a way not known"""
    return [e for e in walk(b) if isinstance(e, Ev) and (e.kind in ("call", "JOIN") and own_call(e) or e.kind == "varstream" or e.kind == "var" and e.name not in KNOWN)]


KNOWN = {"push", "assign", "assign_elem", "pop", "elem.operator[]", "elem.top", "elem.at", "elem.at.const", "ctor.strn", "ctor.str", "destroy"}


def own_call(e):
    return e.kind == "JOIN" or str(e.name).startswith("libube::")


def complete(P, o, E):
    """an element has all its parts and its type from the start: what is written is what has them"""
    B = E.a[0] if E.op == "m:copy" else E
    if o.facts.decide(mk("bool", mk("m:defined", B, ZERO))) is True:
        return True, ""                      # made before, on another path
    if o.facts.decide(mk("bool", mk("m:defined", B, ZERO))) is None and E is not B:
        return None, "what the element is a copy of"
    parts = {}
    for e in ev(o, "var", "assign_elem"):
        t = e.args[0]
        if t.op == "elem" and t.a[0] in (B, E):
            if not is_c(t.a[1]):
                return None, "the parts of an element"
            parts[t.a[1].a[0]] = e.args[1]
    other = [e for e in ev(o, "var") if e.name not in KNOWN and e.args and e.args[0] in (B, E) or e.name in ("push", "assign") and e.args[0] in (B, E)]
    if other:
        return None, "the parts of an element"
    if any(t.op == "elem" and t.a[0] in (B, E) and t.a[1] is C(DATA) for e in ev(o, "var", "push") for t in (e.args[0],)):
        parts[DATA] = None
    if not set(range(4)) <= set(parts):
        return False, "part %d is not there in an element from the start: it is not written as one" % min(set(range(4)) - set(parts))
    t = parts[TYPE]
    lit = cstring(P, t.a[0]) if t is not None and t.op == "str" and t.a[0].op == "global" else None
    if lit is None:
        return None, "the type of an element"
    return lit.split(b"\0")[0] == b"text", "the type of an element is %r" % lit


def start(R, P, name):
    r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=P.defs[name])
    this, nm_, at = r.formals
    l = []
    for o in r.rets():
        if r.E.warn or odd(o.events()):
            l.append((None, (sorted(r.E.warn) or [str(odd(o.events())[0])])[0][:100]))
            continue
        ps = ev(o, "var", "push")
        onst = [e for e in ps if field(e.args[0], this)]
        if len(onst) != 1:
            l.append((False if not onst and not ps else None, "the element is not put on the stack"))
            continue
        S, E = onst[0].args[0], onst[0].args[1]
        if E.op == "v0" and not field(E, this) and any(x.op == "global" for x in subterms(E)):
            l.append((False, "all elements are the same one"))
            continue
        if E.op != "m:copy" and not (E.op == "v0" and any(x.op == "alloca" for x in subterms(E))):
            l.append((None, "the element is %s" % show(E)[:60]))
            continue
        l.append(complete(P, o, E))
        # where it goes
        some_ = [f for f in o.facts.all() if any(x in (mk("m:defined", S, ZERO), mk("m:size", S, ZERO)) for x in subterms(f))]
        d = o.facts.decide(mk("bool", mk("m:defined", S, ZERO)))
        if d is None and o.facts.decide(eq(mk("m:size", S, ZERO), ZERO)) is not None:
            d = not o.facts.decide(eq(mk("m:size", S, ZERO), ZERO))
        if d is None and o.facts.decide(le(ONE, mk("m:size", S, ZERO))) is not None:
            d = o.facts.decide(le(ONE, mk("m:size", S, ZERO)))
        into = [e for e in ps if e.args[1] is E and e is not onst[0]]
        root = [e for e in ev(o, "var", "assign") if e.args[1] is E and field(e.args[0], this)]
        if d is True:
            ok = [e for e in into if e.args[0].op == "elem" and stack_of(e.args[0].a[0]) is S]
            for e in into:
                t = e.args[0].a[0] if e.args[0].op == "elem" else None
                if t is not None and t.op == "elem" and t.a[0] is S and o.facts.decide(eq(t.a[1], add(mk("m:size", S, ZERO), C(-1)))) is False:
                    l.append((False, "an element is kept as data of %s, not of the one it is in" % ("element %s of the stack" % show(t.a[1]))))
            l.append((False if not into and not odd(o.events()) else None if not ok else len(into) == 1 and ok[0].args[0].a[1] is C(DATA) and not root,
                      "an element is not kept once as data of the one it is in"))
            # the parent is the top of the stack before the element is put there
            if ok:
                order = [e for e in o.events() if e in (onst[0], ok[0])]
                l.append((order[0] is ok[0], "an element is kept in itself, not in the one it is in"))
        elif d is False:
            l.append((len(root) == 1 and not into if root or not into else None if into else False, "the first element is not the document"))
        else:
            l.append((None, "inside another element or not"))
        # name
        nms = [e for e in ev(o, "var", "assign_elem") if e.args[0].op == "elem" and e.args[0].a[0] is E and e.args[0].a[1] is C(NAME)]
        l.append((len(nms) == 1 and nms[0].args[1] is mk("str", nm_) if nms else False, "the name of an element is not kept"))
        # attributes
        ls = [e for e in o.events() if isinstance(e, Loop)]
        if len(ls) != 1 or len(ls[0].ivs) < 1:
            l.append((False if not ls else None, "the attributes of an element are not kept"))
            continue
        L = ls[0]
        it = [(t, i0, ns) for t, (i0, ns) in L.ivs.items() if len({sub(n, t) for n in ns}) == 1 and is_c(sub(ns[0], t))]
        done = False
        for t, i0, ns in it:
            step = sub(ns[0], t).a[0]
            if i0 is at:
                pos, unit = t, step
            elif is_c(i0):
                pos, unit = None, None
                # counted by an index
                for a in {x for f, b in L.bodies for y in b for z in y.args or () for x in subterms(z) if x.op == "ld"}:
                    base = addr(a)
                    k = lin(base)[1].get(t)
                    if lin(base)[1].get(at) == 1 and k:
                        pos, unit = add(at, scale(t, k)), step * k
                if pos is None:
                    continue
                i0 = subst(pos, {t: i0})
            else:
                continue
            done = True
            first = sub(i0, at)
            l.append((unit == 16 if isinstance(unit, int) else None, "attributes are taken every %s texts" % (unit / 8)))
            l.append((first is ZERO if is_c(first) else None, "attributes are read from the text %s on" % show(first)))

            end_ = [f for f in o.facts.all() if f.op == "eq0" and f.a[0].op == "ld" and addr(f.a[0]) is pos]
            more = [f for f in o.facts.all() if f not in L.bodies[0][0].all() and t in subterms(f) and any(x.op == "ld" for x in subterms(f))]
            l.append((True if end_ else False if more else None, "the attributes after one that meets a condition are left out"))

            def slot(x):
                """which of the texts of an attribute"""
                if x.op == "str" and x.a[0].op == "ld":
                    y = x.a[0]
                    d = sub(addr(y), pos)
                    if is_c(d):
                        return d.a[0]
                return None
            for f, b in L.bodies:
                st = [e for e in b if not isinstance(e, Loop) and e.kind == "var" and e.name == "assign_elem"]
                ok = [e for e in st if e.args[0].op == "kelem" and e.args[0].a[0].op == "elem" and e.args[0].a[0].a[0] is E]
                if len(ok) != 1:
                    l.append((None if st or any(isinstance(e, Loop) for e in b) else False, "an attribute is not kept"))
                    continue
                e = ok[0]
                l.append((e.args[0].a[0].a[1] is C(ATTR), "attributes are kept elsewhere"))
                k, v = slot(e.args[0].a[1]), slot(e.args[1])
                l.append((None if k is None or v is None else (k, v) == (0, 8), "text %s of an attribute is kept under text %s" % (v and v // 8, k and k // 8)))
            break
        if not done:
            l.append((None, "how attributes are gone through"))
    finish(R, "read:start of an element", l, r)


def finish(R, key, l, r):
    bad = [x for x in l if x[0] is False]
    und = [x for x in l if x[0] is None]
    R.ob(key, False if bad else None if und or not l else True, (bad + und)[0][1] if bad or und else "", where(r), READ)


def end(R, P, name):
    r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=P.defs[name])
    this = r.formals[0]
    l = []
    for o in r.rets():
        if r.E.warn or odd(o.events()):
            l.append((None, "unknown effect"))
            continue
        ps = [e for e in ev(o, "var", "pop") if field(e.args[0], this)]
        if any(isinstance(e, Loop) for e in o.events()) or len(ev(o, "var", "pop")) != len(ps):
            l.append((None, "loops"))
        else:
            l.append((len(ps) == 1, "%d elements are taken from the stack at an end tag" % len(ps)))
        l.append((False if ev(o, "var", "push") or ev(o, "var", "assign_elem") else True, "an end tag changes the tree"))
    finish(R, "read:end of an element", l, r)


def text(R, P, name):
    r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=P.defs[name])
    this, s, n = r.formals
    l = []
    for o in r.rets():
        if r.E.warn or odd(o.events()) or any(isinstance(e, Loop) for e in o.events()):
            l.append((None, "unknown effect"))
            continue
        ps = ev(o, "var", "push")
        bs = [x for f in o.facts.all() for x in subterms(f) if x.op == "ld" and x.a[2] == 1 and addr(x) is s]
        if not ps and bs and o.facts.decide(eq(n, ONE)) is True:
            a, sure = bytem.table(bytem.about(o.facts, bs[:1]), bs[0])
            l.append((True if a <= bytem.WS else False if sure else None, "a text that is %s is not kept" % some(a - bytem.WS)))
            continue
        if not ps:
            l.append((True if o.facts.decide(le(n, ZERO)) is True else False if not any(x.op == "call" for f in o.facts.all() for x in subterms(f)) else None,
                      "text is not kept"))
            continue
        if len(ps) > 1:
            l.append((None, "kept %d times" % len(ps)))
            continue
        e = ps[0]
        d = e.args[0]
        S = stack_of(d.a[0]) if d.op == "elem" else None
        l.append((d.a[1] is C(DATA) if S is not None and field(S, this) and is_c(d.a[1]) else None, "text is not kept as data of the element it is in"))
        x = e.args[1]
        if x.op == "strn":
            l.append((x.a[0] is n and x.a[1] is s if s in x.a[1:2] and is_c(sub(x.a[0], n)) or x.a[0] is n and is_c(sub(x.a[1], s)) else None,
                      "part of the text is not kept"))
        elif x.op == "str" and x.a[0] is s:
            l.append((False, "the text is kept to the first zero after it, not to its length"))
        else:
            l.append((None, "keeps %s" % show(x)[:60]))
    finish(R, "read:text", l, r)


def parses(evs):
    return [e for e in evs if not isinstance(e, Loop) and e.name == "XML_Parse"]


def stacked(o, c):
    """is a content that of the member all elements are put on: not a local of its own that is written here"""
    return not any(e.kind == "var" and e.args and e.args[0] is c and e.name in ("push", "assign") for e in walk(o.events()) if isinstance(e, Ev))


def feed(R, P, r):
    l = []
    lines = None
    for o in r.rets():
        if r.E.warn:
            l.append((None, sorted(r.E.warn)[0][:100]))
            continue
        ls = [e for e in o.events() if isinstance(e, Loop) and any(parses(b) for f, b in e.bodies)]
        top = parses(o.events())
        last = [e for e in top if bval(e.args[3], {}) not in (0, None)]
        if not top or bval(top[-1].args[3], {}) is None:
            l.append((None, "end of the document"))
        else:
            l.append((len(last) == 1 and last[0] is top[-1], "the parser is not told that the document ends"))
        if not any(e.name.startswith("XML_ParserCreate") for e in walk(o.events()) if isinstance(e, Ev)):
            l.append((None if any(e.kind == "JOIN" for e in walk(o.events()) if isinstance(e, Ev)) else False, "no parser is made"))
        for e in top:
            if e.res is not None and o.facts.decide(eq(e.res, ZERO)) is True:
                l.append((False, "only a document that the parser refuses is returned"))
            if e.args[1].op == "m:str" and is_c(e.args[2]) and e.args[2] is not ZERO and e in last:
                l.append((False, "%d more characters than the document has are given to the parser" % e.args[2].a[0]))
        for x in {y for f in o.facts.all() for y in subterms(f) if y.op == "m:size" and y.a[0].op in ("v0", "vx") and any(z.op == "alloca" for z in subterms(y.a[0]))}:
            if any(e.kind == "var" and e.name == "getline" and x.a[0] is e.args[0] for e in walk(o.events()) if isinstance(e, Ev)):
                continue
            if o.facts.decide(eq(x, ZERO)) is False and stacked(o, x.a[0]):
                l.append((False, "only a document with elements left open is returned"))
        if len(ls) != 1:
            l.append((None, "not one loop feeds the parser"))
            continue
        for f, b in ls[0].bodies:
            pr = parses(b)
            gl = [e for e in b if not isinstance(e, Loop) and e.kind == "io" and e.name == "getline"]
            if len(gl) != 1:
                l.append((None, "how the file is read"))
                continue
            v = gl[0].args[2]
            full = [e for e in pr if e.args[1].op in ("m:str", "m:ptr") and e.args[1].a[0] is v]
            if len(full) != 1:
                l.append((False if all(x.args[1].op == "global" for x in pr) else None, "a line is not given to the parser"))
                continue
            e = full[0]
            n = e.args[2]
            size = [x for x in subterms(n) if x.op == "m:size" and x.a[0] is v]
            d = sub(n, size[0]) if size else n
            l.append((is_c(d) and (not size or d is ZERO) and bool(size) if is_c(d) else None, "not the whole line is given to the parser"))
            for x in pr:
                lit = cstring(P, x.args[1]) if x is not e and x.args[1].op == "global" else None
                if lit is not None and is_c(x.args[2]):
                    l.append((x.args[2].a[0] <= len(lit.split(b"\0")[0]), "%d characters of %r are given to the parser" % (x.args[2].a[0], lit)))
                z = bval(x.args[3], {})
                l.append((None if z is None else z == 0, "the document is said to end after its first line"))
                if x.res is not None and f.decide(eq(x.res, ZERO)) is True:
                    l.append((False, "reading goes on only where the parser has refused the line"))
            if lines is not False:
                lines = any(x is not e for x in pr)
    bad = [x for x in l if x[0] is False]
    und = [x for x in l if x[0] is None]
    R.ob("read:lines", False if bad else None if und or not l else True, (bad + und)[0][1] if bad or und else "", where(r), FEED)
    R.ob("read:line ends", lines if lines is not None else None, "the end of a line is not given to the parser: text over two lines is joined, "
         "and what stands on two lines in a tag becomes one word", where(r), FEED)


def run(R):
    R.rule(WRITE, "XMLFile::write: for every shape of element the text is an XML element with the name, attributes and data of the tree, each once and in order, markup characters escaped; what is not an element is refused and nothing of it written")
    R.rule(READ, "the callbacks given to expat keep each element once, as data of the one it is in, with its name and every attribute, and each piece of text with its length; an end tag takes one element from the stack")
    R.rule(FEED, "XMLFile::read: every line, whole, and the end of the document are given to the parser")
    P = R.program(UNIT)
    with R.guard("write", WRITE):
        writer(R, P)
    fn = method(P, "XMLFile", "read")
    with R.guard("read", READ):
        r = Run(R, P, None, None, 0, policy=FmtPolicy, fn=fn)
        h = handlers(r)
        for k, f in ("start", start), ("end", end), ("text", text):
            with R.guard("read:" + k, READ):
                if h.get(k) in P.defs:
                    f(R, P, h[k])
                else:
                    R.ob("read:" + k, False if not h.get(k) and h else None, "no function is called for this part of a document", where(r), READ)
        with R.guard("read:lines", FEED):
            feed(R, P, r)
