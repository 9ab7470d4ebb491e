"""Front end: compiles /repo's translation units to LLVM IR with the real
build's defines and parses the textual IR (lazily, function by function).

Nothing is executed: the IR is only a resolved representation of the source
(overloads, templates, implicit constructor/destructor calls, virtual-call
static types and exceptional edges are all explicit in it)."""
import os, re, subprocess, sys, tempfile, hashlib, shutil, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
QT = "/usr/include/x86_64-linux-gnu/qt5"
DEFS = ["-DNDEBUG", "-DHAVE_BACKTRACE", "-DHAVE_MKL",
        "-DBOOST_REGEX_DYN_LINK", "-DBOOST_REGEX_NO_LIB",
        "-DBOOST_SYSTEM_DYN_LINK", "-DBOOST_SYSTEM_NO_LIB",
        "-DQT_CORE_LIB", "-DQT_GUI_LIB", "-DQT_WIDGETS_LIB"]
INCS = ["-I" + REPO, "-I" + QT, "-I" + QT + "/QtWidgets", "-I" + QT + "/QtGui",
        "-I" + QT + "/QtCore",
        "-I/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++",
        "-I/usr/include/qwt", "-isystem", "/usr/include/mkl"]
CFLAGS = ["-std=gnu++17"] + DEFS + INCS + ["-fPIC", "-w"]
IRFLAGS = ["-O0", "-g1", "-Xclang", "-disable-O0-optnone", "-flto=full",
           "-fwhole-program-vtables", "-fvisibility=hidden", "-S", "-emit-llvm"]


class AnalysisError(Exception):
    """The analysis could not be carried out (neither pass nor violation)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-ir-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def compile_unit(src, extra=()):
    """src: path relative to /repo or absolute; returns path of SROA'd .ll"""
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    tag = re.sub(r"\W", "_", os.path.basename(path)) + "_" + \
        hashlib.md5((path + repr(extra)).encode()).hexdigest()[:6]
    out = os.path.join(scratch(), tag + ".ll")
    if os.path.exists(out):
        return out
    raw = out + ".raw"
    p = subprocess.run([CLANG] + CFLAGS + list(extra) + IRFLAGS + [path, "-o", raw],
                       capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError("cannot compile %s:\n%s" % (src, p.stderr[:2000]))
    p = subprocess.run([OPT, "-S", "-passes=sroa", raw, "-o", out],
                       capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError("opt failed on %s: %s" % (src, p.stderr[:1000]))
    os.unlink(raw)
    return out


# ------------------------------------------------------------------ types

class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def parse(self, s, i=0):
        """parse a type at s[i:], return (type, next index)"""
        while s[i] == " ":
            i += 1
        c = s[i]
        if c == "%":
            if s[i + 1] == '"':
                j = s.index('"', i + 2) + 1
            else:
                j = re.compile(r"[%\w.$-]+").match(s, i).end()
            t = ("named", s[i:j])
        elif c == "{":
            t, j = self._seq(s, i + 1, "}")
            t = ("struct", tuple(t))
        elif s.startswith("<{", i):
            t, j = self._seq(s, i + 2, "}")
            assert s[j] == ">"
            j += 1
            t = ("packed", tuple(t))
        elif c == "<" or c == "[":
            m = re.compile(r"[<\[]\s*(\d+) x ").match(s, i)
            e, j = self.parse(s, m.end())
            while s[j] == " ":
                j += 1
            j += 1
            t = ("vec" if c == "<" else "arr", int(m.group(1)), e)
        else:
            m = re.compile(r"\w+").match(s, i)
            w = m.group(0)
            j = m.end()
            t = w
        # function types: T (args)
        k = j
        if s.startswith(" (", k):
            depth = 0
            k += 1
            while True:
                if s[k] == "(":
                    depth += 1
                elif s[k] == ")":
                    depth -= 1
                    if not depth:
                        break
                k += 1
            return ("fn", t), k + 1
        return t, j

    def _seq(self, s, i, close):
        r = []
        while True:
            while s[i] in " ,":
                i += 1
            if s[i] == close:
                return r, i + 1
            t, i = self.parse(s, i)
            r.append(t)

    def size_align(self, t):
        k = self.cache.get(t)
        if k:
            return k
        if isinstance(t, str):
            if t == "ptr":
                r = (8, 8)
            elif t == "float":
                r = (4, 4)
            elif t == "double":
                r = (8, 8)
            elif t == "x86_fp80":
                r = (16, 16)
            elif t[0] == "i" and t[1:].isdigit():
                n = int(t[1:])
                b = 1
                while b * 8 < n:
                    b *= 2
                r = (b, min(b, 16))
            elif t in ("void", "opaque", "token", "metadata", "label"):
                r = (0, 1)
            else:
                r = (8, 8)
        elif t[0] == "named":
            if t[1] not in self.named:
                r = (0, 1)
            else:
                r = self.size_align(self.named[t[1]])
        elif t[0] == "arr":
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif t[0] == "vec":
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif t[0] in ("struct", "packed"):
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[0] == "packed":
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else:
            r = (8, 8)
        self.cache[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == "named":
            t = self.named.get(t[1], ("struct", ()))
        return t

    def field(self, t, n):
        """offset and type of field n"""
        t = self.resolve(t)
        off = 0
        for k, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[0] == "packed":
                a = 1
            off = (off + a - 1) // a * a
            if k == n:
                return off, e
            off += s
        raise AnalysisError("bad field index")


ATTR = re.compile(
    r"(?:(?:noundef|nonnull|signext|zeroext|inreg|noalias|nocapture|readonly|readnone|"
    r"writeonly|returned|nest|immarg|dead_on_unwind|writable|swiftself|nofree|"
    r"allocptr|allocalign)\b|align \d+|dereferenceable(?:_or_null)?\(\d+\)|"
    r"(?:sret|byval|elementtype|inalloca|byref|preallocated)\(|"
    r"captures\([^)]*\)|memory\([^)]*\))\s*")


class Instr:
    __slots__ = ("op", "dest", "ty", "args", "dbg", "fn", "idx", "blk", "x")

    def __repr__(self):
        return "<%s %s %s>" % (self.dest, self.op, self.args)


class Function:
    def __init__(self, mod, name, sig, start, end):
        self.mod, self.name = mod, name
        self.sig, self.start, self.end = sig, start, end
        self._parsed = False
        m = re.search(r" #(\d+)", sig[sig.rindex(")"):]) if ")" in sig else None
        self.attrgrp = m.group(1) if m else None
        m = re.search(r"!dbg !(\d+)", sig)
        self.dbg = m.group(1) if m else None
        self._params = None

    @property
    def params(self):
        if self._params is None:
            self._parse_sig()
        return self._params

    @property
    def sret(self):
        self.params
        return self._sret

    def _parse_sig(self):
        sig = self.sig
        k = sig.index("@" + self.rawname + "(") + len(self.rawname) + 1
        args, _ = split_paren(sig, k)
        ps = []
        self._sret = False
        self.varargs = False
        for a in args:
            if a == "...":
                self.varargs = True
                continue
            t, j = self.mod.types.parse(a)
            rest = a[j:]
            if "sret(" in rest:
                self._sret = True
            m = re.search(r"(%[\w.$-]+|%\"[^\"]+\")\s*$", rest)
            ps.append((t, m.group(1) if m else None))
        self._params = ps
        # return type
        head = sig[:sig.index("@" + self.rawname)]
        head = head.replace("define ", "", 1).replace("declare ", "", 1)
        m = re.search(r"((?:\{[^}]*\}|<\d+ x \w+>|\[[^\]]*\]|%\"[^\"]+\"|%[\w.]+|\w+))\s*$", head.strip())
        self.retty = self.mod.types.parse(m.group(1))[0] if m else "void"

    @property
    def nounwind(self):
        return self.mod.attr_nounwind(self.attrgrp)

    @property
    def blocks(self):
        if not self._parsed:
            self._parse_body()
        return self._blocks

    @property
    def order(self):
        self.blocks
        return self._order

    def _parse_body(self):
        text = self.mod.text[self.start:self.end]
        lines = text.split("\n")
        self._blocks = {}
        self._order = []
        cur = None
        n = 0
        # default entry name: number of params
        i = 1
        pend = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.startswith("}"):
                continue
            if ln[0] not in " \t":
                m = re.match(r'("?[^"\s:]+"?):', ln)
                if m:
                    cur = m.group(1)
                    self._blocks[cur] = []
                    self._order.append(cur)
                    continue
            if cur is None:
                cur = "entry!"
                self._blocks[cur] = []
                self._order.append(cur)
            s = ln.strip()
            if s.startswith("#dbg") or s.startswith(";"):
                continue
            # continuation: switch tables, invoke, landingpad clauses
            if s.startswith("switch ") and s.endswith("["):
                while True:
                    s2 = lines[i].strip()
                    i += 1
                    s += " " + s2
                    if s2.startswith("]"):
                        break
            elif " invoke " in " " + s or s.startswith("invoke "):
                s += " " + lines[i].strip()
                i += 1
            elif " landingpad " in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)\b", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            ins = self.mod.parse_instr(s)
            if ins is None:
                continue
            ins.fn = self
            ins.idx = n
            ins.blk = cur
            n += 1
            self._blocks[cur].append(ins)
        if self._order and self._order[0] == "entry!":
            # entry block gets the implicit number
            k = len(self.params)
            self._implicit = "%d" % k
        else:
            self._implicit = None
        self._parsed = True

    def lab(self, l):
        """normalise label operand to block key"""
        l = l[1:] if l[0] == "%" else l
        if l in self._blocks:
            return l
        if l == self._implicit:
            return "entry!"
        raise AnalysisError("label %s in %s" % (l, self.name))

    def instrs(self):
        for b in self.order:
            for i in self._blocks[b]:
                yield i

    def loc(self, dbg=None):
        return self.mod.loc(dbg if dbg else self.dbg)


def split_paren(s, k):
    """s[k]=='('; return list of top-level comma-separated args, index after ')'"""
    assert s[k] == "(", s[k:k + 20]
    depth = 0
    args = []
    st = k + 1
    i = k
    q = False
    while True:
        c = s[i]
        if c == '"':
            q = not q
        elif q:
            pass
        elif c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
            if depth == 0:
                a = s[st:i].strip()
                if a:
                    args.append(a)
                return args, i + 1
        elif c == "," and depth == 1:
            args.append(s[st:i].strip())
            st = i + 1
        i += 1


BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor",
          "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext",
         "fptrunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"}
FLAGS = re.compile(r"^(?:(?:nsw|nuw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|nneg|inbounds|volatile|atomic|samesign)\s+)*")


class Module:
    def __init__(self, path, src):
        self.path, self.src = path, src
        self.text = open(path).read()
        self.types = Types()
        self.functions = {}
        self.declares = {}
        self.globals = {}
        self.aliases = {}
        self.attrs = {}
        self.md = {}
        self.private = {}
        self._index()

    def _index(self):
        tx = self.text
        for m in re.finditer(r'^(%(?:"[^"]+"|[\w.$-]+)) = type (.*)$', tx, re.M):
            if m.group(2).strip() == "opaque":
                continue
            self.types.named[m.group(1)] = self.types.parse(m.group(2))[0]
        for m in re.finditer(r'^(define|declare) .*?@("[^"]+"|[\w.$-]+)\(.*$', tx, re.M):
            raw = m.group(2)
            name = raw.strip('"')
            sig = m.group(0)
            if m.group(1) == "define":
                end = tx.index("\n}", m.end()) + 2
                f = Function(self, name, sig, m.start(), end)
                f.rawname = raw
                self.functions[name] = f
            else:
                f = Function(self, name, sig, m.start(), m.end())
                f.rawname = raw
                self.declares[name] = f
        for m in re.finditer(r'^@("[^"]+"|[\w.$-]+) = (.*)$', tx, re.M):
            name = m.group(1).strip('"')
            rest = m.group(2)
            ma = re.match(r".*\balias .*@(\"[^\"]+\"|[\w.$-]+)(?:,.*)?$", rest)
            if ma and " alias " in rest.split("c\"")[0]:
                self.aliases[name] = ma.group(1).strip('"')
            elif re.match(r"private ", rest):
                # a name of one module only: the programs made of several
                # have a ".str.1" in each
                self.private[name] = name + "#" + os.path.basename(str(self.src))
                self.globals[self.private[name]] = rest
            else:
                self.globals[name] = rest
        for m in re.finditer(r"^attributes #(\d+) = \{(.*)\}$", tx, re.M):
            self.attrs[m.group(1)] = m.group(2)
        for m in re.finditer(r"^!(\d+) = (.*)$", tx, re.M):
            self.md[m.group(1)] = m.group(2)

    def attr_nounwind(self, g):
        return bool(g) and re.search(r"\bnounwind\b", self.attrs.get(g, "")) is not None

    # ---- debug
    def loc(self, n):
        """(file, line) of a !dbg id"""
        if n is None:
            return (self.src, 0)
        s = self.md.get(n, "")
        m = re.search(r"line: (\d+)", s)
        line = int(m.group(1)) if m else 0
        seen = 0
        while seen < 30:
            seen += 1
            m = re.search(r"\bfile: !(\d+)", s)
            if m:
                fs = self.md.get(m.group(1), "")
                mm = re.search(r'filename: "([^"]*)"(?:, directory: "([^"]*)")?', fs)
                if mm:
                    f = mm.group(1)
                    if f.startswith(REPO + "/"):
                        f = f[len(REPO) + 1:]
                    return (f, line)
            m = re.search(r"\bscope: !(\d+)", s)
            if not m:
                break
            s = self.md.get(m.group(1), "")
        return (self.src, line)

    # ---- strings
    def cstring(self, name):
        """value of a private constant c-string global or None"""
        g = self.globals.get(name)
        if not g:
            return None
        m = re.search(r'\bconstant \[\d+ x i8\] (c"((?:[^"\\]|\\.)*)"|zeroinitializer)', g)
        if not m:
            return None
        if m.group(2) is None:
            return b""
        raw = re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), m.group(2))
        return raw.encode("latin1")

    # ---- operands
    def operand(self, ty, s):
        """operand -> ('reg',n)|('int',v)|('fp',txt)|('global',n)|('null',)|('undef',)
        |('gep', ty, base operand, idx operands)|('agg',...)"""
        s = s.strip()
        c = s[0]
        if c == "%":
            return ("reg", s)
        if c == "@":
            n = s[1:].strip('"')
            return ("global", self.private.get(n, n))
        if s == "null":
            return ("int", 0)
        if s == "true":
            return ("int", 1)
        if s == "false":
            return ("int", 0)
        if s in ("undef", "poison"):
            return ("undef",)
        if s == "zeroinitializer":
            return ("zero",)
        if re.fullmatch(r"-?\d+", s):
            return ("int", int(s))
        if re.match(r"-?[\d.]+e[+-]?\d+$", s) or s.startswith("0x"):
            return ("fp", parse_fp(s))
        if s.startswith("getelementptr"):
            k = s.index("(")
            args, _ = split_paren(s, k)
            t, _ = self.types.parse(args[0])
            ops = [self.typed(a) for a in args[1:]]
            return ("gep", t, ops)
        m = re.match(r"(inttoptr|ptrtoint|bitcast|trunc|addrspacecast) \((.*)\)$", s)
        if m:
            inner = m.group(2)
            inner = inner[:inner.rindex(" to ")]
            return self.typed(inner)[1]
        if s[0] in "{[<c" or s.startswith("blockaddress") or s.startswith("asm") or s.startswith("dso_local_equivalent"):
            if s[0] == "<" or s[0] == "{" or s[0] == "[":
                try:
                    args, _ = split_paren("(" + s[1:-1] + ")", 0)
                    return ("agg", [self.typed(a) for a in args])
                except Exception:
                    return ("opaque", s)
            return ("opaque", s)
        return ("opaque", s)

    def typed(self, s):
        if s.startswith("inrange "):
            s = s[8:]
        t, j = self.types.parse(s)
        rest = s[j:].strip()
        while True:
            m = ATTR.match(rest)
            if not m:
                break
            if m.group(0).rstrip().endswith("("):
                _, e = split_paren(rest, m.group(0).rindex("("))
                rest = rest[e:].strip()
            else:
                rest = rest[m.end():]
        return (t, self.operand(t, rest))

    def parse_instr(self, s):
        ins = Instr()
        ins.dest = None
        ins.x = None
        m = re.search(r"!dbg !(\d+)", s)
        ins.dbg = m.group(1) if m else None
        # strip metadata suffix
        s = re.sub(r"(?:, ![\w.]+ !\d+)+\s*$", "", s)
        m = re.match(r'(%(?:"[^"]+"|[\w.$-]+)) = (.*)$', s)
        if m:
            ins.dest = m.group(1)
            s = m.group(2)
        op, _, rest = s.partition(" ")
        if op in ("tail", "musttail", "notail"):
            op, _, rest = rest.partition(" ")
        ins.op = op
        ins.ty = None
        ins.args = ()
        P = self.types.parse
        if op in BINOPS or op in ("icmp", "fcmp"):
            rest = rest[FLAGS.match(rest).end():]
            pred = None
            if op in ("icmp", "fcmp"):
                if rest.split(" ")[0] in ("fast",):
                    rest = rest.split(" ", 1)[1]
                pred, rest = rest.split(" ", 1)
            t, j = P(rest)
            a, b = split_top(rest[j:])
            ins.ty = t
            ins.args = (self.operand(t, a), self.operand(t, b))
            ins.x = pred
        elif op in CASTS:
            rest = rest[FLAGS.match(rest).end():]
            k = rest.rindex(" to ")
            t, v = self.typed(rest[:k])
            ins.ty = P(rest[k + 4:])[0]
            ins.args = (v,)
            ins.x = t
        elif op == "load":
            rest = rest[FLAGS.match(rest).end():]
            t, j = P(rest)
            parts = split_top(rest[j:].lstrip(" ,"))
            ins.ty = t
            ins.args = (self.typed(parts[0])[1],)
        elif op == "store":
            rest = rest[FLAGS.match(rest).end():]
            parts = split_top(rest)
            t, v = self.typed(parts[0])
            ins.ty = t
            ins.args = (v, self.typed(parts[1])[1])
        elif op == "alloca":
            t, j = P(rest)
            ins.ty = t
            parts = split_top(rest)
            if len(parts) > 1 and not parts[1].startswith("align"):
                ins.args = (self.typed(parts[1])[1],)
        elif op == "getelementptr":
            rest = rest[FLAGS.match(rest).end():]
            t, j = P(rest)
            ins.ty = t
            ins.args = [self.typed(p) for p in split_top(rest[j:].lstrip(" ,"))]
        elif op == "br":
            if rest.startswith("label"):
                ins.args = (rest.split(" ", 1)[1],)
            else:
                parts = split_top(rest)
                ins.args = (self.typed(parts[0])[1], parts[1].split(" ", 1)[1],
                            parts[2].split(" ", 1)[1])
        elif op == "switch":
            k = rest.index("[")
            parts = split_top(rest[:k].strip())
            t, v = self.typed(parts[0])
            cases = []
            for m in re.finditer(r"(i\d+) (-?\d+|true|false), label (%[\w.$-]+)", rest[k:]):
                val = m.group(2)
                val = {"true": 1, "false": 0}.get(val) if val in ("true", "false") else int(val)
                cases.append((val, m.group(3)))
            ins.args = (v, parts[1].split(" ", 1)[1], cases)
        elif op == "ret":
            if rest.strip() != "void":
                t, v = self.typed(rest)
                ins.ty = t
                ins.args = (v,)
        elif op == "unreachable":
            pass
        elif op == "phi":
            t, j = P(rest)
            ins.ty = t
            inc = []
            for m in split_top(rest[j:]):
                m = m.strip()
                assert m[0] == "["
                v, b = split_top(m[1:-1])
                inc.append((self.operand(t, v), b.strip()))
            ins.args = inc
        elif op == "select":
            rest = rest[FLAGS.match(rest).end():]
            parts = split_top(rest)
            c = self.typed(parts[0])[1]
            t, a = self.typed(parts[1])
            b = self.typed(parts[2])[1]
            ins.ty = t
            ins.args = (c, a, b)
        elif op in ("extractvalue",):
            parts = split_top(rest)
            t, v = self.typed(parts[0])
            ins.ty = t
            ins.args = (v,)
            ins.x = [int(p) for p in parts[1:]]
        elif op == "insertvalue":
            parts = split_top(rest)
            t, v = self.typed(parts[0])
            t2, w = self.typed(parts[1])
            ins.ty = t
            ins.args = (v, w)
            ins.x = [int(p) for p in parts[2:]]
        elif op in ("extractelement", "insertelement"):
            parts = split_top(rest)
            tv = [self.typed(p) for p in parts]
            ins.ty = tv[0][0]
            ins.args = tuple(v for _, v in tv)
        elif op == "shufflevector":
            ins.args = ()
        elif op == "fneg":
            rest = rest[FLAGS.match(rest).end():]
            t, v = self.typed(rest)
            ins.ty = t
            ins.args = (v,)
        elif op == "freeze":
            t, v = self.typed(rest)
            ins.ty = t
            ins.args = (v,)
        elif op in ("call", "invoke"):
            self._parse_call(ins, op, rest)
        elif op == "landingpad":
            ins.x = re.findall(r"\b(cleanup|catch ptr (?:@[\w.$]+|null)|filter)", rest)
        elif op == "resume":
            t, v = self.typed(rest)
            ins.args = (v,)
        elif op in ("va_arg", "atomicrmw", "cmpxchg", "fence", "cleanupret", "indirectbr"):
            ins.x = rest
        else:
            raise AnalysisError("unknown instruction: " + s[:100])
        return ins

    def _parse_call(self, ins, op, rest):
        rest = rest[FLAGS.match(rest).end():]
        # return attrs
        m = re.match(r"(?:(?:cc|fastcc|ccc)\s+)?", rest)
        rest = rest[m.end():]
        while True:
            m = ATTR.match(rest)
            if not m:
                break
            if m.group(0).rstrip().endswith("("):
                _, e = split_paren(rest, m.group(0).rindex("("))
                rest = rest[e:].strip()
            else:
                rest = rest[m.end():]
        t, j = self.types.parse(rest)
        if isinstance(t, tuple) and t[0] == "fn":
            t = t[1]
        rest = rest[j:].strip()
        if rest.startswith("asm"):
            ins.ty = t
            ins.args = []
            ins.x = {"callee": ("opaque", "asm"), "nounwind": True, "ret": t}
            return
        m = re.match(r'(@"[^"]+"|@[\w.$-]+|%"[^"]+"|%[\w.$-]+)', rest)
        if not m:
            raise AnalysisError("call parse: " + rest[:120])
        callee = self.operand("ptr", m.group(1))
        args, e = split_paren(rest, m.end())
        tail = rest[e:]
        ins.ty = t
        al = []
        for a in args:
            if a.startswith("metadata "):
                al.append(("metadata", ("opaque", a[9:])))
            else:
                al.append(self.typed(a))
        g = re.search(r" #(\d+)", tail)
        ins.args = al
        ins.x = {"callee": callee, "nounwind": self.attr_nounwind(g.group(1) if g else None), "ret": t}
        if op == "invoke":
            m = re.search(r"to label (%\"[^\"]+\"|%[\w.$-]+)\s+unwind label (%\"[^\"]+\"|%[\w.$-]+)", tail)
            ins.x["normal"], ins.x["unwind"] = m.group(1), m.group(2)


def split_top(s):
    r = split_paren("(" + s + ")", 0)[0]
    return r


def parse_fp(s):
    import struct
    if s.startswith("0xK"):
        return s
    if s.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
    return float(s)


class Program:
    """A set of modules compiled from the current tree."""

    def __init__(self, units, extra=()):
        with ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(lambda u: compile_unit(u, extra), units))
        self.units = list(units)
        self.mods = [Module(p, u) for p, u in zip(paths, units)]
        self._dem = {}
        names = set()
        for m in self.mods:
            names.update(m.functions)
            names.update(m.declares)
            names.update(m.aliases)
            names.update(n for n in m.globals if n.startswith("_Z"))
        self._demangle(names)
        self.defs = {}
        for m in self.mods:
            for n, f in m.functions.items():
                self.defs.setdefault(n, f)
        for m in self.mods:
            for a, t in m.aliases.items():
                if t in self.defs:
                    self.defs.setdefault(a, self.defs[t])
        self._vt = None

    def _demangle(self, names):
        names = sorted(names)
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split("\n")):
            self._dem[n] = d.replace("std::__cxx11::", "std::")

    def dem(self, n):
        if n not in self._dem:
            self._demangle([n])
        return self._dem[n]

    def find(self, pat, defined=True):
        """defined functions whose demangled name matches regex fully"""
        r = re.compile(pat)
        return [f for n, f in self.defs.items() if r.fullmatch(self.dem(n))]

    def one(self, name):
        """the function with exactly that demangled name"""
        hits = {f.name: f for n, f in self.defs.items() if self.dem(n) == name}
        # complete/base object constructor variants collapse: prefer C2/D2
        if len(hits) > 1:
            pref = [f for f in hits.values() if re.search(r"[CD]2E", f.name)]
            if pref:
                return pref[0]
        if not hits:
            raise AnalysisError("anchor vanished: no function %s" % name)
        return next(iter(hits.values()))

    def module_of_unit(self, unit):
        for m in self.mods:
            if m.src == unit:
                return m
        raise AnalysisError("unit %s not loaded" % unit)

    def vtables(self):
        """class mangled ('N6libube4HeapE') -> list of slot function names"""
        if self._vt is None:
            self._vt = {}
            for m in self.mods:
                for g, rest in m.globals.items():
                    if g.startswith("_ZTV") and "ptr" in rest and "constant" in rest:
                        mm = re.search(r"\{ \[\d+ x ptr\] \[(.*?)\]", rest)
                        if not mm:
                            continue
                        ents = [x.strip() for x in mm.group(1).split(",")]
                        fl = []
                        for e in ents[2:]:
                            q = re.search(r'@("[^"]+"|[\w.$-]+)', e)
                            fl.append(q.group(1).strip('"') if q else None)
                        self._vt.setdefault(g[4:], fl)
        return self._vt


def strip_templates(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("operator<<", i) or s.startswith("operator>>", i):
            out.append(s[i:i + 10]); i += 10; continue
        if s.startswith("operator<", i) or s.startswith("operator>", i) :
            j = 10 if s[i + 9:i + 10] == "=" else 9
            out.append(s[i:i + j]); i += j; continue
        if s.startswith("operator->", i):
            out.append("operator->"); i += 10; continue
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif not d:
            out.append(c)
        i += 1
    return "".join(out)


_shorts = {}


def short(dem):
    """qualified function name without return type and arguments (template
    arguments kept): 'libube::var::get<int>'; args list via sig_args"""
    r = _shorts.get(dem)
    if r is None:
        r = _shorts[dem] = _short(dem)
    return r


def _short(dem):
    s = dem
    k = _argpos(s)
    head = s[:k] if k is not None else s
    # cut the return type: last space at depth 0 that is not part of 'operator X'
    m = re.search(r"\boperator\b", head)
    limit = m.start() if m else len(head)
    d = 0
    cut = -1
    for i, c in enumerate(head[:limit]):
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        elif c == " " and d == 0:
            cut = i
    h = head[cut + 1:]
    return h.lstrip("*&")


def _argpos(s):
    """index of '(' opening the argument list"""
    e = s
    for suf in (" const", " &", " &&", " [clone .cold]"):
        if e.endswith(suf):
            e = e[:-len(suf)]
    if not e.endswith(")"):
        return None
    d = 0
    for i in range(len(e) - 1, -1, -1):
        if e[i] == ")":
            d += 1
        elif e[i] == "(":
            d -= 1
            if d == 0:
                return i
    return None


_sigs = {}


def sig_args(dem):
    r = _sigs.get(dem)
    if r is None:
        k = _argpos(dem)
        if k is None:
            r = []
        else:
            e = dem[k:]
            e = e[:e.rindex(")") + 1]
            r = [a for a in split_paren(e, 0)[0]]
        _sigs[dem] = r
    return r
