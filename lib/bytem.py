"""Decision tables over one character: conditions and values of a path as
functions of a byte, tabulated for all 256 of them."""
from resm import *
from loops import closed, top_loops, kappa

WS = {9, 10, 11, 12, 13, 32}
CTYPE = {
    "isspace": lambda c: c in WS, "isdigit": lambda c: 48 <= c <= 57, "isupper": lambda c: 65 <= c <= 90,
    "islower": lambda c: 97 <= c <= 122, "isalpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    "isalnum": lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57, "isblank": lambda c: c in (9, 32),
    "iscntrl": lambda c: 0 <= c < 32 or c == 127, "isprint": lambda c: 32 <= c < 127, "isgraph": lambda c: 32 < c < 127,
    "ispunct": lambda c: 32 < c < 127 and not (65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57),
}


def upper(c):
    return c - 32 if 97 <= c <= 122 else c


def lower(c):
    return c + 32 if 65 <= c <= 90 else c


STRINGS = {}          # constant strings (as bytes) strchr looks through


def bval(t, env):
    """value of a term when the byte terms in env have these values (0..255); None if it depends on anything else"""
    if t in env:
        return env[t]
    op = t.op
    if op == "c":
        return t.a[0] if isinstance(t.a[0], int) else None
    if op in ("sext8", "zext8", "trunc8", "sext16", "zext16", "sext32", "zext32", "trunc32", "trunc16"):
        v = bval(t.a[0], env)
        if v is None:
            return None
        n = int(op[-2:]) if op[-2:].isdigit() else 8
        u = v & (1 << n) - 1
        if op.startswith("sext") and u >= 1 << (n - 1):
            u -= 1 << n
        return u
    if op in ("eq0", "le0"):
        v = bval(t.a[0], env)
        return None if v is None else v == 0 if op == "eq0" else v <= 0
    if op == "not":
        v = bval(t.a[0], env)
        return None if v is None else not v
    if op in ("bool", "b2i"):
        v = bval(t.a[0], env)
        return None if v is None else bool(v) if op == "bool" else int(v)
    if op in ("ult", "ule", "and", "or", "band", "bor", "xor", "shl", "lshr", "ashr", "sdiv", "srem", "udiv", "urem"):
        a, b = bval(t.a[0], env), bval(t.a[1], env)
        if op in ("and", "or") and isinstance(a, bool) | isinstance(b, bool):
            if op == "and" and (a is False or b is False):
                return False
            if op == "or" and (a is True or b is True):
                return True
        if a is None or b is None:
            return None
        if op in ("ult", "ule"):
            a, b = a % 2 ** 64, b % 2 ** 64
            return a < b if op == "ult" else a <= b
        if op in ("and", "band"):
            return a & b
        if op in ("or", "bor"):
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return a << b if 0 <= b < 64 else None
        if op in ("lshr", "ashr"):
            return (a >> b if a >= 0 or op == "ashr" else None) if 0 <= b < 64 else None
        if b == 0:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if "div" in op else a - q * b
    if op == "mul":
        r = 1
        for x in t.a:
            v = bval(x, env)
            if v is None:
                return None
            r *= v
        return r
    if op == "ite":
        c = bval(t.a[0], env)
        return None if c is None else bval(t.a[1] if c else t.a[2], env)
    if op == "call" and isinstance(t.a[0], str) and t.a[0].split("::")[-1] in ("strchr", "memchr") and len(t.a) >= 4:
        g, v = getattr(t.a[2], "a", (None,))[0], bval(t.a[3], env)
        s = STRINGS.get(g) if t.a[2].op == "global" else None
        if s is None or v is None:
            return None
        return int(v & 255 == 0 or (v & 255) in s)          # the terminator is found too
    if op == "call" and isinstance(t.a[0], str) and len(t.a) == 3:
        v = bval(t.a[2], env)
        if v is None:
            return None
        n = t.a[0].replace("std::", "")
        if n in CTYPE:
            return int(CTYPE[n](v))
        if n == "toupper":
            return upper(v)
        if n == "tolower":
            return lower(v)
        return None
    if op == "aff":
        c, d = lin(t)
        for x, k in d.items():
            v = bval(x, env)
            if v is None:
                return None
            c += k * int(v)
        return c
    return None


def about(facts, bs):
    """conditions that mention any of the byte terms"""
    bs = set(bs)
    return [b for b in facts.all() if bs & set(subterms(b))]


def table(fs, b):
    """bytes for which the conditions hold: (set, certain)"""
    r, sure = set(), True
    for v in range(256):
        ok = True
        for f in fs:
            x = bval(f, {b: v})
            if x is False or x == 0 and x is not None and not isinstance(x, bool):
                ok = False
                break
            if x is None:
                sure = False
        if ok:
            r.add(v)
    return r, sure


def nm(v):
    return repr(chr(v)) if 32 <= v < 127 else "byte %d" % v


def some(s):
    s = sorted(s, key=lambda v: (not 32 < v < 127, v))
    return ", ".join(nm(v) for v in s[:4]) + (" and %d more" % (len(s) - 4) if len(s) > 4 else "")


def chars(t):
    """byte loads in a term"""
    return {x for x in subterms(t) if x.op == "ld" and x.a[2] == 1}


def cstring(prog, g):
    """text of a constant string"""
    if g.op != "global":
        return None
    for m in prog.mods:
        s = m.cstring(g.a[0])
        if s is not None:
            return s
    return None
