"""Analysis of the methods of var that are built from other methods of var: the
latter are primitive (see vmodel), as are the virtual methods of arrays."""
from heapm import *

NOBODY = mk("nobody")


class SeqPolicy(HeapPolicy):
    def __init__(self, prog, cls=None):
        HeapPolicy.__init__(self, prog)
        self.this_obj = NOBODY
        self.this_class = None


class SeqRun(Run):
    def __init__(self, R, prog, fn, setup=None, unwind=False, policy=None, prep=None):
        Run.__init__(self, R, prog, None, None, 0, fn=fn, unwind=unwind, setup=setup, prep=prep, policy=policy or SeqPolicy)


def var_fn(prog, meth, pred=None, nargs=None, ns="libube::var::"):
    """the body of a method of var by its public name"""
    want = ns + meth
    for n, f in sorted(prog.defs.items()):
        d = prog.dem(n)
        if short(d) != want or not f.order:
            continue
        sig = sig_args(d)
        if nargs is not None and len(sig) != nargs:
            continue
        if pred and not pred(sig):
            continue
        return f
    raise Vanished("no %s" % want)


def m(name, c, *a):
    """what a method of a var with content c tells at entry"""
    t = mk("m:" + name, c, *(list(a) + ([] if name == "heap" else [ZERO])))
    return t


WRITERS = {"assign", "assign_elem", "resize", "array", "push", "append", "insert", "clear", "presize", "shift", "unshift",
           "pop", "remove", "swap"}


def changes(events):
    """events which change something that is not local: [(what)]"""
    res = []
    for e in walk(events):
        if e.kind == "var" and (e.name in WRITERS or e.name.startswith("set")):
            tgt = e.args[0] if e.args else None
            if e.name == "assign" and tgt is not None and tgt.op in ("nil", "uninit", "num", "str"):
                continue
            res.append(e)
        elif e.kind == "heap" and e.name in ("resize", "shift", "unshift", "append", "offset", "copy") and (e.name != "offset" or len(e.args) > 1):
            res.append(e)
        elif e.kind in ("self", "life", "store", "memmove", "memcpy"):
            res.append(e)
    return res
