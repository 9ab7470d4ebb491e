"""Obligation bookkeeping, evidence and verdict of a check.

A check states obligations, each with a stable key.  An obligation is
  held       the abstract semantics of the construct satisfies the rule
  violated   it contradicts the rule
  undecided  the construct left the modelled idioms; counted, never reported
"""
import json, os, signal, sys, time, traceback, contextlib
from ir import AnalysisError, Program, REPO
import ir

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []             # (key, verdict, rule, msg, where)
        self.keys = set()
        self.functions = set()
        self.units = set()
        self.rules = {}
        self.sites = 0
        self.samples = []
        self.progs = {}
        self.known = []
        self.assumptions = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d.get("property") == pid and d.get("status") == "known":
                        self.known.append(d)

    # -------------------------------------------------------- programs
    def program(self, *units, **kw):
        k = (units, tuple(sorted(kw.items())))
        if k not in self.progs:
            self.units.update(units)
            self.progs[k] = Program(list(units), **kw)
        return self.progs[k]

    def rule(self, name, text):
        self.rules[name] = text

    def saw(self, engine_or_names):
        if hasattr(engine_or_names, "fnseen"):
            self.functions.update(engine_or_names.prog.dem(n) for n in engine_or_names.fnseen)
        else:
            self.functions.update(engine_or_names)

    # -------------------------------------------------------- obligations
    def ob(self, key, verdict, msg="", where="", rule=None):
        """verdict: True held, False violated, None undecided"""
        k, n = key, 1
        while k in self.keys:
            n += 1
            k = "%s#%d" % (key, n)
        self.keys.add(k)
        self.obs.append((k, verdict, rule, msg, where))
        return verdict

    @contextlib.contextmanager
    def budget(self, secs):
        """a construct that takes too long to interpret is undecided"""
        def late(*a):
            raise AnalysisError("took more than %d s" % secs)
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(secs)
        try:
            yield
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    @contextlib.contextmanager
    def guard(self, key, rule=None):
        """a construct the analysis cannot interpret is undecided"""
        try:
            yield
        except AnalysisError as e:
            if isinstance(e, Vanished):
                raise
            self.ob(key, None, "not interpreted: %s" % str(e)[:300], "", rule)
        except RecursionError:
            self.ob(key, None, "not interpreted: recursion", "", rule)
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.ob(key, None, "not interpreted: %s: %s at %s:%s" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno), "", rule)
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()

    # -------------------------------------------------------- parallel
    def parallel(self, tasks, jobs=8):
        """run independent pieces of the check, each tasks[i](self), in forked
        processes; what they record is merged in order"""
        import multiprocessing as mp
        global _PAR
        _PAR = (self, tasks)
        with mp.get_context("fork").Pool(min(jobs, max(1, len(tasks)))) as pool:
            for obs, fns, sites, samples in pool.imap(_par, range(len(tasks)), 1):
                for k, v, rule, msg, where in obs:
                    self.ob(k, v, msg, where, rule)
                self.functions.update(fns)
                self.sites += sites
                self.samples += samples

    # -------------------------------------------------------- verdict
    def finish(self, min_decided=1):
        viol = [o for o in self.obs if o[1] is False]
        held = [o for o in self.obs if o[1] is True]
        und = [o for o in self.obs if o[1] is None]
        kn, new = [], []
        for o in viol:
            for k in self.known:
                if o[0] in k["keys"]:
                    kn.append((o, k))
                    break
            else:
                new.append(o)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
              "level": "other",
              "coverage": {
                  "explanation": "static analysis of the LLVM IR of the current source: %d obligations over %d functions; "
                                 "%d held, %d violated (%d listed findings), %d undecided" % (
                                     len(self.obs), len(self.functions), len(held), len(viol), len(kn), len(und)),
                  "obligations": len(self.obs), "discharged": len(held), "undecided": len(und),
                  "units": sorted(self.units),
                  "functions_analysed": len(self.functions),
                  "functions": sorted(self.functions)[:400],
                  "rules": self.rules,
                  "samples": [{"obligation": o[0], "rule": o[2], "where": o[4], "result": o[3][:300]} for o in held[:12]],
                  "undecided_list": [{"obligation": o[0], "why": o[3][:300]} for o in und[:60]],
                  "violated_list": [{"obligation": o[0], "where": o[4], "what": o[3][:600]} for o in viol],
                  "held_list": [o[0] for o in held],
              },
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for o, k in kn:
            if k["id"] not in seen:
                seen.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s: %d obligations, %d held, %d undecided, %d violated (%d known) in %.1fs" % (
            self.pid, len(self.obs), len(held), len(und), len(viol), len(kn), time.time() - self.t0))
        if os.environ.get("VERIF_DEBUG"):
            for o in und:
                print("  undecided", o[0], o[3])
        if new:
            p = os.path.join(d, self.pid + ".violation.txt")
            with open(p, "w") as f:
                for o in new:
                    f.write("%s\n  rule: %s\n  at: %s\n  %s\n\n" % (o[0], self.rules.get(o[2], o[2]), o[4], o[3]))
                    print("  %s: %s [%s] %s" % (o[4] or "?", o[0], o[2], o[3][:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if len(held) < min_decided:
            raise AnalysisError("%s: only %d obligations decided (expected at least %d): the analysis lost its anchors"
                                % (self.pid, len(held), min_decided))
        return 0


_PAR = None


def _par(i):
    sys.setrecursionlimit(20000)
    R, tasks = _PAR
    R.obs, R.keys, R.functions, R.sites, R.samples = [], set(), set(), 0, []
    tasks[i](R)
    return R.obs, R.functions, R.sites, R.samples


class Vanished(AnalysisError):
    """a public construct a rule is anchored at no longer exists"""


def anchor(prog, name):
    try:
        return prog.one(name)
    except AnalysisError as e:
        raise Vanished("anchor vanished: %s" % name)
