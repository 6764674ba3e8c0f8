"""Shared driver of the checks of numeric models: every configuration of a grid is explored
as an explicit chain and the implementation's results are compared with it."""
import time

from .. import seam
from ..report import Acc, CaseTimeout, finish, pmap, time_limit

OBS = []


class Cmp:
    """Comparison of one configuration."""
    hung = False                                  # a call of an earlier configuration did not end

    def __init__(self, acc, cfg, tag):
        self.acc, self.cfg, self.tag = acc, cfg, tag
        self.bad = 0
        self.limit = 10 if Cmp.hung else 60       # seconds for one call
        self.key = None                           # one key for all failures of this configuration

    def fail(self, key, text):
        self.bad += 1
        key = self.key or key
        self.acc.violation(self.tag + key, "%s: %s" % (self.cfg, text), {"cfg": list(self.cfg)})

    def call(self, key, f, limit=None):
        """Run the code under test; a crash or a hang is a violation, returned as None."""
        self.acc.add("calls")
        try:
            with time_limit(limit or self.limit), seam.quiet():
                return f()
        except CaseTimeout as e:
            Cmp.hung = True
            self.limit = 3                        # the configuration has failed: no need to wait as long again
            self.fail(key + "-raises", "%s raises %s: %s" % (key, type(e).__name__, e))
            return None
        except Exception as e:
            self.fail(key + "-raises", "%s raises %s: %s" % (key, type(e).__name__, e))
            return None

    def num(self, key, got, exp, rel=1e-6, ab=1e-9):
        self.acc.add("comparisons")
        try:
            g = complex(got)
            ok = abs(g.imag) <= ab + rel * abs(exp) + 1e-7 and abs(g.real - exp) <= ab + rel * abs(exp)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(key, "%s = %s, the exact chain has %.10g" % (key, got, exp))
        return ok

    def seq(self, key, got, exp, rel=1e-6, ab=1e-9, n=None, pad=True):
        """Element by element; missing tail elements count as zero when `pad`."""
        if got is None:
            return False
        try:
            got = list(got)
        except TypeError:
            self.fail(key, "%s = %r is no sequence" % (key, got))
            return False
        n = len(exp) if n is None else n
        if not pad and len(got) < n:
            self.fail(key, "%s has %d elements, must have %d" % (key, len(got), n))
            return False
        for i in range(n):
            if not self.num("%s[%d]" % (key, i), got[i] if i < len(got) else 0.0, exp[i], rel, ab):
                return False
        return True

    def done(self, sample=None):
        self.acc.add("configurations")
        if not self.bad:
            self.acc.add("validated")
        if sample is not None:
            self.acc.sample(sample)


def explored(acc, *graphs):
    for g in graphs:
        g = getattr(g, "g", g)
        acc.add("states", g.n)
        acc.add("transitions", g.edges)


_ONE = None


def _work(cfg):
    acc = Acc()
    _ONE(acc, cfg)
    return acc


def run(prop, one, grid, thorough, assumptions, chunksize=1, extra=None, recycle=False):
    global _ONE
    t0 = time.time()
    seam.prepare_imports()
    _ONE = one
    acc = pmap(_work, grid, chunksize=chunksize, recycle=recycle)
    cov = {"states": acc.n.get("states", 0), "transitions": acc.n.get("transitions", 0),
           "traces_validated_against_impl": acc.n.get("comparisons", 0),
           "configurations": acc.n.get("configurations", 0), "implementation_calls": acc.n.get("calls", 0),
           "exhaustive": True}
    cov.update(extra or {})
    return finish(prop, "model_checking", acc, t0, cov, assumptions)


def replay_one(one, rep):
    seam.prepare_imports()
    acc = Acc()

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x
    one(acc, tup(rep["cfg"]))
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
