"""C14: generate() follows the declared law and the supplied generator.

Every execution of generate() on a product lattice of the answers of its random draws is
enumerated.  A draw of any kind (uniform, exponential, gamma, normal, interval) answers
with the N mid-quantiles of its own law, so the enumeration does not depend on which
transformation the code uses, on draw order or on u versus 1-u."""
import itertools
import math
import time

import numpy as np
from scipy import special as sp
from scipy import stats

from .. import seam
from ..report import Acc, finish, pmap

GRID_N = {1: 4000, 2: 300, 3: 60, 4: 24, 5: 14}
GRID_T = {1: 40000, 2: 800, 3: 120, 4: 40, 5: 20}


class Draws:
    """The random source during one execution: `tape` holds quantile indices."""

    def __init__(self, n):
        self.n = n
        self.tape = ()
        self.pos = 0
        self.local = self.glob = 0
        self.cache = {}

    def start(self, tape):
        self.tape, self.pos = tape, 0
        self.local = self.glob = 0

    def q(self, kind, *par):
        key = (kind,) + par
        tab = self.cache.get(key)
        if tab is None:
            u = (np.arange(self.n) + 0.5) / self.n
            if kind == "u":
                t = u
            elif kind == "E":
                t = -np.log1p(-u) * par[0]
            elif kind == "G":
                t = stats.gamma.ppf(u, par[0], scale=par[1])
            elif kind == "N":
                t = par[0] + par[1] * sp.ndtri(u)
            else:
                t = par[0] + (par[1] - par[0]) * u
            tab = self.cache[key] = [np.float64(x) for x in t]
        i = self.pos
        self.pos += 1
        if i >= len(self.tape):
            raise More()
        return tab[self.tape[i]]


class More(Exception):
    pass


D = None


class Gen:
    def __init__(self, is_global=False):
        self.g = is_global

    def _c(self):
        if self.g:
            D.glob += 1
        else:
            D.local += 1

    def random(self, size=None):
        self._c()
        return D.q("u")

    rand = random_sample = random

    def exponential(self, scale=1.0, size=None):
        self._c()
        return D.q("E", float(scale))

    def standard_exponential(self, size=None):
        self._c()
        return D.q("E", 1.0)

    def gamma(self, shape, scale=1.0, size=None):
        self._c()
        return D.q("G", float(shape), float(scale))

    def standard_gamma(self, shape, size=None):
        self._c()
        return D.q("G", float(shape), 1.0)

    def normal(self, loc=0.0, scale=1.0, size=None):
        self._c()
        return D.q("N", float(loc), float(scale))

    def standard_normal(self, size=None):
        self._c()
        return D.q("N", 0.0, 1.0)

    def uniform(self, low=0.0, high=1.0, size=None):
        self._c()
        return D.q("U", float(low), float(high))

    def pareto(self, a, size=None):
        self._c()
        u = D.q("u")
        return (1 - u) ** (-1.0 / a) - 1.0


def install():
    g = Gen(True)
    for name in ("random", "rand", "random_sample", "exponential", "standard_exponential", "gamma",
                 "standard_gamma", "normal", "standard_normal", "uniform", "pareto"):
        setattr(np.random, name, (lambda f: lambda *a, **k: f(*a, **k))(getattr(g, name))
                if name != "rand" else (lambda *a: g.random()))


# ---- declared laws: cdf and raw moments -----------------------------------------------
def law(nt, p):
    """(cdf(t), [moments], reference lattice value of a tuple of quantiles, depth)"""
    if nt == "M":
        return law("E", [1, p])
    if nt == "E":
        r, mu = p
        return (lambda t: sp.gammainc(r, mu * np.maximum(t, 0)),
                [math.gamma(r + k) / math.gamma(r) / mu ** k for k in (1, 2, 3)])
    if nt == "Gamma":
        mu, a = p[0], p[1]
        return (lambda t: sp.gammainc(a, mu * np.maximum(t, 0)),
                [math.gamma(a + k) / math.gamma(a) / mu ** k for k in (1, 2, 3)])
    if nt == "H":
        y, m1, m2 = p
        ex = lambda m, t: (-np.expm1(-m * np.maximum(t, 0)) if m else 0 * t)
        if m1 == 0 or m2 == 0:
            return (lambda t: y * ex(m1, t) + (1 - y) * ex(m2, t), [])
        return (lambda t: y * ex(m1, t) + (1 - y) * ex(m2, t),
                [math.factorial(k) * (y / m1 ** k + (1 - y) / m2 ** k) for k in (1, 2, 3)])
    if nt == "C":
        y, m1, m2 = p

        def cdf(t):
            t = np.maximum(t, 0)
            if m1 == m2:
                two = sp.gammainc(2, m1 * t)
            else:
                two = 1 - (m2 * np.exp(-m1 * t) - m1 * np.exp(-m2 * t)) / (m2 - m1)
            return y * two + (1 - y) * -np.expm1(-m1 * t)
        mom = []
        for k in (1, 2, 3):
            s = sum(math.factorial(k) / (m1 ** i * m2 ** (k - i)) for i in range(k + 1))
            mom.append((1 - y) * math.factorial(k) / m1 ** k + y * s)
        return cdf, mom
    if nt == "Pa":
        a, k = p
        return (lambda t: np.where(t < k, 0.0, 1 - (k / np.maximum(t, k)) ** a),
                [a * k ** j / (a - j) for j in (1, 2, 3) if a > j + 1.5])
    if nt == "Uniform":
        m, h = p
        return (lambda t: np.clip((t - m + h) / (2 * h), 0, 1),
                [((m + h) ** (k + 1) - (m - h) ** (k + 1)) / (2 * h * (k + 1)) for k in (1, 2, 3)])
    if nt == "Norm":
        m, s = p
        return (lambda t: sp.ndtr((t - m) / s), [m, m * m + s * s, m ** 3 + 3 * m * s * s])
    raise KeyError(nt)


CLS = {"M": "Exp_dist", "H": "H2_dist", "E": "Erlang_dist", "Gamma": "Gamma", "C": "Cox_dist", "Pa": "Pareto_dist",
       "Uniform": "Uniform_dist", "Norm": "Normal_dist"}

PARAMS = {
    "M": [0.2, 1.0, 7.5],
    "E": [[1, 0.7], [2, 1.3], [3, 0.5], [4, 2.0]],
    "H": [[0.3, 0.5, 2.0], [0.75, 3.0, 0.2], [0.0, 1.0, 2.0], [1.0, 1.0, 2.0], [0.5, 1.0, 1.0],
          [0.4, 0.0, 2.0], [0.6, 1.5, 0.0], [0.05, 0.1, 4.0]],
    "C": [[0.3, 0.5, 2.0], [0.8, 1.0, 1.0], [0.0, 1.4, 3.0], [1.0, 2.0, 0.7], [0.05, 4.0, 0.2]],
    "Gamma": [[0.5, 0.3], [2.0, 1.0], [1.5, 3.7]],
    "Pa": [[2.2, 1.0], [5.5, 0.4], [8.0, 2.5]],
    "Uniform": [[1.0, 0.5], [3.0, 3.0], [0.7, 0.01]],
    "Norm": [[2.0, 0.3], [5.0, 1.0]],
}


def make(nt, p, how, gen):
    """A zero-argument callable producing one value."""
    from most_queue import rand_distribution as rd
    from most_queue.sim.utils.distribution_utils import create_distribution
    c = getattr(rd, CLS[nt])
    if how == "object":
        return (c(p, gen) if gen is not None else c(p)).generate
    if how == "factory":
        return create_distribution(p, nt, gen).generate
    args = [p] if nt == "M" else list(p)
    if gen is None:
        return lambda: c.generate_static(*args)
    return lambda: c.generate_static(*args, generator=gen)


def enumerate_values(f, n, acc, deep_limit):
    """All executions of f over the lattice, as (value, weight)."""
    vals, ws = [], []

    def rec(prefix):
        D.start(prefix)
        try:
            v = f()
        except More:
            if len(prefix) >= deep_limit:
                raise RuntimeError("more than %d draws for one value" % deep_limit)
            acc.add("states")
            for i in range(n):
                rec(prefix + (i,))
            return
        vals.append(v)
        ws.append(float(n) ** -len(prefix))
        acc.add("executions")
        acc.add("draws", len(prefix))
    rec(())
    return vals, ws


def check(task):
    """One (law, parameters, construction, generator?)"""
    global D
    nt, p, how, local, thorough = task
    acc = Acc()
    gen = Gen() if local else None
    rep = {"nt": nt, "p": p, "how": how, "local": local, "thorough": thorough}

    def bad(what):
        acc.violation("%s-%s-%s" % (nt, how, "generator" if local else "global"),
                      "%s(%s) built by %s: %s" % (nt, p, how, what), rep)
    try:
        f = make(nt, p, how, gen)
        # number of draws of the deepest execution
        D = Draws(101)
        depth = 1
        while True:
            deeper = False
            for tape in itertools.product((0, 50, 100), repeat=depth):
                D.start(tape)
                try:
                    f()
                except More:
                    deeper = True
                    break
            if not deeper or depth > 5:
                break
            depth += 1
        if depth > 5:
            bad("needs more than 5 draws for one value")
            return acc
        n = (GRID_T if thorough else GRID_N)[depth]
        D = Draws(n)
        # source of the draws
        D.start((0,) * depth)
        f()
        if (D.glob if local else D.local):
            bad("draws from the wrong random source")
            return acc
        vals, ws = enumerate_values(f, n, acc, depth)
        # statelessness: the same draws give the same value again
        for tape in itertools.product((0, n // 3, n - 1), repeat=depth):
            D.start(tape)
            v1 = f()
            D.start((n // 2,) * depth)
            f()
            if D.glob and local or D.local and not local:
                bad("draws from the wrong random source")
                return acc
            D.start(tape)
            if f() != v1:
                bad("the same draws give different values in consecutive calls")
                return acc
        vals = np.array([float(v) for v in vals])
        ws = np.array(ws)
    except Exception as e:
        bad("raises %s: %s" % (type(e).__name__, e))
        return acc
    if abs(ws.sum() - 1) > 1e-9:
        bad("executions have total weight %s" % ws.sum())
        return acc
    cdf, mom = law(nt, p)
    order = np.argsort(vals)
    v, cum = vals[order], np.cumsum(ws[order])
    # distribution function at values between the atoms
    idx = np.unique((np.linspace(0.002, 0.998, 400) * len(v)).astype(int))
    idx = idx[(idx < len(v) - 1)]
    mid = np.where(v[idx + 1] - v[idx] > 0, (v[idx] + v[idx + 1]) / 2, np.nan)
    ok = ~np.isnan(mid)
    err = np.abs(cum[idx][ok] - cdf(mid[ok]))
    tol = (1.1 if depth > 1 else 0.6) * depth / n
    acc.add("points", int(ok.sum()))
    if len(err) and err.max() > tol:
        j = int(np.argmax(err))
        bad("P(value <= %.6g) is %.5f, the law has %.5f (lattice %d^%d, tolerance %.1g)" % (
            mid[ok][j], cum[idx][ok][j], float(cdf(mid[ok][j])), n, depth, tol))
        return acc
    if v[0] < 0 and nt != "Norm":
        bad("negative value %s" % v[0])
    for k, m in enumerate(mom):
        got = float((vals ** (k + 1) * ws).sum())
        tolm = depth * (k + 1) * (2.0 + math.log(n)) ** k * {"Pa": 6.0}.get(nt, 1.0) / n
        if nt == "Pa":
            tolm = 2.5 * (1.0 / n) ** (1 - (k + 1) / p[0]) + 2.0 / n
        if nt == "Gamma" and p[1] < 1:
            tolm *= 2
        acc.add("points")
        if abs(got - m) > tolm * abs(m):
            bad("moment %d is %.6g, the law has %.6g (tolerance %.2g relative)" % (k + 1, got, m, tolm))
            return acc
    acc.add("validated")
    acc.sample({"law": nt, "params": p, "built": how, "executions": len(vals), "draws": depth,
                "mean": float((vals * ws).sum()), "max_cdf_error": float(err.max()) if len(err) else 0.0})
    return acc


UNKNOWN = ["X", "", "m", "h", "H2", "e", "Er", "gamma", "G", "cox", "Cox", "PA", "pa", "P", "U", "uniform", "N", "Normal",
           "d", "Det", None, 0, "MM", "M ", "Exp"]


def factory(_task):
    from most_queue import rand_distribution as rd
    from most_queue.sim.utils.distribution_utils import create_distribution
    from most_queue.sim.utils.exceptions import QsSourseSettingException
    acc = Acc()
    for x in UNKNOWN:
        acc.add("factory")
        try:
            d = create_distribution([1.0, 2.0, 3.0], x, None)
            acc.violation("factory-%r" % (x,), "notation %r is accepted and gives %s" % (x, type(d).__name__), {"factory": 1})
        except QsSourseSettingException:
            pass
        except Exception as e:
            acc.violation("factory-%r" % (x,), "notation %r raises %s instead of QsSourseSettingException" % (
                x, type(e).__name__), {"factory": 1})
    for nt, c in list(CLS.items()) + [("D", "Det_dist")]:
        acc.add("factory")
        p = PARAMS[nt][0] if nt != "D" else 1.7
        try:
            d = create_distribution(p, nt, Gen())
            if not isinstance(d, getattr(rd, c)):
                acc.violation("factory-class-" + nt, "notation %s gives a %s" % (nt, type(d).__name__), {"factory": 1})
        except Exception as e:
            acc.violation("factory-class-" + nt, "notation %s raises %s: %s" % (nt, type(e).__name__, e), {"factory": 1})
    for b in (0.0, 0.25, 1.0, 17.5):
        acc.add("factory")
        for f in (lambda: create_distribution(b, "D", Gen()).generate(), lambda: rd.Det_dist(b).generate(),
                  lambda: rd.Det_dist.generate_static(b)):
            try:
                got = f()
            except Exception as e:
                got = repr(e)
            if got != b:
                acc.violation("det", "deterministic law %s gives %s" % (b, got), {"factory": 1})
    return acc


ORDERS = (1, 2, 9, 60, 400, 800, 1300, 3000)


def high_order(task):
    """Erlang laws of orders beyond the lattice of all answers.  The draws answer with the mid-quantiles
    of a lattice taken in turn, from every starting point: a sum over the phases stays near its mean."""
    global D
    _, r, mu, local, thorough = task
    acc = Acc()
    gen = Gen() if local else None
    n = 97 if thorough else 23
    D = Draws(n)
    for how in ("object", "static", "factory"):
        f = make("E", [r, mu], how, gen)
        for start in range(n):
            for step in (1, 5):
                D.start(tuple((start + i * step) % n for i in range(2 * r + 5)))
                try:
                    v = float(f())
                except Exception as e:
                    v = "%s: %s" % (type(e).__name__, e)
                acc.add("executions")
                acc.add("states")
                acc.add("draws", D.pos)
                acc.add("points")
                what = None
                if isinstance(v, str):
                    what = "raises " + v
                elif D.glob if local else D.local:
                    what = "draws from the wrong random source"
                elif not 0 < v < float("inf") or r >= 60 and abs(v * mu / r - 1) > 6 / math.sqrt(r):
                    what = "the value %.6g for draws spread evenly over their law, the mean is %.6g" % (v, r / mu)
                if what:
                    acc.violation("E-order-%s-%s" % (how, "generator" if local else "global"),
                                  "Erlang law of order %d, rate %s, built by %s: %s" % (r, mu, how, what), {"order": list(task)})
                    return acc
    return acc


def run(task):
    install()
    return {"factory": factory, "order": high_order}.get(task[0], check)(task)


def main(thorough):
    t0 = time.time()
    seam.prepare_imports()
    import most_queue.rand_distribution  # noqa: F401
    tasks = [("factory",)]
    for nt, plist in PARAMS.items():
        for i, p in enumerate(plist):
            for how in ("object", "static", "factory"):
                for local in (True, False):
                    if nt == "E" and p[0] == 4 and not thorough and (how != "object"):
                        continue
                    tasks.append((nt, p, how, local, thorough and how == "object"))
    for r in ORDERS:
        tasks += [("order", r, mu, local, thorough) for mu in (0.2, float(r)) for local in (True, False)]
    with seam.quiet():
        acc = pmap(run, tasks)
    cov = {"states": acc.n.get("states", 0), "transitions": acc.n.get("draws", 0),
           "traces_validated_against_impl": acc.n.get("executions", 0),
           "configurations": len(tasks), "configurations_accepted": acc.n.get("validated", 0),
           "comparisons": acc.n.get("points", 0), "factory_cases": acc.n.get("factory", 0), "exhaustive": True}
    return finish("C14", "model_checking", acc, t0, cov,
                  ["draw answers are enumerated on the full lattice of mid-quantiles of each draw",
                   "numpy's own samplers (gamma, normal, uniform, exponential) are trusted to follow the law of their arguments"])


def replay(rep):
    seam.prepare_imports()
    import most_queue.rand_distribution  # noqa: F401
    acc = run(("factory",) if "factory" in rep else tuple(rep["order"]) if "order" in rep else (rep["nt"], rep["p"], rep["how"], rep["local"], rep["thorough"]))
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
