"""C15: moments, densities, distribution functions and tails of each law agree.

The oracle is the law itself: for phase-type laws (exponential, Erlang, H2, Cox) an
absorbing Markov chain explored state by state and solved by uniformisation; for the
others the closed form.  Every (law, parameter, time) of the grid is evaluated."""
import math
import os
import subprocess
import sys
import time

import numpy as np
from scipy import integrate, special as sp

from .. import seam
from ..report import Acc, finish, pmap


def weibull_class():
    """The Weibull utilities.  They import `rand_distribution` as a top-level module, which only
    works with the package directory itself on the path (a listed finding)."""
    try:
        from most_queue.theory.utils.weibull import Weibull
    except ModuleNotFoundError:
        d = os.path.join(seam.REPO, "most_queue")
        if d not in sys.path:
            sys.path.append(d)
        from most_queue.theory.utils.weibull import Weibull
    return Weibull


def weibull_import(acc):
    code = "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); import most_queue.theory.utils.weibull" % seam.REPO
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, cwd="/tmp")
    if r.returncode:
        acc.violation("weibull-import", "import most_queue.theory.utils.weibull: " + r.stderr.strip().splitlines()[-1],
                      {"import": 1})


# ---- phase-type laws as explicit absorbing chains ---------------------------------------
def chain(init, succ):
    """Breadth-first exploration of an absorbing chain.  succ(s) -> {next or None: rate}."""
    idx, order, edges = {}, [], []
    for s in init:
        idx[s] = len(order)
        order.append(s)
    i = 0
    while i < len(order):
        for t, r in succ(order[i]).items():
            if t is not None and t not in idx:
                idx[t] = len(order)
                order.append(t)
            edges.append((i, None if t is None else idx[t], r))
        i += 1
    n = len(order)
    Q = np.zeros((n, n))
    out = np.zeros(n)
    for a, b, r in edges:
        Q[a, a] -= r
        if b is None:
            out[a] += r
        else:
            Q[a, b] += r
    p0 = np.zeros(n)
    for s, p in init.items():
        p0[idx[s]] = p
    return p0, Q, out, len(edges)


def erlang(r, mu):
    return chain({0: 1.0}, lambda s: {(s + 1 if s + 1 < r else None): mu})


def h2(y, m1, m2):
    return chain({1: y, 2: 1 - y}, lambda s: {None: m1 if s == 1 else m2})


def cox(y, m1, m2):
    def succ(s):
        if s == 1:
            d = {}
            if y > 0:
                d[2] = y * m1
            if y < 1:
                d[None] = (1 - y) * m1
            return d
        return {None: m2}
    return chain({1: 1.0}, succ)


class PH:
    def __init__(self, ch):
        self.p0, self.Q, self.out, self.edges = ch
        self.states = len(self.p0)

    def tail(self, t):
        if t <= 0:
            return 1.0
        lam = max(-np.diag(self.Q)) * 1.0
        P = np.eye(self.states) + self.Q / lam
        x = lam * t
        v, s, k = self.p0.copy(), 0.0, 0
        logw = -x
        while True:
            s += math.exp(logw) * v.sum() if logw > -740 else 0.0
            k += 1
            logw += math.log(x) - math.log(k)
            v = v @ P
            if k > x and (math.exp(logw) < 1e-17 if logw > -740 else True):
                return s

    def pdf(self, t):
        # density = flow into absorption, from the same uniformised vector
        lam = max(-np.diag(self.Q))
        P = np.eye(self.states) + self.Q / lam
        x = lam * t
        v, s, k, logw = self.p0.copy(), 0.0, 0, -x
        while True:
            s += (math.exp(logw) if logw > -740 else 0.0) * (v @ self.out)
            k += 1
            logw += math.log(x) - math.log(k) if x > 0 else -1e9
            v = v @ P
            if k > x and logw < -40:
                return s

    def moment(self, k):
        v = np.ones(self.states)
        for _ in range(k):
            v = np.linalg.solve(-self.Q, v)
        return math.factorial(k) * float(self.p0 @ v)


class Closed:
    states, edges = 0, 0

    def __init__(self, tail, pdf, moment):
        self.tail, self.pdf, self.moment = tail, pdf, moment


def gamma_law(mu, a):
    return Closed(lambda t: float(sp.gammaincc(a, mu * t)) if t > 0 else 1.0,
                  lambda t: mu * math.exp((a - 1) * math.log(mu * t) - mu * t - math.lgamma(a)) if t > 0 else 0.0,
                  lambda k: math.exp(math.lgamma(a + k) - math.lgamma(a)) / mu ** k)


def pareto(a, k):
    return Closed(lambda t: 1.0 if t < k else (k / t) ** a,
                  lambda t: 0.0 if t < k else a / t * (k / t) ** a,
                  lambda j: a * k ** j / (a - j) if a > j else None)


def uniform(m, h):
    return Closed(lambda t: min(1.0, max(0.0, (m + h - t) / (2 * h))),
                  lambda t: 1 / (2 * h) if m - h <= t <= m + h else 0.0,
                  lambda k: ((m + h) ** (k + 1) - (m - h) ** (k + 1)) / (2 * h * (k + 1)))


def weibull(k, T):
    return Closed(lambda t: math.exp(-t ** k / T) if t >= 0 else 1.0, None,
                  lambda j: T ** (j / k) * math.gamma(1 + j / k))


def cases():
    from most_queue.rand_distribution import (Cox_dist, Erlang_dist, Exp_dist, Gamma, H2_dist, Pareto_dist,
                                               Uniform_dist)
    Weibull = weibull_class()
    out = []
    for m in (0.01, 0.3, 1.0, 40.0):
        for c in (0.001, 0.5, 1.0):
            h = m * c
            out.append(("Uniform", (m, h), uniform(m, h), dict(
                cdf=lambda t, m=m, h=h: Uniform_dist.get_cdf(m, h, t), tail=lambda t, m=m, h=h: Uniform_dist.get_tail(m, h, t),
                pdf=lambda t, m=m, h=h: Uniform_dist.get_pdf(m, h, t),
                moments=lambda n, m=m, h=h: Uniform_dist.calc_theory_moments(m, h, n)), 8, [m - h, m + h]))
    for y in (0.0, 0.01, 0.3, 0.5, 0.9, 1.0):
        for m1, m2 in ((1.0, 1.0), (0.2, 5.0), (7.0, 0.03), (100.0, 250.0)):
            p = [y, m1, m2]
            out.append(("H2", (y, m1, m2), PH(h2(y, m1, m2)), dict(
                cdf=lambda t, p=p: H2_dist.get_cdf(p, t), tail=lambda t, p=p: H2_dist.get_tail(p, t),
                pdf=lambda t, p=p: H2_dist.get_pdf(p, t),
                moments=lambda n, p=p: H2_dist.calc_theory_moments(p[0], p[1], p[2], n)), 8, [0.0]))
            # residual law: P(residual > t) = integral_t^inf tail / mean
            law = PH(h2(y, m1, m2))
            res = Closed(lambda t, y=y, m1=m1, m2=m2: (y / m1 * math.exp(-m1 * t) + (1 - y) / m2 * math.exp(-m2 * t)) /
                         (y / m1 + (1 - y) / m2) if t > 0 else 1.0,
                         lambda t, law=law: law.tail(t) / law.moment(1),
                         lambda k, law=law: law.moment(k + 1) / law.moment(1) / (k + 1))
            out.append(("H2-residual", (y, m1, m2), res, dict(
                cdf=lambda t, p=p: H2_dist.get_cdf(H2_dist.get_residual_params(p), t),
                pdf=lambda t, p=p: H2_dist.get_pdf(H2_dist.get_residual_params(p), t),
                moments=lambda n, p=p: H2_dist.calc_theory_moments(*H2_dist.get_residual_params(p), n)), 5, [0.0]))
            c = Cox_dist
            out.append(("Cox", (y, m1, m2), PH(cox(y, m1, m2)), dict(
                moments=lambda n, p=p: c.calc_theory_moments(*p)), 3, [0.0]))
    for r in (1, 2, 3, 5, 12, 60, 200):
        for mu in (0.02, 1.0, 3.3, 90.0):
            out.append(("Erlang", (r, mu), PH(erlang(r, mu)), dict(
                cdf=lambda t, r=r, mu=mu: Erlang_dist.get_cdf((r, mu), t), tail=lambda t, r=r, mu=mu: Erlang_dist.get_tail([r, mu], t),
                moments=lambda n, r=r, mu=mu: Erlang_dist.calc_theory_moments(r, mu, n)), 8, [0.0]))
            if r == 1:
                out.append(("Exp", (mu,), PH(erlang(1, mu)), dict(
                    moments=lambda n, mu=mu: Exp_dist.calc_theory_moments(mu, n)), 8, [0.0]))
            # a gamma law of integer shape is the same absorbing chain
            out.append(("Gamma-int", (mu, r), PH(erlang(r, mu)), dict(
                cdf=lambda t, r=r, mu=mu: Gamma.get_cdf(mu, r, t), pdf=lambda t, r=r, mu=mu: Gamma.get_pdf(mu, r, t),
                moments=lambda n, r=r, mu=mu: Gamma.calc_theory_moments(mu, r, n)), 8, [0.0]))
    for mu in (0.05, 1.0, 8.0):
        for a in (0.05, 0.5, 0.999, 1.0, 1.7, 2.0, 9.3, 60.5, 180.0):
            out.append(("Gamma", (mu, a), gamma_law(mu, a), dict(
                cdf=lambda t, mu=mu, a=a: Gamma.get_cdf(mu, a, t), pdf=lambda t, mu=mu, a=a: Gamma.get_pdf(mu, a, t),
                f=lambda t, mu=mu, a=a: Gamma.get_f(mu, a, t),
                moments=lambda n, mu=mu, a=a: Gamma.calc_theory_moments(mu, a, n)), 8, [0.0]))
    for a in (0.5, 1.0, 1.5, 2.5, 3.5, 6.0, 40.0):
        for k in (0.01, 1.0, 7.0):
            out.append(("Pareto", (a, k), pareto(a, k), dict(
                cdf=lambda t, a=a, k=k: Pareto_dist.get_cdf([a, k], t), tail=lambda t, a=a, k=k: Pareto_dist.get_tail((a, k), t),
                pdf=lambda t, a=a, k=k: Pareto_dist.get_pdf(t, a, k),
                moments=lambda n, a=a, k=k: Pareto_dist.calc_theory_moments(a, k, n)), 5, [k]))
    for k in (0.4, 0.8, 1.0, 1.7, 4.0):
        for T in (0.2, 1.0, 15.0):
            out.append(("Weibull", (k, T), weibull(k, T), dict(
                cdf=lambda t, k=k, T=T: Weibull.get_cdf([k, T], [t])[0],
                tail=lambda t, k=k, T=T: Weibull.get_tail([k, T], [t])[0],
                tail1=lambda t, k=k, T=T: Weibull.get_tail_one_value((k, T), t)), 0, [0.0]))
    return out


def times(law, edges):
    scale = law.moment(1) or 5.0 * edges[0]
    base = [scale * x for x in (1e-6, 1e-3, 0.05, 0.2, 0.5, 0.9, 1.0, 1.3, 2.0, 3.5, 6.0, 12.0, 30.0, 100.0)]
    for e in edges:
        base += [e, e - 1e-9 * scale, e + 1e-9 * scale, e + 1e-3 * scale]
    neg = [-scale, -1e-9 * scale, -50 * scale]
    return sorted(set(base)), neg


def close(a, b, rel=1e-7, ab=1e-11):
    try:
        return abs(a - b) <= ab + rel * abs(b)
    except TypeError:
        return False


def one(case):
    name, p, law, fns, nmom, edges = case
    acc = Acc()
    acc.add("states", law.states)
    acc.add("transitions", law.edges)
    pos, neg = times(law, edges)

    def bad(what, t, got, exp):
        acc.violation("%s-%s" % (name, what), "%s%s: %s(%s) = %s, must be %s" % (name, p, what, t, got, exp),
                      {"name": name, "p": list(p)})

    def call(what, f, *a):
        acc.add("evaluations")
        try:
            return f(*a)
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    prev = 0.0
    for t in pos + neg:
        ref = law.tail(t)
        atom = False
        if "cdf" in fns:
            g = call("cdf", fns["cdf"], t)
            if isinstance(g, str) or not close(g, 1 - ref, 1e-8, 3e-9):
                bad("cdf", t, g, 1 - ref)
        for w in ("tail", "tail1"):
            if w in fns:
                g2 = call(w, fns[w], t)
                if isinstance(g2, str) or not close(g2, ref, 1e-6, 3e-9):
                    bad(w, t, g2, ref)
        for w in ("pdf", "f"):
            if w in fns:
                if t == 0 and not (name.startswith("H2")):
                    continue          # density at the very start of the support is a convention
                if any(abs(t - e) <= 1e-8 * (law.moment(1) or e) for e in edges) and name in ("Uniform", "Pareto"):
                    continue
                if name.startswith("Gamma") and 0 < p[0] * t < 1e-11:
                    continue          # documented cut-off of the density next to zero
                g3 = call(w, fns[w], t)
                r = 0.0 if t < 0 else law.pdf(t)
                if isinstance(g3, str) or not close(g3, r, 1e-6, 1e-12):
                    bad(w, t, g3, r)
    if nmom:
        for n in range(1, nmom + 1):
            g = call("moments", fns["moments"], n)
            exp = [law.moment(k) for k in range(1, n + 1)]
            if name == "Cox":
                exp = [law.moment(k) for k in (1, 2, 3)]
            if None in exp:
                exp = exp[:exp.index(None)]
            if isinstance(g, str) or len(g) != len(exp) or not all(close(a, b, 1e-9, 0) for a, b in zip(g, exp)):
                bad("moments", n, g, exp)
    acc.add("laws")
    acc.sample({"law": name, "params": p, "chain_states": law.states, "times": len(pos) + len(neg)})
    return acc


def special(_t):
    """Gamma-function helpers, transform, corrective densities."""
    from most_queue.rand_distribution import Gamma
    Weibull = weibull_class()
    acc = Acc()

    def cmp(what, f, exp, rel):
        acc.add("evaluations")
        try:
            g = f()
        except Exception as e:
            g = "%s: %s" % (type(e).__name__, e)
        if isinstance(g, str) or not close(g, exp, rel, 1e-12):
            acc.violation(what.split("(")[0], "%s = %s, must be %s" % (what, g, exp), {"special": 1})
    for i in range(1, 400):
        x = i * 0.025
        cmp("get_gamma(%g)" % x, lambda: Gamma.get_gamma(x), float(sp.gamma(x)), 1e-10)
        if abs(x - round(x)) > 1e-9 and x < 6:
            cmp("get_gamma(%g)" % -x, lambda: Gamma.get_gamma(-x), float(sp.gamma(-x)), 1e-8)
            cmp("get_minus_gamma(%g)" % x, lambda: Gamma.get_minus_gamma(x), float(sp.gamma(-x)), 1e-8)
    for a in (0.2, 0.5, 1.0, 1.5, 2.5, 4.0):
        for z in (0.01, 0.2, 0.7, 1.0, 2.0, 5.0):
            cmp("get_gamma_small(%g,%g)" % (a, z), lambda: Gamma.get_gamma_small(a, z), float(sp.gammainc(a, z) * sp.gamma(a)), 1e-7)
            cmp("get_gamma_incomplete(%g,%g)" % (a, z), lambda: Gamma.get_gamma_incomplete(a, z),
                float(sp.gammaincc(a, z) * sp.gamma(a)), 1e-6)
            for mu in (0.5, 3.0):
                cmp("get_pls(%g,%g,%g)" % (mu, a, z), lambda: Gamma.get_pls(mu, a, z), (mu / (mu + z)) ** a, 1e-10)
                cmp("get_f_corrective(%g,%g,[1],%g)" % (mu, a, z), lambda: Gamma.get_f_corrective(mu, a, [1.0], z),
                    gamma_law(mu, a).pdf(z), 1e-8)
                cmp("get_f_corrective(%g,%g,[.3,-.2,.05],%g)" % (mu, a, z),
                    lambda: Gamma.get_f_corrective(mu, a, [0.3, -0.2, 0.05], z),
                    gamma_law(mu, a).pdf(z) * (0.3 - 0.2 * z + 0.05 * z * z), 1e-8)
    # corrected laws reproduce the moments they were fitted to
    for m in (0.5, 1.0, 3.0):
        for a in (0.6, 1.5, 3.2):
            for bump in (1.0, 1.08, 0.95):
                b = [gamma_law(a / m, a).moment(k) for k in (1, 2, 3, 4)]
                b[2] *= bump
                b[3] *= bump ** 1.5
                try:
                    mu, al, g = Gamma.get_params(b)
                    for k in range(0, 5):
                        acc.add("evaluations")
                        tot = sum(g[j] * gamma_law(mu, al).moment(k + j) if k + j else g[j] for j in range(len(g)))
                        exp = b[k - 1] if k else 1.0
                        if not close(tot, exp, 1e-6, 1e-9):
                            acc.violation("gamma-corrective", "Gamma.get_params(%s): corrected density has moment %d %s, must be %s" % (
                                b, k, tot, exp), {"special": 1})
                except Exception as e:
                    acc.violation("gamma-corrective", "Gamma.get_params(%s) raises %s: %s" % (b, type(e).__name__, e), {"special": 1})
    for k in (0.8, 1.2, 2.0):
        for T in (0.5, 2.0):
            for bump in (1.0, 1.05):
                t = [weibull(k, T).moment(j) for j in (1, 2, 3)]
                t[2] *= bump
                try:
                    p = Weibull.get_params(t, num=5)
                    for j in range(3):
                        acc.add("evaluations")
                        val, _ = integrate.quad(lambda x: (j + 1) * x ** j * Weibull.get_tail_one_value(p, x), 0, 60 * T ** (1 / k) + 20, limit=400)
                        if not close(val, t[j], 1e-5, 0):
                            acc.violation("weibull-corrective", "Weibull.get_params(%s, 5): corrected law has moment %d %s, must be %s" % (
                                t, j + 1, val, t[j]), {"special": 1})
                except Exception as e:
                    acc.violation("weibull-corrective", "Weibull.get_params(%s, 5) raises %s: %s" % (t, type(e).__name__, e), {"special": 1})
    return acc


def work(i):
    if i == "import":
        acc = Acc()
        weibull_import(acc)
        return acc
    return special(None) if i is None else one(CASES[i])


CASES = None


def main(thorough):
    global CASES
    t0 = time.time()
    seam.prepare_imports()
    CASES = cases()
    with seam.quiet():
        acc = pmap(work, ["import", None] + list(range(len(CASES))), chunksize=4)
    cov = {"states": acc.n["states"], "transitions": acc.n["transitions"],
           "traces_validated_against_impl": acc.n["laws"], "laws": len(CASES), "evaluations": acc.n["evaluations"],
           "samples": acc.samples, "exhaustive": True}
    return finish("C15", "model_checking", acc, t0, cov,
                  ["phase-type laws are decided on their explicit absorbing chains, the remaining laws on their closed forms",
                   "the value of a density exactly on the edge of its support is a convention and not compared"])


def replay(rep):
    global CASES
    seam.prepare_imports()
    CASES = cases()
    if "import" in rep:
        acc = work("import")
    elif "special" in rep:
        acc = special(None)
    else:
        acc = Acc()
        for c in CASES:
            if c[0] == rep["name"] and list(c[1]) == rep["p"]:
                acc.merge(one(c))
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
