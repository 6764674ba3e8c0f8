"""C25: GI/M/1 and GI/M/n against the exact queue.

Erlang arrivals: continuous-time chain of (arrival phase, jobs).  Gamma and Pareto arrivals:
the chain embedded at arrivals; its kernel is the uniformised death process averaged over the
interarrival time."""
import math

import numpy as np

from .. import queues as qq
from ..ctmc import Absorb, conv_moments
from . import thcommon as th
from .c15 import gamma_law, pareto
from .c24 import nodes, poisson_mix


def corrected(alpha, e3, e4, x):
    """Correction of the gamma density that keeps its first two moments (Laguerre polynomials)."""
    L3 = ((alpha + 2) * (alpha + 1) * alpha / 6 - (alpha + 2) * (alpha + 1) / 2 * x + (alpha + 2) / 2 * x ** 2 - x ** 3 / 6)
    L4 = ((alpha + 3) * (alpha + 2) * (alpha + 1) * alpha / 24 - (alpha + 3) * (alpha + 2) * (alpha + 1) / 6 * x
          + (alpha + 3) * (alpha + 2) / 4 * x ** 2 - (alpha + 3) / 6 * x ** 3 + x ** 4 / 24)
    return 1 + e3 * L3 + e4 * L4


def points(law):
    if law[0] != "Q":
        return nodes(law)
    mu, alpha, e3, e4 = law[1:]
    t, w = nodes(("G", mu, alpha))
    f = corrected(alpha, e3, e4, mu * t)
    assert f.min() >= 0, law                      # a density
    return t, w * f


def embedded(law, mean, mu, n, top):
    """pi (as seen by arrivals) for GI/M/n."""
    rate = n * mu
    M = 40 + 3 * top
    if law[0] == "P":
        M = max(M, 400)
    beta = poisson_mix(rate, points(law), M)
    rest = max(0.0, 1.0 - sum(beta))
    # death chain on 0..top, uniformised with rate n*mu
    d = np.array([min(k, n) / n for k in range(top + 1)])
    K = np.zeros((top + 1, top + 1))
    X = np.eye(top + 1)
    for b in beta:
        K += b * X
        Y = X * (1 - d)                           # one step of the chain: stay, or one job less
        Y[:, :-1] += (X * d)[:, 1:]
        X = Y
    K[:, 0] += rest
    P = np.zeros((top, top))                      # arrival finds k -> next arrival finds j
    for k in range(top):
        P[k] = K[min(k + 1, top - 1), :top]
    A = (P.T - np.eye(top))
    A[-1] = 1.0
    e = np.zeros(top)
    e[-1] = 1.0
    return np.linalg.solve(A, e), top * 2


def one(acc, cfg):
    rho, mus, n, law = cfg
    ref = exact(acc, rho, n, law)                 # with services of mean one; times scale with 1/mu
    for mu in mus if isinstance(mus, tuple) else (mus,):
        compare(acc, (rho, mu, n, law), ref)


def exact(acc, rho, n, law):
    mu = 1.0
    mean = 1 / (rho * n)
    if law[0] == "E":
        arr = qq.erlang(law[1], law[1] / mean)
        q = qq.fifo(arr, qq.expo(mu), n, 80)
        th.explored(acc, *q.graphs)
        pi, p, w, v = q.at_arrival, q.p, q.w, q.v
        a = arr.moments(4)
        approx = "Gamma"
    else:
        if law[0] == "Q":
            lw = ("Q", law[1] / mean) + law[1:]
            t, x = points(lw)
            ref = None
            a = [float(np.dot(x, t ** k)) for k in (1, 2, 3, 4)]
            approx = "Gamma"
        elif law[0] == "G":
            lw = ("G", law[1] / mean, law[1])
            ref = gamma_law(*lw[1:])
            approx = "Gamma"
        else:
            lw = ("P", law[1], mean * (law[1] - 1) / law[1])
            ref = pareto(*lw[1:])
            approx = "Pa"
        a = a if ref is None else [ref.moment(k) for k in (1, 2, 3, 4)]
        if approx == "Pa":
            a = [x if x is not None else 1e3 * mean ** (k + 1) for k, x in enumerate(a)]
        top = 60
        while True:
            pi, edges = embedded(lw, mean, mu, n, top)
            if pi[-1] * top ** 3 < 1e-8 or top > 500:
                break
            top *= 2
        pi = list(pi)
        acc.add("states", top)
        acc.add("transitions", top * (top + 1) // 2)
        p = [0.0] + [pi[j - 1] / (mean * min(j, n) * mu) for j in range(1, top)]
        p[0] = 1 - sum(p)
        ab = Absorb([None] + list(range(1, top - n + 1)), lambda k: [(n * mu, k - 1 if k > 1 else None)])
        start = {None: sum(pi[:n])}
        for j in range(n, top):
            start[j - n + 1] = pi[j]
        w = ab.moments(start)
        th.explored(acc, ab)
        v = conv_moments(w, qq.expo(mu).moments(3))
    return pi, p, w, v, a, approx


def compare(acc, cfg, ref):
    from most_queue.theory import gi_m_1_calc as G1, gi_m_n_calc as Gn
    rho, mu, n, law = cfg
    pi, p, w, v, a, approx = ref
    w, v, a = ([x / mu ** (k + 1) for k, x in enumerate(y)] for y in (w, v, a))
    c = th.Cmp(acc, cfg, "%s-" % law[0])
    c.limit = 20
    if n >= 20:
        c.key = "GI/M/n-many-channels-n=%d,rho=%s,arrivals=%s%s" % ((n, rho) + law)
    mods = [("n", lambda f: (lambda **k: getattr(Gn, f)(a, mu, n, approx_distr=approx, **k)))]
    if n == 1:
        mods.append(("1", lambda f: (lambda **k: getattr(G1, f)(a, mu, approx_distr=approx, **k))))
    pad = lambda x, m: (list(x) + [0.0] * m)[:m]
    for nm, get in mods:
        t = 1e-5
        c.seq(nm + "-get_pi", c.call(nm + "-get_pi", get("get_pi")), pad(pi, 100), t, 1e-7, pad=False)
        c.seq(nm + "-get_p", c.call(nm + "-get_p", get("get_p")), pad(p, 100), t, 2e-6, pad=False)
        c.seq(nm + "-get_w", c.call(nm + "-get_w", get("get_w")), w, 1e-4, 1e-6 / mu, pad=False)
        c.seq(nm + "-get_v", c.call(nm + "-get_v", get("get_v")), v, 1e-4, 1e-6 / mu, pad=False)
        c.seq(nm + "-get_p-num", c.call(nm + "-get_p-num", lambda: get("get_p")(num=20)), pad(p, 20), t, 2e-6, pad=False)
        for num in (1, 2) if nm == "1" else ():       # (in gi_m_n_calc num is the number of probabilities)
            for fn, exp in (("get_w", w), ("get_v", v)):
                got = c.call(nm + "-" + fn, lambda: get(fn)(num=num))
                if c.seq("%s-%s(num=%d)" % (nm, fn, num), got, exp[:num], 1e-4, 1e-6 / mu, pad=False) and len(got) != num:
                    c.fail("%s-%s-length" % (nm, fn), "%d moments asked for, %d returned" % (num, len(got)))
        wp = c.call(nm + "-get_w_param", get("get_w_param"))
        if wp is not None and pi[n + 3] > 1e-9:
            c.num(nm + "-get_w_param", wp, pi[n + 3] / pi[n + 2], 1e-5, 1e-7)
    c.done({"rho": rho, "mu": mu, "n": n, "arrivals": law, "pi0": pi[0], "w1": w[0]})


QS = [("Q", 1.5, -0.2, 0.02), ("Q", 3.0, -0.05, 0.02), ("Q", 0.8, 0.02, 0.03), ("Q", 2.2, -0.1, 0.03), ("Q", 5.0, -0.02, 0.005)]


def main(thorough):
    laws = [("E", 1), ("E", 2), ("E", 4), ("G", 0.6), ("G", 1.7), ("G", 5.5), ("P", 2.5), ("P", 3.0), ("P", 3.7), ("P", 6.2)]
    if thorough:
        laws += [("E", 3), ("E", 7), ("G", 0.3), ("G", 0.95), ("G", 9.1), ("P", 2.1), ("P", 4.0), ("P", 9.0), ("P", 2.83)]
    laws += QS if thorough else QS[:3]
    rhos = (0.2, 0.5, 0.8) if not thorough else (0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9)
    mus = (1.0, 0.02, 30.0) if not thorough else (1.0, 0.3, 0.02, 30.0, 1e3)
    grid = [(rho, mus, n, law) for law in laws for n in ((1, 2, 3, 4) if not thorough else (1, 2, 3, 4, 5, 6))
            for rho in rhos]
    grid += [(rho, (1.0, 30.0), n, law) for n in (5, 6) for law in laws[:9] for rho in (0.4, 0.75)]
    grid += [(0.6, (1.0, 30.0), 8, law) for law in (("E", 2), ("G", 1.7), ("P", 2.5), ("P", 3.7))]
    # many channels
    grid += [(0.7, (1.0,), n, ("E", 1)) for n in (12, 30)]
    # next to deterministic arrivals
    grid += [(rho, (1.0, 30.0), n, ("G", a)) for a in (120.0, 210.0, 1250.5) for n in (1, 3) for rho in (0.4, 0.8)]
    # n * (1 - w) close to, or at, a whole number (w is the load if arrivals are Poisson)
    grid += [((1 - j / n) * (1 + s * 10.0 ** -d), (1.0,), n, ("E", 1)) for n, j in ((2, 1), (3, 1), (4, 3), (5, 2)) if n < 5 or thorough
             for d in range(3, 14, 1 if thorough else 2) for s in (1, -1)]
    return th.run("C25", one, grid, thorough, ["arrival laws: gamma (four moments given) and Pareto, the two families the module fits"], chunksize=2)


def replay(rep):
    return th.replay_one(one, rep)
