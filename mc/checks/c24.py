"""C24: M/G/1 moments and state probabilities against the exact queue.

Phase-type service: the continuous-time chain of the queue and of a tagged job is explored.
Other service laws: the chain embedded at departures, solved cut by cut; sojourn moments from
its factorial moments (arrivals during a sojourn time are the jobs left behind)."""
import math

import numpy as np
from scipy import integrate

from .. import queues as qq
from . import thcommon as th
from .c15 import gamma_law, pareto, uniform


def ph_of(law):
    k = law[0]
    return {"M": lambda: qq.expo(law[1]), "E": lambda: qq.erlang(law[1], law[2]),
            "H": lambda: qq.h2(*law[1:]), "C": lambda: qq.cox(*law[1:])}[k]()


def top_for(rho, cv2):
    """Truncation level: geometric decay bounded by the heavy-traffic rate."""
    x = math.log(1e-17) / math.log(1 - 2 * (1 - rho) / (1 + rho * max(1.0, cv2)) * 0.5)
    return int(min(6000, max(60, x)))


def poisson_mix(l, dens_nodes, num):
    """q_j = sum_i w_i Poisson(j; l t_i)."""
    t, w = dens_nodes
    lt = l * np.asarray(t)
    logp = -lt
    out = []
    for j in range(num):
        out.append(float(np.dot(w, np.exp(logp))))
        logp = logp + np.log(lt) - math.log(j + 1)
    return out


def nodes(law):
    """Quadrature nodes of the service law (composite Gauss-Legendre, near machine accuracy)."""
    x, w = np.polynomial.legendre.leggauss(40)
    if law[0] == "U":
        m, h = law[1:]
        return m + h * x, w / 2
    if law[0] == "D":
        return np.array([law[1]]), np.array([1.0])
    T, W = [], []
    if law[0] == "P":
        a, k = law[1:]
        for c in range(0, 400):              # t = k * exp(y), density a exp(-a y) dy
            lo, hi = 0.25 * c, 0.25 * (c + 1)
            y = lo + (hi - lo) * (x + 1) / 2
            ww = w * (hi - lo) / 2 * a * np.exp(-a * y)
            T.append(k * np.exp(y))
            W.append(ww)
            if a * hi > 40:
                break
    else:                                    # gamma, t = exp(y)/mu
        mu, a = law[1:]
        lo = math.log(1e-18) / a - 1
        hi = math.log(60 + 3 * a)
        cells = np.arange(lo, hi + 0.25, 0.25)
        for c in cells:
            y = c + 0.25 * (x + 1) / 2
            T.append(np.exp(y) / mu)
            W.append(w * 0.125 * np.exp(a * y - np.exp(y) - math.lgamma(a)))
    return np.concatenate(T), np.concatenate(W)


def one(acc, cfg):
    from most_queue.theory import mg1_calc as M
    rho, law = cfg
    c = th.Cmp(acc, cfg, law[0] + "-")
    c.limit = 10
    kind = law[0]
    if kind in "MEHC":
        ph = ph_of(law)
        b = ph.moments(4)
        l = rho / b[0]
        q = qq.fifo(qq.expo(l), ph, 1, 80)
        th.explored(acc, *q.graphs)
        p, w, v = q.p, q.w, q.v
    else:
        ref = {"D": lambda: None, "U": lambda: uniform(*law[1:]), "P": lambda: pareto(*law[1:]), "G": lambda: gamma_law(*law[1:])}[kind]()
        b = [law[1] ** k for k in (1, 2, 3, 4)] if kind == "D" else [ref.moment(k) for k in (1, 2, 3, 4)]
        l = rho / b[0]
        num = top_for(rho, b[1] / b[0] ** 2 - 1) if kind != "P" else 261
        qj = poisson_mix(l, nodes(law), num + 2)
        p = qq.skip_free_mg1(l, qj, rho, num, kind == "P")
        acc.add("states", num)
        acc.add("transitions", num * (num + 1) // 2)
        v = w = None
        if kind != "P":
            fm = [sum(math.perm(i, k) * x for i, x in enumerate(p)) / l ** k for k in (1, 2, 3)]
            v = fm
            w = [v[0] - b[0]]
            w.append(v[1] - 2 * w[0] * b[0] - b[1])
            w.append(v[2] - 3 * w[1] * b[0] - 3 * w[0] * b[1] - b[2])
    if w is not None:
        t = 1e-6
        if kind not in "MEHC":
            # the oracle subtracts service from sojourn: compare relative to the service time
            def wseq(key, got, exp):
                c.seq(key, None if got is None else [x / b[k] for k, x in enumerate(got)],
                      [x / b[k] for k, x in enumerate(exp)], 1e-6, 5e-6, pad=False)
        else:
            def wseq(key, got, exp):
                c.seq(key, got, exp, t, 1e-9 * b[0], pad=False)
        for num in (3, 2, 1):
            bb = b[:num + 1]
            wseq("get_w(num=%d)" % num, c.call("get_w", lambda: M.get_w(l, bb, num)), w[:num])
            c.seq("get_v(num=%d)" % num, c.call("get_v", lambda: M.get_v(l, b, num)), v[:num], t, 1e-9 * b[0], pad=False)
            # a law known by its first moments only: as many moments as they allow
            if num > 1:
                c.seq("get_v(%d moments of service)" % num, c.call("get_v", lambda: M.get_v(l, b[:num])), v[:num - 1], t, 1e-9 * b[0], pad=False)
        wseq("get_w", c.call("get_w", lambda: M.get_w(l, b)), w)
    dt = {"M": "Gamma", "E": "Gamma", "G": "Gamma", "U": "Uniform", "P": "Pa"}.get(kind)
    if dt and b[1] is not None:
        for num in (100, 12, 260) if rho >= 0.9 else (100, 12):
            got = c.call("get_p", lambda: M.get_p(l, b, num, dt) if dt != "Gamma" or num != 100 else M.get_p(l, b))
            c.seq("get_p", got, (p + [0.0] * num)[:num], 1e-5, 1e-7, pad=False)
    c.done({"rho": rho, "service": law, "p0": p[0], "v": v})


def main(thorough):
    rhos = (0.1, 0.4, 0.7, 0.9) if not thorough else (0.02, 0.1, 0.25, 0.4, 0.55, 0.7, 0.8, 0.9, 0.95)
    grid = []
    for u in ((1.0, 0.02, 30.0) if not thorough else (1.0, 0.02, 30.0, 1e-4, 1e4)):     # time unit
        laws = [("M", 1 / u), ("E", 2, 1.4 / u), ("E", 3, 3 / u), ("H", 0.3, 0.5 / u, 2.0 / u), ("H", 0.9, 3.0 / u, 0.4 / u),
                ("C", 0.4, 2.0 / u, 0.7 / u), ("D", u), ("D", 0.3 * u), ("U", u, 0.5 * u), ("U", 2 * u, 2 * u), ("U", 0.4 * u, 0.1 * u),
                ("G", 1.5 / u, 1.5), ("G", 0.6 / u, 0.6), ("G", 4.3 / u, 4.3), ("P", 3.5, 0.7 * u), ("P", 2.4, 0.5 * u), ("P", 5.2, u),
                ("P", 3.0, 0.6 * u), ("P", 4.0, u)]
        if thorough:
            laws += [("E", 5, 2 / u), ("E", 9, 9 / u), ("H", 0.05, 0.1 / u, 4.0 / u), ("G", 0.25 / u, 0.25), ("G", 11 / u, 11.4),
                     ("P", 2.1, u), ("P", 8.6, u), ("U", 3 * u, 0.01 * u), ("C", 0.9, 5 / u, 0.3 / u)]
        grid += [(r, law) for r in rhos for law in laws]
    return th.run("C24", one, grid, thorough, ["chains truncated where the remaining mass is below 1e-9"], chunksize=2)


def replay(rep):
    return th.replay_one(one, rep)
