"""C20: M/M/n/r against its exact finite chain."""
import math

from ..ctmc import Absorb, Graph, conv_moments, levels
from . import thcommon as th


def one(acc, cfg):
    lam, mu, n, r = cfg
    from most_queue.theory.mmnr_calc import MMnr_calc as M
    c = th.Cmp(acc, cfg, "")
    c.limit = 10
    g = Graph([0], lambda j: ([(lam, j + 1)] if j < n + r else []) + ([(min(j, n) * mu, j - 1)] if j else []))
    pi = g.stationary()
    p = levels(pi, g, lambda s: s, n + r)
    # the tagged job: number of departures it has to wait for
    a = Absorb([None] + list(range(1, r + 1)), lambda k: [(n * mu, k - 1 if k > 1 else None)])
    acc_p = 1 - p[n + r]
    start = {None: sum(p[:n]) / acc_p if r else 1.0}
    for j in range(n, n + r):
        start[j - n + 1] = p[j] / acc_p
    w = a.moments(start)
    sv = Absorb([0], lambda s: [(mu, None)])
    b = sv.moments({0: 1.0})
    th.explored(acc, g, a, sv)
    c.seq("get_p", c.call("get_p", lambda: M.get_p(lam, mu, n, r)), p, 1e-9, 1e-12, pad=False)
    for num in (3, 2):
        c.seq("get_w", c.call("get_w", lambda: M.get_w(lam, mu, n, r, num)), w[:num], 1e-8, 1e-12, pad=False)
    c.seq("get_v", c.call("get_v", lambda: M.get_v(lam, mu, n, r)), conv_moments(w, b), 1e-8, 1e-12, pad=False)
    q = sum((j - n) * p[j] for j in range(n, n + r + 1))
    x = c.call("getQ", lambda: M.getQ(lam, mu, n, r))
    if x is not None:
        c.num("getQ", x, q, 1e-9, 1e-12)
    fact = lambda k: [math.perm(j - n, k) * p[j] for j in range(n, n + r + 1)]
    for num in (3, 1, 5):
        c.seq("get_qs", c.call("get_qs", lambda: M.get_qs(lam, mu, n, r, num)), [sum(fact(k)) for k in range(1, num + 1)],
              1e-9, 1e-12, pad=False)
    x = c.call("getPI", lambda: M.getPI(lam, mu, n, r))
    if x is not None:
        c.num("getPI", x, p[n + r], 1e-9, 1e-12)
    c.done({"lam": lam, "mu": mu, "n": n, "r": r, "p0": p[0], "loss": p[-1], "w1": w[0]})


def main(thorough):
    mus = (1.0, 0.013, 40.0) if not thorough else (1.0, 0.5, 0.013, 2.7, 40.0, 1e4)
    loads = (0.05, 0.3, 0.7, 0.95, 1.0, 1.05, 1.7, 3.0) if not thorough else [0.05 * k for k in range(1, 61)]
    grid = [(load * n * mu, mu, n, r) for n in range(1, 6 if not thorough else 9) for r in range(0, 9 if not thorough else 21)
            for mu in mus for load in loads]
    grid += [(load * n * 1.7, 1.7, n, r) for n, r in ((7, 12), (10, 3), (12, 40), (1, 60), (20, 0), (25, 25)) for load in loads]
    # many channels, long queues
    grid += [(load * n * 1.7, 1.7, n, r) for n, r in ((1, 180), (10, 310), (100, 20), (100, 80), (180, 5), (300, 0))
             for load in (0.3, 0.9, 1.0, 1.6)]
    return th.run("C20", one, grid, thorough, ["waiting and sojourn times are those of accepted jobs"], chunksize=32)


def replay(rep):
    return th.replay_one(one, rep)
