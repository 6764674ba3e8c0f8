"""C23: batch-arrival M/M/1 against its exact (truncated) chain."""
import itertools

import numpy as np

from ..ctmc import Graph, levels
from . import thcommon as th


def one(acc, cfg):
    rho, mu, ls = cfg
    from most_queue.theory.batch_mm1 import BatchMM1
    c = th.Cmp(acc, cfg, "")
    c.limit = 10
    eb = sum((i + 1) * x for i, x in enumerate(ls))
    lam = rho * mu / eb
    # truncation level from the decay rate of the exact chain (bisection for the root of
    # lam*(X(1/z)...) : tail factor z solves lam(X(y)-1) = mu(1-1/y), y = 1/z > 1)
    f = lambda y: lam * (sum(x * y ** (i + 1) for i, x in enumerate(ls)) - 1) - mu * (1 - 1 / y)
    hi = 1.0
    step = 1e-3
    while f(hi + step) < 0:
        hi += step
        step *= 1.5
    lo = hi
    hi = hi + step
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if f(mid) < 0 else (lo, mid)
    top = int(min(20000, 36 / np.log(lo))) + 10
    g = Graph([0], lambda j: [(lam * x, min(j + i + 1, top)) for i, x in enumerate(ls) if x and j < top] +
              ([(mu, j - 1)] if j else []))
    p = levels(g.stationary(), g, lambda s: s, top)
    th.explored(acc, g)
    N = sum(j * x for j, x in enumerate(p))
    Q = sum((j - 1) * x for j, x in enumerate(p) if j)
    b = c.call("BatchMM1", lambda: BatchMM1(lam, mu, list(ls)))
    if b is None:
        return
    got = c.call("get_p", b.get_p)
    if c.seq("get_p", got, p, 1e-6, 1e-10) and abs(sum(got) - 1) > 1e-6:
        c.fail("get_p-sum", "the probabilities sum to %s" % sum(got))
    al = lam * eb
    for name, exp in (("get_N", N), ("get_Q", Q), ("get_w1", Q / al), ("get_v1", N / al), ("calc_l", eb)):
        x = c.call(name, getattr(b, name))
        if x is not None:
            c.num(name, x, exp, 1e-6, 1e-9)
    m = c.call("calc_l_moments", b.calc_l_moments)
    c.seq("calc_l_moments", m, [eb, sum((i + 1) ** 2 * x for i, x in enumerate(ls))], 1e-10, 1e-12)
    c.done({"rho": rho, "mu": mu, "batch": ls, "states": g.n, "N": N})


def main(thorough):
    q = 4 if not thorough else 6
    laws = []
    for size in range(1, 5 if not thorough else 6):
        for t in itertools.product(range(q + 1), repeat=size):
            if sum(t) == q and t[-1]:
                laws.append(tuple(x / q for x in t))
    laws += [(0.0,) * 7 + (1.0,), (0.1,) * 10, (0.5,) + (0.0,) * 10 + (0.5,), (0.0, 0.3, 0.0, 0.0, 0.7)]
    grid = [(rho, mu, ls) for ls in laws for rho in (0.1, 0.4, 0.7, 0.9) for mu in (1.0, 0.03, 25.0)]
    return th.run("C23", one, grid, thorough, ["all batch laws on the lattice of quarters (sixths) over up to 4 (5) sizes"], chunksize=8)


def replay(rep):
    return th.replay_one(one, rep)
