"""C22: M/M/1 with exponential patience against its exact (truncated) chain."""
import math

from ..ctmc import Graph, levels
from . import thcommon as th


def one(acc, cfg):
    l, mu, gam = cfg
    from most_queue.theory import impatience_calc as I
    c = th.Cmp(acc, cfg, "")
    c.limit = 3
    # truncation: the mass above is far below the comparison tolerance
    top, lg = 1, 0.0
    while True:
        lg += math.log(l / (mu + (top - 1) * gam))
        if l < mu + top * gam and lg < -42:
            break
        top += 1
    # ... the same for the largest term seen so far is implied: terms fall from here on
    top += 20
    g = Graph([0], lambda j: ([(l, j + 1)] if j < top else []) + ([(mu + (j - 1) * gam, j - 1)] if j else []))
    p = levels(g.stationary(), g, lambda s: s, top)
    th.explored(acc, g)
    N = sum(j * x for j, x in enumerate(p))
    Q = sum((j - 1) * x for j, x in enumerate(p) if j)
    x = c.call("get_p0", lambda: I.get_p0(l, mu, gam))
    if x is not None:
        c.num("get_p0", x, p[0], 1e-7, 1e-14)
    got = c.call("get_p", lambda: I.get_p(l, mu, gam))
    if c.seq("get_p", got, p, 1e-7, 1e-10) and abs(sum(got) - 1) > 1e-7:
        c.fail("get_p-sum", "the probabilities sum to %s" % sum(got))
    for name, exp in (("get_N", N), ("get_Q", Q), ("get_w1", Q / l), ("get_v1", N / l)):
        x = c.call(name, lambda: getattr(I, name)(l, mu, gam))
        if x is not None:
            c.num(name, x, exp, 1e-6, 1e-8)
    c.done({"lambda": l, "mu": mu, "gamma": gam, "states": g.n, "N": N})


def main(thorough):
    grid = []
    for mu in ((1.0, 0.05, 20.0) if not thorough else (1.0, 0.3, 0.05, 0.002, 4.0, 20.0, 500.0)):
        for gr in ((0.01, 0.1, 0.25, 1.0, 4.0) if not thorough else (0.005, 0.01, 0.05, 0.1, 0.2, 0.25, 0.5, 1.0, 2.0, 4.0, 20.0)):
            for lr in (0.1, 0.5, 0.9, 1.0, 1.25, 1.5, 2.0, 5.0, 12.0) + ((30.0, 0.01, 1.1, 1.2, 3.0) if thorough else ()):
                grid.append((lr * mu, mu, gr * mu))
    # patience of thousands of service times under overload: the empty system has less than the smallest double
    grid += [(2.0, 1.0, 0.0004), (2.0, 0.1, 0.001), (900.0, 1.0, 1.0), (2500.0, 3.0, 1.0)]
    return th.run("C22", one, grid, thorough, ["chain truncated where the remaining mass is below 1e-15"], chunksize=4)


def replay(rep):
    return th.replay_one(one, rep)
