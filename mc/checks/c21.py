"""C21: Engset model (finite sources, one channel) against its exact chain."""
from ..ctmc import Absorb, Graph, conv_moments, levels
from . import thcommon as th


def one(acc, cfg):
    lam, mu, m = cfg
    from most_queue.theory.engset_model import Engset
    c = th.Cmp(acc, cfg, "")
    c.limit = 10
    g = Graph([0], lambda j: ([((m - j) * lam, j + 1)] if j < m else []) + ([(mu, j - 1)] if j else []))
    p = levels(g.stationary(), g, lambda s: s, m)
    N = sum(j * x for j, x in enumerate(p))
    Q = sum((j - 1) * x for j, x in enumerate(p) if j)
    lamd = lam * (m - N)
    a = Absorb([None] + list(range(1, m)), lambda k: [(mu, k - 1 if k > 1 else None)])
    start = {(j if j else None): (m - j) * p[j] / (m - N) for j in range(m)}
    w = a.moments(start)
    v = conv_moments(w, Absorb([0], lambda s: [(mu, None)]).moments({0: 1.0}))
    th.explored(acc, g, a)
    e = c.call("Engset", lambda: Engset(lam, mu, m))
    if e is None:
        return
    c.seq("get_p", c.call("get_p", e.get_p), p, 1e-9, 1e-13, pad=False)
    for name, exp in (("get_N", N), ("get_Q", Q), ("get_kg", (m - N) / m), ("get_lamD", lamd),
                      ("get_w1", w[0]), ("get_v1", v[0])):
        got = c.call(name, getattr(e, name))
        if got is not None:
            c.num(name, got, exp, 1e-7, 1e-9)
    for name, exp, t in (("get_w", w, 1e-4), ("get_v", v, 1e-4)):
        c.seq(name, c.call(name, getattr(e, name)), exp, t, 1e-6 / mu, pad=False)
    # transform of the waiting time: k stages to be waited for, each of rate mu
    for s in (0.0, 0.3 * mu, 2.5 * mu):
        got = c.call("ws", lambda: e.ws(s, e.get_p()[0], e.get_N()))
        if got is not None:
            c.num("ws", got, sum(x * (mu / (mu + s)) ** (k or 0) for k, x in start.items()), 1e-7, 1e-9)
    c.done({"lam": lam, "mu": mu, "m": m, "w": w})


def main(thorough):
    rhos = (0.02, 0.1, 0.5, 1.0, 1.2, 4.0, 20.0)
    mus = (1.0, 0.02, 50.0)
    if thorough:
        rhos = [0.01 * 1.3 ** k for k in range(30)]
        mus = (1.0, 1e-4, 0.02, 3.3, 50.0, 1e5)
    grid = [(r * mu, mu, m) for m in range(1, 11 if not thorough else 25) for r in rhos for mu in mus]
    grid += [(r * 1.7, 1.7, m) for m in (15, 30, 60) for r in (0.02, 0.1, 0.5, 1.0, 4.0)]
    grid += [(r * 1.7, 1.7, m) for m in (150, 180, 300) for r in (0.0005, 0.004, 0.02, 0.5)]
    return th.run("C21", one, grid, thorough, ["time units from 1e-4 to 1e5"], chunksize=16)


def replay(rep):
    return th.replay_one(one, rep)
