"""C26: M/D/n and Ek/D/n against the exact chain embedded over one service time.

Between t and t+b every job in service at t leaves, no other does, so the micro-state
(jobs, arrival stages passed) moves x = j*k+i -> max(j-n,0)*k + i + Poisson(l*b): a Markov
chain whose invariant measure is the stationary law of the queue."""
import math

import numpy as np

from . import thcommon as th


def exact(k, n, rho, top):
    """Stationary law of the micro-states 0..top*k-1; services of length one."""
    m = rho * n * k                               # Poisson stages during one service
    N = top * k
    pois = [math.exp(-m + i * math.log(m) - math.lgamma(i + 1)) for i in range(N)]
    P = np.zeros((N, N))
    edges = 0
    for x in range(N):
        j, i = divmod(x, k)
        y = max(j - n, 0) * k + i
        P[x, y:] = pois[:N - y]
        P[x, N - 1] += max(0.0, 1.0 - P[x].sum())
        edges += N - y
    # state reduction (no subtractions): relative accuracy even for tiny probabilities
    A = P.copy()
    for s in range(N - 1, 0, -1):
        out = A[s, :s].sum()
        A[:s, s] /= out
        A[:s, :s] += np.outer(A[:s, s], A[s, :s])
    pi = np.zeros(N)
    pi[0] = 1.0
    for s in range(1, N):
        pi[s] = pi[:s] @ A[:s, s]
    pi /= pi.sum()
    return pi, N, edges


def one(acc, cfg):
    from most_queue.theory.ek_d_n_calc import Ek_D_n
    from most_queue.theory.m_d_n_calc import M_D_n
    k, n, rho = cfg
    top = 40 + 6 * n
    while True:
        pi, N, edges = exact(k, n, rho, top)
        if pi[-k:].sum() * top < 1e-9 or N > 900:
            break
        top = int(top * 1.5)
    acc.add("states", N)
    acc.add("transitions", edges)
    p = [pi[j * k:(j + 1) * k].sum() for j in range(top)]
    for b in (1.0, 0.01, 25.0):
        c = th.Cmp(acc, (k, n, rho), "Ek/D/n-")
        lam = rho * n * k / b
        e = Ek_D_n(lam, k, b, n)
        c.seq("p", c.call("calc_p", e.calc_p), p[:max(60, 40 + n)], 1e-5, 2e-7, pad=False)
        e = Ek_D_n(lam, k, b, n, p_num=60)
        c.seq("p-num", c.call("calc_p-num", e.calc_p), p[:40], 1e-5, 2e-7)
        c.done()
        if k == 1:
            c = th.Cmp(acc, (k, n, rho), "M/D/n-")
            e = M_D_n(lam, b, n)
            c.seq("p", c.call("calc_p", e.calc_p), p[:max(60, 40 + n)], 1e-5, 2e-7, pad=False)
            e = M_D_n(lam, b, n, p_num=40)
            c.seq("p-num", c.call("calc_p-num", e.calc_p), p[:40], 1e-5, 2e-7, pad=False)
            c.done({"k": k, "n": n, "rho": rho, "p0": p[0]})


def main(thorough):
    rhos = (0.1, 0.3, 0.5, 0.7, 0.8, 0.9) if not thorough else (0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95)
    grid = [(k, n, rho) for k in ((1, 2, 3, 4) if not thorough else (1, 2, 3, 4, 5, 6))
            for n in ((1, 2, 3, 4, 5) if not thorough else (1, 2, 3, 4, 5, 6, 7, 8))
            if k * n <= 24 for rho in rhos]
    grid += [(k, n, rho) for k, n in ((1, 8), (1, 12), (2, 7), (6, 3), (9, 2), (12, 1)) for rho in (0.3, 0.6, 0.85)]
    # many channels, many phases
    grid += [(k, n, rho) for k, n in ((1, 30), (1, 60), (3, 12), (5, 10), (24, 2)) for rho in (0.35, 0.8)]
    return th.run("C26", one, grid, thorough, ["probabilities below 2e-7 are compared absolutely"])


def replay(rep):
    return th.replay_one(one, rep)
