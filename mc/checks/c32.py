"""C32: first passages between tiers of a level-structured chain.  The chain is explored tier by tier
above the lower tier; passage probabilities and partial moments come from the explored states."""
import itertools

import numpy as np
import scipy.sparse.linalg as spl

from .. import queues as qq
from ..ctmc import Graph
from . import thcommon as th


def cox_levels(n, l, p, m1, m2):
    """M/Cox/n: level = jobs (in service below n), state = jobs in the second phase; line above n."""
    A, B, C = [], [], []
    for k in range(n + 2):
        s = min(k, n)
        rows = s + 1
        a = np.zeros((rows, (s + 2) if k < n else rows))
        b = np.zeros((rows, 1 if k == 0 else (s if k <= n else rows)))
        c = np.zeros((rows, rows))
        for j in range(rows):                       # j jobs in phase two, s - j in phase one
            a[j, j] = l
            if j < s:
                c[j, j + 1] = (s - j) * m1 * p
            if k > n:                               # the place is taken by a job in phase one
                b[j, j] += (s - j) * m1 * (1 - p)
                if j:
                    b[j, j - 1] += j * m2
            elif k:
                if s - j > 0:
                    b[j, j] += (s - j) * m1 * (1 - p)
                if j:
                    b[j, j - 1] += j * m2
        A.append(a)
        B.append(b)
        C.append(c)
    return A, B, C


def two_class(l, mu, n):
    """Level = jobs of both classes up to n in service, state = jobs of class two; a new job that has
    to wait is of class one or two with the same odds as the arrivals."""
    A, B, C = [], [], []
    q = l[1] / sum(l)
    for k in range(n + 2):
        s = min(k, n)
        rows = s + 1
        a = np.zeros((rows, rows + 1 if k < n else rows))
        b = np.zeros((rows, 1 if k == 0 else (s if k <= n else rows)))
        for j in range(rows):
            if k < n:
                a[j, j] += l[0]
                a[j, j + 1] += l[1]
            else:
                a[j, j] = sum(l)
            if k > n:
                if s - j:
                    b[j, j] += (s - j) * mu[0] * (1 - q)
                    b[j, j + 1] += (s - j) * mu[0] * q
                if j:
                    b[j, j - 1] += j * mu[1] * (1 - q)
                    b[j, j] += j * mu[1] * q
            elif k:
                if s - j:
                    b[j, j] += (s - j) * mu[0]
                if j:
                    b[j, j - 1] += j * mu[1]
        A.append(a)
        B.append(b)
        C.append(np.zeros((rows, rows)))
    return A, B, C


def small(bits, up, down):
    """Two states per tier; which moves exist is given by bits (stay, up, down: 2x2 each)."""
    c01, c10, a01, a10, b01, b10 = bits
    c = np.array([[0, 0.7 * c01], [0.4 * c10, 0]])
    a = np.array([[up, 0.2 * a01], [0.3 * a10, up]])
    b = np.array([[down, 0.5 * b01], [0.9 * b10, down * 1.3]])
    return [a, a, a], [b, b, b], [c, c, c]


def h2_single(l, y, m1, m2):
    A = [np.array([[l * y, l * (1 - y)]]), np.eye(2) * l, np.eye(2) * l]
    B = [np.zeros((1, 1)), np.array([[m1], [m2]]), np.array([[m1 * y, m1 * (1 - y)], [m2 * y, m2 * (1 - y)]])]
    C = [np.zeros((1, 1)), np.zeros((2, 2)), np.zeros((2, 2))]
    return A, B, C


def birth(l, mu, n):
    A = [np.array([[l]])] * (n + 1)
    B = [np.array([[min(k, n) * mu]]) for k in range(n + 1)]
    return A, B, [np.zeros((1, 1))] * (n + 1)


def chain(fam, par):
    if fam == "cox":
        return cox_levels(*par)
    if fam == "two":
        return two_class(*par)
    if fam == "small":
        return small(*par)
    if fam == "h2":
        return h2_single(*par)
    if fam == "clx":
        from most_queue.rand_distribution import H2_dist
        from .c27 import moments
        y, m1, m2 = H2_dist.get_params_clx(moments(1.0, par[1]))
        return h2_single(par[0], y, m1, m2)
    return birth(*par)


def passage(A, B, C, lt, lo, hi, top):
    """Exact passages from every state of tier hi to tier lo: matrices of probabilities and of
    E[T^k; reached state], k = 1..3."""
    at = lambda M, k: M[min(k, lt)]

    def succ(s):
        k, i = s
        if k == lo:
            return []
        out = []
        for M, t in ((at(B, k), k - 1), (at(C, k), k), (at(A, k), k + 1)):
            if t > top:
                continue
            out += [(M[i, j], (t, j)) for j in range(M.shape[1]) if M[i, j] != 0]
        return out
    rows = at(A, hi).shape[0]
    cols = at(A, lo).shape[0]
    g = Graph([(hi, i) for i in range(rows)], succ)
    inner = [x for x, s in enumerate(g.states) if s[0] != lo]
    Q = g.Q.tocsr()[inner]
    lu = spl.splu(-Q[:, inner].tocsc())
    pos = {x: i for i, x in enumerate(inner)}
    dt = complex if np.iscomplexobj(Q.data) else float
    R = np.zeros((len(inner), cols), dtype=dt)
    for j in range(cols):
        x = g.idx.get((lo, j))
        if x is not None:
            R[:, j] = Q[:, [x]].toarray().ravel()
    out = []
    h = lu.solve(R)
    sel = [pos[g.idx[(hi, i)]] for i in range(rows)]
    out.append(h[sel])
    for k in (1, 2, 3):
        h = lu.solve(h) * k
        out.append(h[sel])
    return g, out


def one(acc, cfg):
    from most_queue.theory.utils.passage_time import passage_time_calc
    fam, par, deep = cfg
    A, B, C = chain(fam, par)
    lt = len(A) - 1
    top = lt + deep
    ref = {}
    for lo in range(0, lt + 1):
        for hi in range(lo + 1, lt + 4):
            g, ref[lo, hi] = passage(A, B, C, lt, lo, hi, top)
            th.explored(acc, g)
    for scale in (1.0, 1e-3, 1e3):
        for clx in (True,) if fam == "clx" else (True, False):
            dt = complex if clx else float
            a, b, c = ([np.array(m, dtype=dt) / scale for m in M] for M in (A, B, C))
            d = [np.diag(x.sum(axis=1) + y.sum(axis=1) + z.sum(axis=1)) for x, y, z in zip(a, c, b)]
            d[0] = np.diag(a[0].sum(axis=1) + c[0].sum(axis=1) + (b[0].sum(axis=1) if fam == "small" else 0))
            z = th.Cmp(acc, cfg, "passage-%s-" % ("complex" if clx else "real"))

            def mat(key, got, exp, k=0, rel=2e-5):
                got, exp = np.asarray(got), exp * scale ** k
                if got.shape != exp.shape:
                    z.fail(key, "%s has shape %s, must be %s" % (key, got.shape, exp.shape))
                    return
                acc.add("comparisons", got.size)
                with np.errstate(all="ignore"):
                    bad = ~(np.abs(got - exp) <= rel * np.abs(exp) + 1e-7 * np.abs(exp).max())
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    z.fail(key, "%s%s = %s, the exact chain has %s" % (key, list(map(int, i)), got[i], exp[i]))
            p = z.call("construct", lambda: passage_time_calc(a, b, c, d, is_clx=clx))
            if p is None or z.call("calc", lambda: p.calc() or 1) is None:
                continue
            for k in range(1, lt + 1):
                e = ref[k - 1, k]
                mat("G[%d]" % k, p.G[k], e[0])
                for r in range(3):
                    mat("Gr[%d][%d]" % (k, r), p.Gr[k][r], e[r + 1], r + 1)
                    with np.errstate(all="ignore"):
                        seen = np.abs(e[0]) > 1e-4       # conditional on a passage that can happen
                        cond = np.where(seen, e[r + 1] / np.where(seen, e[0], 1), 0)
                    if np.shape(p.Z[k][r]) == cond.shape:
                        mat("Z[%d][%d]" % (k, r), np.where(seen, p.Z[k][r], 0), cond, r + 1, 2e-4)
                    else:
                        z.fail("Z[%d][%d]" % (k, r), "shape %s" % (np.shape(p.Z[k][r]),))
            for (lo, hi), e in ref.items():
                if lo >= lt:
                    continue
                g = z.call("G_gap_calc", lambda: p.G_gap_calc(hi, lo))
                if g is not None:
                    mat("G_gap(%d, %d)" % (hi, lo), g, e[0])
                g = z.call("Gr_gap_calc", lambda: p.Gr_gap_calc(hi, lo))
                if g is not None:
                    for r in range(3):
                        mat("Gr_gap(%d, %d)[%d]" % (hi, lo, r), g[r], e[r + 1], r + 1, 5e-5)
                g = z.call("Z_gap_calc", lambda: p.Z_gap_calc(hi, lo))
                if g is not None and np.abs(e[0]).min() > 1e-4:
                    for r in range(3):
                        mat("Z_gap(%d, %d)[%d]" % (hi, lo, r), g[r], e[r + 1] / e[0], r + 1, 2e-4)
            z.done({"family": fam, "parameters": str(par), "tiers": lt})


def main(thorough):
    grid = []
    for rho in (0.3, 0.6, 0.85) if not thorough else (0.1, 0.3, 0.5, 0.6, 0.7, 0.85, 0.92):
        deep = 60 if rho < 0.5 else 160 if rho < 0.8 else 420 if rho < 0.9 else 800
        for n in (1, 2, 3) if not thorough else (1, 2, 3, 4, 5):
            for p, m1, m2 in ((0.4, 2.0, 0.6), (1.0, 3.0, 3.0), (0.1, 1.5, 0.3)):
                b = 1 / m1 + p / m2
                grid.append(("cox", (n, rho * n / b, p, m1, m2), deep))
            for m in ((1.0, 1.0), (1.0, 2.5)):
                q = 0.4
                l = rho * n / ((1 - q) / m[0] + q / m[1])
                grid.append(("two", ((l * (1 - q), l * q), m, n), deep))
            grid.append(("birth", (rho, 1.0 / n, n), deep))
        grid.append(("h2", (rho, 0.4, 0.7, 14 / 3 * 0.3), deep))
        for cv in (0.5, 0.8):
            grid.append(("clx", (rho, cv), deep))
    if not thorough:
        for n in (5, 7):
            grid.append(("cox", (n, 0.5 * n / (1 / 2.0 + 0.4 / 0.6), 0.4, 2.0, 0.6), 160))
            grid.append(("two", ((0.2 * n, 0.15 * n), (1.0, 0.7), n), 160))
    for bits in itertools.product((0, 1), repeat=6):
        grid.append(("small", (bits, 0.3, 1.0), 80))
        if thorough:
            grid.append(("small", (bits, 0.02, 0.5), 80))
            grid.append(("small", (bits, 0.0, 1.0), 80))
    return th.run("C32", one, grid, thorough, ["upward drift below one"])


def replay(rep):
    return th.replay_one(one, rep)
