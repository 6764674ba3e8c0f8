"""Explicit-state Markov models: breadth-first exploration of every reachable state, then
stationary probabilities, absorption-time moments and first-passage quantities from the
explored graph.  A model is a successor function `succ(state) -> [(rate, next), ...]`."""
import math

import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as spl


class Graph:
    """All states reachable from `init` (iterable)."""

    def __init__(self, init, succ, limit=400000):
        self.idx = {}
        self.states = []
        rows, cols, vals = [], [], []
        for s in init:
            if s not in self.idx:
                self.idx[s] = len(self.states)
                self.states.append(s)
        i = 0
        while i < len(self.states):
            for r, t in succ(self.states[i]):
                if r == 0:
                    continue
                j = self.idx.get(t)
                if j is None:
                    j = self.idx[t] = len(self.states)
                    self.states.append(t)
                    if j > limit:
                        raise MemoryError("more than %d states" % limit)
                rows.append(i)
                cols.append(j)
                vals.append(r)
            i += 1
        n = len(self.states)
        self.n = n
        self.edges = len(vals)
        R = sps.csr_matrix((np.array(vals), (rows, cols)), shape=(n, n)) if vals else sps.csr_matrix((n, n))
        self.R = R
        out = np.asarray(R.sum(axis=1)).ravel()
        self.Q = R - sps.diags(out)

    def stationary(self):
        """pi Q = 0, sum pi = 1 (the reachable set is one recurrent class by construction)."""
        n = self.n
        if n == 1:
            return np.array([1.0])
        A = self.Q.T.tocsc()
        # drop the balance equation of one state, fix that state at one, normalise
        for keep in [0, n - 1] + [n * k // 32 for k in range(1, 32)]:
            rest = np.r_[0:keep, keep + 1:n]
            b = -A[rest][:, [keep]].toarray().ravel()
            x = spl.spsolve(A[rest][:, rest].tocsc(), b)
            pi = np.insert(x, keep, 1.0)
            with np.errstate(all="ignore"):
                tot = pi.sum()
            if np.isfinite(tot) and tot > 0:
                pi = pi / tot
                if pi.min() > -1e-9 and np.abs(A @ pi).max() < 1e-10 * abs(A.diagonal()).max():
                    return pi
        raise ArithmeticError("the chain has no stationary distribution")

    def stationary_by_level(self, level):
        """The same for a chain whose transitions change `level` by at most one: levels are
        eliminated from the top, diagonals rebuilt from the off-diagonal rates, so that even
        tiny probabilities keep their relative accuracy (signed or complex rates included)."""
        lv = np.array([level(s) for s in self.states])
        top = lv.max()
        members = [np.flatnonzero(lv == k) for k in range(top + 1)]
        R = self.R.tocsr()
        dt = complex if np.iscomplexobj(R.data) else float
        coo = R.tocoo()
        if np.abs(lv[coo.row] - lv[coo.col]).max() > 1:
            raise ValueError("levels change by more than one")
        rows = [R[m] for m in members]
        loc = [rows[k][:, members[k]].toarray().astype(dt) for k in range(top + 1)]
        up = [rows[k][:, members[k + 1]].toarray() if k < top else None for k in range(top + 1)]
        dn = [rows[k][:, members[k - 1]].toarray() if k else None for k in range(top + 1)]
        mul = [None] * (top + 1)
        for k in range(top, 0, -1):
            A = loc[k]
            np.fill_diagonal(A, 0)
            S = -A
            np.fill_diagonal(S, A.sum(axis=1) + dn[k].sum(axis=1))
            X = np.linalg.solve(S.T, up[k - 1].T).T            # up * S^-1
            mul[k] = X
            loc[k - 1] = loc[k - 1] + X @ dn[k]
        A = loc[0]
        n0 = len(A)
        np.fill_diagonal(A, 0)
        if n0 == 1:
            v = np.ones(1, dtype=dt)
        else:
            M = A - np.diag(A.sum(axis=1))
            M[:, 0] = 1.0
            e = np.zeros(n0, dtype=dt)
            e[0] = 1.0
            v = np.linalg.solve(M.T, e)
        pi = np.zeros(self.n, dtype=dt)
        pi[members[0]] = v
        for k in range(1, top + 1):
            v = v @ mul[k]
            pi[members[k]] = v
        return pi / pi.sum()

    def expect(self, pi, f):
        return sum(p * f(s) for p, s in zip(pi, self.states))

    def dist(self, pi, f):
        """Distribution of f(state) as a dict."""
        d = {}
        for p, s in zip(pi, self.states):
            k = f(s)
            d[k] = d.get(k, 0.0) + p
        return d


def levels(pi, g, f, m=None):
    d = g.dist(pi, f)
    m = max(d) if m is None else m
    return [d.get(i, 0.0) for i in range(m + 1)]


class Absorb:
    """Absorbing chain: succ(state) -> [(rate, next or None)], None = absorbed.
    Moments of the time to absorption from every explored state."""

    def __init__(self, init, succ, nmom=3, limit=400000):
        self.g = Graph(init, lambda s: [] if s is None else [(r, t) for r, t in succ(s)], limit)
        n = self.g.n
        keep = [i for i, s in enumerate(self.g.states) if s is not None]
        pos = {i: k for k, i in enumerate(keep)}
        dt = complex if np.iscomplexobj(self.g.R.data) else float
        self.m = np.zeros((nmom + 1, n), dtype=dt)
        for i in keep:
            self.m[0, i] = 1.0
        if None in self.g.idx:
            self.m[0, self.g.idx[None]] = 1.0
        if keep:
            Q = self.g.Q[keep][:, keep].tocsc()
            lu = spl.splu(-Q)
            v = np.ones(len(keep), dtype=dt)
            for k in range(1, nmom + 1):
                v = lu.solve(v) * k
                self.m[k, keep] = v
        self.nmom = nmom

    def moments(self, dist):
        """E T^k, k = 1..nmom, for an initial distribution {state: prob}."""
        out = [0.0] * self.nmom
        for s, p in dist.items():
            if s is None:
                continue
            i = self.g.idx[s]
            for k in range(self.nmom):
                out[k] += p * self.m[k + 1, i]
        return out


def conv_moments(a, b):
    """Moments of the sum of two independent times (three)."""
    A, B = [1.0] + list(a), [1.0] + list(b)
    n = min(len(a), len(b))
    return [sum(math.comb(k, i) * A[i] * B[k - i] for i in range(k + 1)) for k in range(1, n + 1)]


def rel(a, b, eps=0.0):
    """Relative difference."""
    try:
        a = complex(a)
        return abs(a - b) / max(abs(b), eps, 1e-300)
    except (TypeError, ValueError):
        return float("inf")
