"""Explicit models of single-queue systems with phase-type clocks, built on mc.ctmc.

A phase-type law is PH(alpha, rates, jump): start phase probabilities, total rate per phase
and jump[i] = {next phase or None: probability}.  Rates and probabilities may be signed or
complex (the matrix-exponential laws the library fits); exploration works the same way."""
import math

import numpy as np

from .ctmc import Absorb, Graph, conv_moments, levels


class Ph:
    def __init__(self, alpha, rate, jump):
        self.alpha = list(alpha)        # [(phase, prob)]
        self.rate, self.jump = rate, jump

    def moves(self, ph):
        """[(rate, next phase or None)]"""
        return [(self.rate[ph] * p, t) for t, p in self.jump[ph].items()]

    def moments(self, num=4):
        a = Absorb([ph for ph, _ in self.alpha], lambda s: self.moves(s), nmom=num)
        return a.moments(dict(self.alpha))


def expo(mu):
    return Ph([(0, 1.0)], [mu], [{None: 1.0}])


def erlang(r, mu):
    return Ph([(0, 1.0)], [mu] * r, [{(i + 1 if i + 1 < r else None): 1.0} for i in range(r)])


def h2(y, m1, m2):
    return Ph([(0, y), (1, 1 - y)], [m1, m2], [{None: 1.0}, {None: 1.0}])


def cox(y, m1, m2):
    return Ph([(0, 1.0)], [m1, m2], [{1: y, None: 1 - y}, {None: 1.0}])


def multiset(t):
    return tuple(sorted(t))


def departures(busy, svc):
    """From the sorted tuple of service phases: [(rate, remaining phases or changed phases, done?)]"""
    out = {}
    for i, ph in enumerate(busy):
        if i and busy[i - 1] == ph:
            continue
        k = busy.count(ph)
        rest = list(busy)
        rest.remove(ph)
        for r, t in svc.moves(ph):
            if t is None:
                key = (multiset(rest), True)
            else:
                key = (multiset(rest + [t]), False)
            out[key] = out.get(key, 0) + k * r
    return [(r, k[0], k[1]) for k, r in out.items()]


def start_one(busy, svc):
    """All outcomes of starting one service: [(prob, phases)]"""
    return [(p, multiset(list(busy) + [ph])) for ph, p in svc.alpha if p != 0]


def ph_g_n(arr, svc, n, top, buffer=None):
    """PH/PH/n FIFO (Poisson when arr has one phase).  State (arrival phase, jobs, phases)."""
    lim = top if buffer is None else n + buffer

    def succ(s):
        a, q, busy = s
        out = []
        for r, t in arr.moves(a):
            if t is not None:
                out.append((r, (t, q, busy)))
                continue
            for ph, p in arr.alpha:
                if q >= lim:
                    out.append((r * p, (ph, q, busy)))
                elif q < n:
                    for pp, b2 in start_one(busy, svc):
                        out.append((r * p * pp, (ph, q + 1, b2)))
                else:
                    out.append((r * p, (ph, q + 1, busy)))
        for r, b2, done in departures(busy, svc):
            if not done:
                out.append((r, (a, q, b2)))
            elif q > n:
                for pp, b3 in start_one(b2, svc):
                    out.append((r * pp, (a, q - 1, b3)))
            else:
                out.append((r, (a, q - 1, b2)))
        return out
    return Graph([(ph, 0, ()) for ph, p in arr.alpha if p != 0], succ), lim


def wait_chain(svc, init):
    """Tagged job behind k-1 others: state (k, phases); absorbed when its service starts."""
    def succ(s):
        k, busy = s
        out = []
        for r, b2, done in departures(busy, svc):
            if not done:
                out.append((r, (k, b2)))
            elif k == 1:
                out.append((r, None))
            else:
                for pp, b3 in start_one(b2, svc):
                    out.append((r * pp, (k - 1, b3)))
        return out
    return Absorb([None] + [s for s in init if s is not None], succ)


class FifoQueue:
    """Stationary solution and tagged-job waiting / sojourn moments of PH/PH/n[/n+buffer]."""

    def __init__(self, arr, svc, n, top, buffer=None, waits=True):
        self.g, lim = ph_g_n(arr, svc, n, top, buffer)
        pi = self.g.stationary_by_level(lambda s: s[1])
        self.pi = pi
        self.p = levels(pi, self.g, lambda s: s[1], lim)
        # what an arrival sees: weight = rate of arrival completion in the state
        seen, tot, lost = {}, 0.0, 0.0
        self.at_arrival = [0.0] * (lim + 1)
        for s, x in zip(self.g.states, pi):
            a, q, busy = s
            w = x * sum(r for r, t in arr.moves(a) if t is None)
            self.at_arrival[q] += w
            if q >= lim:
                lost += w
                continue
            tot += w
            key = None if q < n else (q - n + 1, busy)
            seen[key] = seen.get(key, 0) + w
        self.at_arrival = [x / (tot + lost) for x in self.at_arrival]
        self.loss = lost / (tot + lost)
        self.seen = {k: v / tot for k, v in seen.items()}
        self.graphs = [self.g]
        if waits:
            a = wait_chain(svc, self.seen)
            self.graphs.append(a)
            self.w = a.moments(self.seen)
            self.b = svc.moments(3)
            self.v = conv_moments(self.w, self.b)


def skip_free_mg1(lam, q, rho, num, heavy=False):
    """Embedded chain of M/G/1: q[j] = probability of j arrivals in a service.  Solved by the
    balance of cuts between i and i+1 (all terms positive), exact for the infinite chain."""
    tails = [1.0]                       # tails[j] = P(arrivals >= j)
    for x in q:
        tails.append(tails[-1] - x)
    if not heavy:
        tails[-1] = 0.0
    # tails recomputed from the small end to keep relative accuracy
    for j in range(len(q) - 1, -1, -1):
        tails[j] = tails[j + 1] + q[j]
    p = [1 - rho]
    for i in range(num - 1):
        s = p[0] * tails[i + 1] + sum(p[j] * tails[i - j + 2] for j in range(1, i + 1))
        p.append(s / q[0])
    return p


def fifo(arr, svc, n, top, waits=True, tol=1e-11, cap=5000):
    """FifoQueue with the truncation level doubled until what lies above cannot matter."""
    while True:
        q = FifoQueue(arr, svc, n, top, waits=False)
        k = q.p[-1] * top ** 3
        if abs(k) < tol or top >= cap:
            break
        top *= 2
    return FifoQueue(arr, svc, n, top, waits=True) if waits else q
