"""C36: sums of flows.  The superposition is explored as a chain of the phases of both flows; the
simulator of superposition is driven through every sequence of intervals up to a bound."""
import itertools
import math
import os
import subprocess
import sys

import numpy as np

from .. import queues as qq, seam
from ..ctmc import Graph
from . import thcommon as th


def moves(ph):
    """Transitions of a renewal flow: (rate, next phase, event)."""
    def f(x):
        out = []
        for r, t in ph.moves(x):
            if t is not None:
                out.append((r, t, False))
            else:
                out += [(r * p, u, True) for u, p in ph.alpha if p]
        return out
    return f


class Sum:
    """Superposition of independent renewal flows with phase-type intervals."""

    def __init__(self, flows):
        f = [moves(x) for x in flows]

        def succ(s):
            return [(r, s[:i] + (t,) + s[i + 1:]) for i in range(len(f)) for r, t, _ in f[i](s[i])]
        # phases of a flow may return to themselves at an event: explored, but silent in the chain
        self.g = g = Graph([tuple(x.alpha[0][0] for x in flows)], succ)
        n = g.n
        D0 = np.zeros((n, n), complex)
        D1 = np.zeros((n, n), complex)
        for s in g.states:
            k = g.idx[s]
            for i in range(len(f)):
                for r, t, ev in f[i](s[i]):
                    (D1 if ev else D0)[k, g.idx[s[:i] + (t,) + s[i + 1:]]] += r
                    D0[k, k] -= r
        self.D0, self.D1 = D0, D1
        Q = D0 + D1
        A = Q.T.copy()
        A[0, :] = 1
        e = np.zeros(n, complex)
        e[0] = 1
        self.pi = np.linalg.solve(A, e)

    def moments(self, num):
        """Of the interval between neighbouring events."""
        v = self.pi @ self.D1
        v = v / v.sum()
        x = np.ones(len(v), complex)
        out = []
        for k in range(1, num + 1):
            x = np.linalg.solve(-self.D0, x) * k
            out.append(v @ x)
        return out

    def growth(self, num):
        """Derivatives at zero of the growth rate of E exp(theta N(t)): the eigenvalue of D0 + e^z D1
        at zero as a series, term by term."""
        e = np.ones(len(self.pi), complex)
        left = self.D0 + self.D1 - np.outer(e, self.pi)
        A = [self.D1 / math.factorial(j) for j in range(num + 1)]
        x, lam = [e], [0.0]
        for k in range(1, num + 1):
            rhs = -sum(A[j] @ x[k - j] for j in range(1, k + 1))
            lam.append(-(self.pi @ rhs))
            x.append(np.linalg.solve(left, rhs + sum(lam[j] * x[k - j] for j in range(1, k + 1))))
        return [math.factorial(k) * lam[k] for k in range(1, num + 1)]


def invert(d):
    """Derivatives of the inverse function, from the composition rule."""
    a, b, c, e = (list(d) + [0, 0, 0])[:4]
    return [1 / a, -b / a ** 3, (3 * b * b - a * c) / a ** 5, (-15 * b ** 3 + 10 * a * b * c - a * a * e) / a ** 7]


def cumulants(m):
    m = list(m)
    k = []
    for n in range(1, len(m) + 1):
        k.append(m[n - 1] - sum(math.comb(n - 1, j - 1) * k[j - 1] * m[n - j - 1] for j in range(1, n)))
    return k


def from_cumulants(k):
    m = []
    for n in range(1, len(k) + 1):
        m.append(k[n - 1] + sum(math.comb(n - 1, j - 1) * k[j - 1] * m[n - j - 1] for j in range(1, n)))
    return m


LAWS = {"M": qq.expo(1.0), "E2": qq.erlang(2, 2.0), "E3": qq.erlang(3, 3.0), "H": qq.h2(0.4, 2.0, 0.75), "W": qq.h2(0.8, 2.5, 0.3),
        "E5": qq.erlang(5, 5.0), "E12": qq.erlang(12, 12.0), "V": qq.h2(0.97, 5.0, 0.045)}


def scaled(law, mean):
    return qq.Ph(law.alpha, [r / mean for r in law.rate], law.jump)


def fit(m):
    """The hyperexponential law the method works with."""
    from most_queue.rand_distribution import H2_dist
    return qq.h2(*H2_dist.get_params_clx(m[:3], verbose=False))


def one(acc, cfg):
    from most_queue.theory.utils.flow_sum import SummatorNumeric as S
    kind, names, means, scales = cfg
    if kind == "import":
        c = th.Cmp(acc, cfg, "sum of flows-")
        for m in names:
            env = {k: v for k, v in os.environ.items() if k not in ("DISPLAY", "MPLBACKEND")}
            r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import %s" % (seam.REPO, m)],
                               capture_output=True, text=True, env=env, cwd="/")
            acc.add("states")
            acc.add("transitions")
            if r.returncode:
                c.fail("import", "import of %s without a display: %s" % (m, r.stderr.strip().splitlines()[-1:]))
        c.done()
        return
    if kind == "sim":
        return simulate(acc, cfg)
    laws = [scaled(LAWS[x], m) for x, m in zip(names, means)]
    ms = [x.moments(4) for x in laws]
    rate = sum(1 / m[0] for m in ms)
    if kind == "h2":
        # one pair at a time, the sum of the first flows taken as a renewal flow
        ref, cur = [], ms[0]
        exact = []
        for k in range(1, len(laws)):
            s = Sum([fit(cur), fit(ms[k])])
            th.explored(acc, s.g)
            cur = s.moments(4)
            ref.append(cur)
        if len(laws) == 2:
            s = Sum(laws)
            th.explored(acc, s.g)
            exact = [x.real for x in s.moments(4)]
    else:
        ref = []
        for k in range(2, len(laws) + 1):
            s = Sum(laws[:k])
            th.explored(acc, s.g)
            k_sum = [abs(x) * 0 + x for x in invert(s.growth(4))]
            # cumulants of the interval of the renewal flow with the same growth of events
            k_sum = [k_sum[0], -k_sum[1], k_sum[2], -k_sum[3]]
            ref.append(from_cumulants([x.real for x in k_sum]))
    for scale in scales:
        c = th.Cmp(acc, cfg, {"h2": "sum of flows-", "semi": "sum of flows by semi-invariants-"}[kind])
        a = [[x * scale ** (k + 1) for k, x in enumerate(m)] for m in ms]
        for num in (4, 3, 2) if kind == "semi" else (4, 3):
            inp = [x[:num] for x in a]
            keep = [list(x) for x in inp]
            z = c.call("construct", lambda: S(inp, is_semi=kind == "semi"))
            if z is None:
                continue
            c.call("sum_flows", lambda: z.sum_flows() or 1)
            if inp != keep:
                c.fail("arguments", "the moments passed were changed")
            if len(z.flows_) != len(ref):
                c.fail("flows_", "%d sums of %d flows" % (len(z.flows_), len(laws)))
                continue
            for i, r in enumerate(ref):
                tol = 1e-6 if kind == "h2" else 1e-7
                if len(z.flows_[i]) != num:
                    c.fail("flows_", "%d moments of %d" % (len(z.flows_[i]), num))
                    continue
                for k in range(num):
                    e = r[k] * scale ** (k + 1)
                    if not abs(complex(z.flows_[i][k]) - e) <= tol * abs(e) * (10 if k == 3 else 1):
                        c.fail("moment %d" % (k + 1), "sum of %d flows: %s, the chain has %s" % (i + 2, z.flows_[i][k], e))
                c.num("a1_sum", complex(z.a1_sum[i]).real, complex(r[0]).real * scale, 1e-6)
                c.num("a2_sum", complex(z.a2_sum[i]).real, complex(r[1]).real * scale ** 2, 1e-5)
                d = complex(r[1]).real - (complex(r[0]) ** 2).real
                c.num("coevs", z.coevs[i], math.sqrt(d) / complex(r[0]).real, 1e-5)
            c.num("rate", complex(z.result_flow[0]).real, scale / rate, 1e-6, 0.0)
            if kind == "h2" and exact:
                fitted = all(x in ("H", "W") for x in names)
                for k in range(3):
                    c.num("exact moment %d" % (k + 1), complex(z.flows_[0][k]).real, exact[k] * scale ** (k + 1), (1e-6 if fitted else 0.03), 0.0)
        if kind == "semi":
            for x, ph in zip(ms, laws):
                # the rest of the interval seen at an arbitrary moment: absorption from the stationary phase
                one_flow = Sum([ph])
                rest, v = [], np.ones(len(one_flow.pi), complex)
                for k in range(3):
                    v = np.linalg.solve(-one_flow.D0, v) * (k + 1)
                    rest.append((one_flow.pi @ v).real * scale ** (k + 1))
                inp = [m * scale ** (k + 1) for k, m in enumerate(x)]
                got = c.call("get_residual_distr_moments", lambda: S.get_residual_distr_moments(inp))
                if got is not None:
                    c.seq("get_residual_distr_moments", [complex(y).real for y in got], rest, 1e-8, 0.0, pad=False)
        c.done({"flows": names, "means": means, "sum": [str(complex(x)) for x in ref[-1]]})


def merged(x, y, size, num):
    """Moments of the intervals between the first events of two merged sequences."""
    ev = sorted(list(itertools.accumulate(x)) + list(itertools.accumulate(y)))[:size]
    gaps = [b - a for a, b in zip([0.0] + ev, ev)]
    return [sum(g ** (k + 1) for g in gaps) / size for k in range(num)]


def simulate(acc, cfg):
    """All interval sequences of two flows: the intervals between merged events, in order."""
    import most_queue.sim.flow_sum_sim as fs
    from most_queue import rand_distribution as rd
    _, (name,), (size, num), values = cfg
    real = getattr(rd, {"H": "H2_dist", "Gamma": "Gamma", "E": "Erlang_dist", "Pa": "Pareto_dist"}[name])
    fn = {"H": "sum_2_H2_flows", "Gamma": "sum_2_Gamma_flows", "E": "sum_2_Erlang_flows", "Pa": "sum_2_Pa_flows"}[name]
    a = [[1.0, 2.5, 10.0, 70.0], [2.0, 9.0, 80.0, 900.0], [5.0, 60.0, 1500.0, 50000.0], [3.0, 20.0, 300.0, 6000.0]]
    c = th.Cmp(acc, cfg, "simulated sum of flows-")
    script, made = {}, []

    # the laws are labelled by the moments they were fitted to, and their values are scripted
    def init(self, params, *x, **kw):
        self.label = round(float(params[0]), 9)
        self.at = 0
        made.append(self.label)

    def generate(self):
        v = script[self.label][self.at] if self.label in script else other[self.at]
        self.at += 1
        return v
    stand_in = {"__init__": init, "generate": generate}
    for f in ("get_params", "get_a_k", "get_mu_alpha"):
        if hasattr(real, f):
            stand_in[f] = staticmethod(lambda m, *x, **kw: list(m))
    kept = {k: real.__dict__[k] for k in stand_in if k in real.__dict__}
    try:
        for k, v in stand_in.items():
            setattr(real, k, v)
        other = []
        for seq in itertools.product(values, repeat=2 * (size + 1)):
            x, y = list(seq[:size + 1]), [v * 1.5 for v in seq[size + 1:]]
            script = {1.0: x + [1.0] * 8, 2.0: y + [1.0] * 8}
            del made[:]
            acc.add("states")
            acc.add("transitions", size)
            exp = merged(x, y, size, num)
            with seam.quiet():
                got = c.call(fn, lambda: getattr(fs.FlowSumSim, fn)(a[0], a[1], num_of_moments=num, num_of_sim=size))
            if got is None:
                break
            if not c.seq("moments", got, exp, 1e-9, 1e-12, pad=False) or len(got) != num:
                c.fail("moments", "intervals %s" % (script,))
                break
            if sorted(made) != [1.0, 2.0]:
                c.fail("laws", "laws with means %s created for the two flows" % made)
        # the method of many flows merges them two at a time and keeps what it found
        for n in (2, 3, 4):
            for k in range(8):
                v = [[0.31 + 0.17 * ((5 * i + 3 * j + k * (i + 1)) % 7) for i in range(size + 9)] for j in range(4)]
                script = dict(zip((1.0, 2.0, 5.0, 3.0), v))
                other = [0.23 + 0.29 * ((3 * i + k) % 5) for i in range(size + 9)]
                want, cur = [], v[0]
                for j in range(1, n):
                    want.append(merged(cur, v[j], size, num))
                    cur = other
                acc.add("states")
                acc.add("transitions", n * size)
                inp = [list(x) for x in a[:n]]
                z = c.call("FlowSumSim", lambda: fs.FlowSumSim(inp, distr=name, verbose=False, num_of_moments=num, num_of_jobs=size))
                if z is None:
                    break
                with seam.quiet():
                    c.call("sum_flows", lambda: z.sum_flows() or 1)
                if inp != [list(x) for x in a[:n]]:
                    c.fail("arguments", "the moments passed were changed")
                if len(z.flows_) != n - 1:
                    c.fail("flows_", "%d sums of %d flows" % (len(z.flows_), n))
                    continue
                for got, exp in zip(z.flows_, want):
                    c.seq("flows_", got, exp, 1e-9, 1e-12, pad=False)
                c.seq("result_flow", z.result_flow, want[-1], 1e-9, 1e-12, pad=False)
                c.seq("a1_sum", z.a1_sum, [m[0] for m in want], 1e-9, 1e-12, pad=False)
                c.seq("a2_sum", z.a2_sum, [m[1] for m in want], 1e-9, 1e-12, pad=False)
                c.seq("coevs", z.coevs, [math.sqrt(m[1] - m[0] ** 2) / m[0] for m in want], 1e-7, 1e-9, pad=False)
    finally:
        for k in stand_in:
            if k in kept:
                setattr(real, k, kept[k])
            else:
                delattr(real, k)
    c.done({"law": name, "events": size, "histories": len(values) ** (2 * size + 2)})


def main(thorough):
    sc = (1.0, 1e-3, 1e3)
    grid = [("import", ("most_queue.theory.utils.flow_sum", "most_queue.sim.flow_sum_sim"), (), ())]
    names = ("M", "E2", "E3", "H", "W")
    means = ((1.0, 1.0), (1.0, 3.0)) if not thorough else ((1.0, 1.0), (1.0, 3.0), (2.0, 0.3), (0.5, 0.6), (1.0, 20.0))
    for x in names:
        for y in names:
            for m in means:
                grid.append(("h2", (x, y), m, sc))
                grid.append(("semi", (x, y), m, sc))
    for t in itertools.product(("E2", "H", "W", "M"), repeat=3) if thorough else (("E2", "H", "W"), ("W", "E3", "H"), ("M", "M", "M")):
        for m in ((1.0, 2.0, 0.7),) if not thorough else ((1.0, 2.0, 0.7), (1.0, 1.0, 1.0)):
            grid.append(("h2", t, m, sc))
            grid.append(("semi", t, m, sc))
    # nearly regular and very irregular intervals
    grid += [("semi", t, m, sc) for t in (("E5", "M"), ("M", "E12"), ("E12", "W"), ("E5", "E12"), ("E12", "V"), ("V", "V"))
             for m in ((1.0, 1.0), (1.0, 0.2))]
    grid += [("h2", t, m, sc) for t in (("V", "M"), ("W", "V"), ("V", "V")) for m in ((1.0, 1.0), (1.0, 0.2))]
    if thorough:
        grid += [(k, (x,) * 5, (1.0,) * 5, sc) for k in ("h2", "semi") for x in ("E2", "H", "W")]
    for law in ("H", "Gamma", "E", "Pa"):
        for num in (4, 2):
            grid.append(("sim", (law,), (4, num), (1.0, 2.0)))
            grid.append(("sim", (law,), (3 if not thorough else 4, num), (0.5, 2.0, 7.0)))
    return th.run("C36", one, grid, thorough, ["the sum of the first flows is taken as a renewal flow when a third is added, as the method does; "
                                               "simulated intervals from a small set of values"])


def replay(rep):
    return th.replay_one(one, rep)
