"""C27: Takahashi-Takami calculator of M/H2/n and M/H2/n/r against the exact chain (jobs,
phases in service), explored state by state."""
from .. import queues as qq
from . import thcommon as th


def moments(mean, cv, shape="gamma"):
    """First four moments of a law with the given mean and coefficient of variation."""
    v = cv * cv
    if shape == "gamma":
        return [mean, mean ** 2 * (1 + v), mean ** 3 * (1 + v) * (1 + 2 * v), mean ** 4 * (1 + v) * (1 + 2 * v) * (1 + 3 * v)]
    # H2 with balanced means
    y = (1 + ((v - 1) / (v + 1)) ** 0.5) / 2
    m1, m2 = 2 * y / mean, 2 * (1 - y) / mean
    return [f * (y / m1 ** k + (1 - y) / m2 ** k) for k, f in ((1, 1), (2, 2), (3, 6), (4, 24))]


def mixed(acc, cfg):
    """Service of two kinds of jobs, Erlang and hyperexponential: the fit has an unstable rate and the
    calculator takes a law that has the first moments only, so agreement is approximate."""
    from most_queue.theory.mgn_tt import MGnCalc
    from .c30 import LAWS, mix
    n, rho = cfg[:2]
    law = mix([(1.5, LAWS["E3"]), (0.8, LAWS["H"])])
    b1 = law.moments(4)
    q = qq.fifo(qq.expo(rho * n / b1[0]), law, n, 40, cap=300)
    th.explored(acc, *q.graphs)
    w1 = complex(q.w[0]).real
    for scale in (1.0, 0.03, 40.0):
        c = th.Cmp(acc, cfg, "M/G/n-mixed-")
        b = [x * scale ** (k + 1) for k, x in enumerate(b1)]
        m = c.call("construct", lambda: MGnCalc(n, rho * n / b[0], b, N=150 if rho < 0.82 else 300))
        if m is None or c.call("run", lambda: m.run() or 1) is None:
            continue
        c.seq("p", c.call("get_p", m.get_p), [complex(x).real for x in q.p[:40]], 0.0, 0.008)
        w = c.call("get_w", m.get_w)
        if w is not None:
            c.num("w[0]", w[0], w1 * scale, 0.06, 0.0)
        c.done({"n": n, "rho": rho})


def one(acc, cfg):
    from most_queue.rand_distribution import H2_dist
    from most_queue.theory.mgn_tt import MGnCalc
    n, rho, cv, buf, shape = cfg
    if shape == "mixed":
        return mixed(acc, cfg)
    tol_p, tol_w = 2e-7, 1e-4
    if shape in ("expo", "erl2", "equal"):                 # the fit degenerates: compared with the law itself
        # the last is a mixture of exponential and Erlang services with the same rate of phases
        svc = qq.expo(1.0) if shape == "expo" else qq.erlang(2, 2.0) if shape == "erl2" else \
            qq.Ph([(0, 1.0)], [1.7, 1.7], [{1: 0.7, None: 0.3}, {None: 1.0}])
        b1 = svc.moments(4)
        tol_p, tol_w = 1e-3, 4e-3
    else:
        b1 = moments(1.0, cv, shape)
        svc = qq.h2(*H2_dist.get_params_clx(b1))  # the fit itself is the subject of C16
    lam = rho * n
    tiers = 60 if rho < 0.3 else 100 if rho < 0.6 else 150 if rho < 0.82 else 300
    if cv > 1.6:
        tiers *= 3                                # a heavier tail needs more tiers
    if buf is None:
        q = qq.fifo(qq.expo(lam), svc, n, 40, cap=400)
    else:
        q = qq.FifoQueue(qq.expo(lam), svc, n, n + buf, buffer=buf)
    th.explored(acc, *q.graphs)
    for scale in (1.0, 0.03, 40.0):
        c = th.Cmp(acc, cfg, "M/G/n%s-" % ("" if buf is None else "/r"))
        b = [x * scale ** (k + 1) for k, x in enumerate(b1)]
        m = c.call("construct", lambda: MGnCalc(n, lam / scale, b, buffer=buf, N=tiers, accuracy=1e-10))
        if m is None or c.call("run", lambda: m.run() or 1) is None:
            continue
        p = [complex(x).real for x in q.p]
        c.seq("p", c.call("get_p", m.get_p), p[:100], 1e-5, tol_p)
        # second call, in the order a user would
        w = c.call("get_w", m.get_w)
        v = c.call("get_v", m.get_v)
        ew = [complex(x).real * scale ** (k + 1) for k, x in enumerate(q.w)]
        ev = [complex(x).real * scale ** (k + 1) for k, x in enumerate(q.v)]
        for k in range(3):
            t = 1e-5 * scale ** (k + 1)
            if w is not None:
                c.num("w[%d]" % k, w[k], ew[k], tol_w, t)
            if v is not None:
                c.num("v[%d]" % k, v[k], ev[k], tol_w, t)
        c.done({"n": n, "rho": rho, "cv": cv, "buffer": buf, "p0": p[0], "w": ew})


def main(thorough):
    cvs = [(0.45, "gamma"), (0.6, "gamma"), (0.85, "gamma"), (1.2, "h2"), (1.5, "gamma"), (2.0, "h2"), (1.0, "expo"), (0.70711, "erl2"), (0.82, "equal")]
    rhos = (0.2, 0.5, 0.8)
    ns = (1, 2, 3, 4)
    if thorough:
        cvs += [(0.4, "gamma"), (0.5, "gamma"), (0.9, "gamma"), (1.1, "gamma"), (1.8, "gamma")]
        rhos = (0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.87)
        ns = (1, 2, 3, 4, 5, 6)
    grid = [(n, r, cv, None, s) for n in ns for r in rhos for cv, s in cvs]
    grid += [(n, r, cv, buf, s) for n in ns for r in tuple(rhos) + (1.0, 1.7) for cv, s in cvs for buf in ((0, 1, 2, 5) if not thorough else (0, 1, 2, 3, 5, 9))]
    grid += [(n, r, None, None, "mixed") for n in (1, 2, 3, 5) for r in (0.2, 0.6, 0.9)]
    grid += [(n, r, cv, None, s) for n in (6, 8) for r in (0.3, 0.7) for cv, s in cvs]
    grid += [(n, r, cv, buf, s) for n, buf in ((6, 3), (2, 14)) for r in (0.6, 1.3) for cv, s in cvs]
    return th.run("C27", one, grid, thorough, ["service as fitted by the two-phase hyperexponential law with complex parameters"], chunksize=2)


def replay(rep):
    return th.replay_one(one, rep)
