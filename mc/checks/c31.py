"""C31: multichannel systems with preemptive priority, lowest class.  The exact chain keeps the phases of
the jobs of higher classes in service, their queue, and the jobs of the lowest class."""
import itertools
import math

from .. import queues as qq
from ..ctmc import Graph
from . import thcommon as th


def cap_of(rho):
    return max(14, int(math.ceil(-17.0 / math.log(rho)))) if rho else 0


def two_class(n, cox, muL, lL, lH, capH, capL):
    """State (low, waiting high, high in phase one, high in phase two)."""
    p, m1, m2 = cox

    def succ(s):
        l, w, a, b = s
        out = []
        if l < capL:
            out.append((lL, (l + 1, w, a, b)))
        if w < capH:
            out.append((lH, (l, w, a + 1, b) if a + b < n else (l, w + 1, a, b)))
        if a:
            if p:
                out.append((a * m1 * p, (l, w, a - 1, b + 1)))
            if p != 1:
                out.append((a * m1 * (1 - p), (l, w - 1, a, b) if w else (l, w, a - 1, b)))
        if b:
            out.append((b * m2, (l, w - 1, a + 1, b - 1) if w else (l, w, a, b - 1)))
        k = min(l, n - a - b)
        if k > 0:
            out.append((k * muL, (l - 1, w, a, b)))
        return out
    return Graph([(0, 0, 0, 0)], succ)


def three_class(mu, l, caps):
    """M/M/2, classes numbered from the lowest."""
    def succ(s):
        out = []
        for c in range(3):
            if s[c] < caps[c]:
                out.append((l[c], tuple(x + (i == c) for i, x in enumerate(s))))
        free = 2
        for c in (2, 1, 0):
            k = min(free, s[c])
            free -= k
            if k:
                out.append((k * mu[c], tuple(x - (i == c) for i, x in enumerate(s))))
        return out
    return Graph([(0, 0, 0)], succ)


def one(acc, cfg):
    from most_queue.rand_distribution import Cox_dist
    from most_queue.theory.m_ph_n_prty import m_ph_n_prty
    from most_queue.theory.mmn3_pnz_cox_approx import Mmn3_pnz_cox
    from most_queue.theory.mmn_prty_pnz_approx import MMn_PRTY_PNZ_Cox_approx
    kind, par, scales, tiers = cfg
    if kind == "3":
        mu, l = par
        r = [x / (2.0 * y) for x, y in zip(l, mu)]
        caps = [int(cap_of(sum(r)) * 1.3), cap_of(r[1] + r[2]), cap_of(r[2])]
        g = three_class(mu, l, caps)
        lL = l[0]
    else:
        n, cv, muL, lL, lH = par
        cox = (0.0, 1.0, 1.0)
        if kind == "ph" and cv != 1 or kind == "phfit":
            f = [1.0, 1 + cv * cv, (1 + cv * cv) * (1 + 2 * cv * cv)]       # the moments of a Gamma law
            cox = Cox_dist.get_params(f, verbose=False)
            cox = tuple(complex(x).real if abs(complex(x).imag) < 1e-9 else complex(x) for x in cox)
        heavy = 1.0 if kind == "2" else max(1.0, cv)
        g = two_class(n, cox, muL, lL, lH, int(heavy * cap_of(lH / n)), int(1.3 * heavy * cap_of(lH / n + lL / n / muL)))
    pi = g.stationary_by_level(lambda s: s[0])
    p = [0.0] * (max(s[0] for s in g.states) + 1)
    for s, x in zip(g.states, pi):
        p[s[0]] += complex(x).real
    v = sum(k * x for k, x in enumerate(p)) / lL
    th.explored(acc, g)
    rH = r[1] + r[2] if kind == "3" else lH / n
    cv2 = 1.0 if kind in "23" else max(1.0, cv) ** 2
    # the calculators keep three moments of the busy periods of the higher classes
    tol_p = 2e-3 + 0.08 * rH ** 3 * cv2
    tol_v = 3e-4 + 0.01 * rH ** 2 * cv2 + (4e-3 if kind == "ph" and cv < 1 else 0.0) + (6e-3 if kind == "phfit" else 0.0)
    for scale in scales:
        c = th.Cmp(acc, cfg, {"2": "M/M/n, two classes ", "3": "M/M/2, three classes ", "ph": "M/PH/n, two classes ",
                              "phfit": "M/PH/n, two classes, fit of an exponential law "}[kind])
        if kind[:2] == "ph" and n > 2 and isinstance(cox[0], complex) and (kind == "phfit" or cv <= 0.5):
            c.tag, c.key = "", "M/PH/n-complex-service-n=%d,cv=%g,muL=%g,rho=%g+%g" % (n, cv, muL, rH, lL / n / muL)
        opts = [None] if kind in "23" else [True, False]
        for cox_fit in opts:
            if kind == "2":
                mk = lambda: MMn_PRTY_PNZ_Cox_approx(n, muL / scale, 1.0 / scale, lL / scale, lH / scale, N=tiers)
                get = "get_second_class_v1"
            elif kind == "3":
                mk = lambda: Mmn3_pnz_cox(*[x / scale for x in tuple(mu) + tuple(l)], N=tiers)
                get = "get_low_class_v1"
            else:
                mk = lambda: m_ph_n_prty(muL / scale, cox[1] / scale, cox[2] / scale, cox[0], lL / scale, lH / scale, n, N=tiers,
                                         is_cox=cox_fit, verbose=False)
                get = "get_low_class_v1"
            m = c.call("constructor", mk)
            if m is None:
                continue
            c.call("run", m.run, 100)
            q = c.call("get_p", m.get_p)
            if q is not None:
                c.seq("p", q[:40], p[:40], 0, tol_p)
            w = c.call(get, getattr(m, get))
            c.num("v", w, v * scale, tol_v, 0.0)
        c.done({"par": par, "p": p[:6], "v": v})


def main(thorough):
    sc = (1.0, 1e-3, 1e3)
    grid = []
    for n in (1, 2, 3) + ((4, 5, 6) if thorough else ()):
        for rH, rL in ((0.3, 0.3), (0.5, 0.2), (0.1, 0.5)) + (((0.25, 0.6), (0.05, 0.05), (0.7, 0.15), (0.05, 0.85)) if thorough else ()):
            for muL in (0.6, 2.0) if not thorough else (0.6, 1.0, 2.0):
                grid.append(("2", (n, 1.0, muL, rL * n * muL, rH * n), sc, 150 if thorough else 100))
                if n <= 4:
                    for cv in (1.0, 1.4) if not thorough else (0.75, 0.9, 1.0, 1.1, 1.4, 2.0):
                        grid.append(("ph", (n, cv, muL, rL * n * muL, rH * n), sc if muL == 1 else (1.0,) if muL > 1 else (1e-3,), 200 if thorough else 100))
                if n <= 2 and thorough:
                    grid.append(("phfit", (n, 1.0, muL, rL * n * muL, rH * n), (1.0,), 200))
    if not thorough:
        for n in (4, 5):
            grid.append(("2", (n, 1.0, 1.4, 0.35 * n * 1.4, 0.4 * n), sc, 100))
        grid.append(("ph", (4, 1.4, 1.0, 1.4, 1.2), (1.0,), 100))
    grid.append(("ph", (2, 0.75, 1.0, 0.8, 0.5), (1.0,), 150))
    grid.append(("phfit", (2, 1.0, 2.0, 2.4, 0.5), (1.0,), 150))
    grid.append(("phfit", (3, 1.0, 2.0, 3.6, 0.75), (1.0,), 150))        # a recorded finding
    grid.append(("ph", (4, 0.5, 2.0, 4.8, 1.0), (1.0,), 150))           # a recorded finding
    for mu in ((1.3, 1.4, 1.5), (1.0, 2.0, 0.5), (0.5, 1.0, 2.0)) + (((1.0, 1.0, 1.0), (2.0, 1.0, 0.5)) if thorough else ()):
        for r in ((0.2, 0.2, 0.2), (0.3, 0.1, 0.1)) + (((0.1, 0.3, 0.1), (0.1, 0.1, 0.3), (0.4, 0.2, 0.1), (0.05, 0.4, 0.2)) if thorough else ()):
            grid.append(("3", (mu, tuple(2 * x * y for x, y in zip(mu, r))), sc if thorough else (1.0, 1e3), 150 if thorough else 80))
    grid.sort(key=lambda g: g[0] != "3")
    return th.run("C31", one, grid, thorough, ["busy periods of the higher classes are fitted by three moments: agreement to a fraction of a percent, not exact"])


def replay(rep):
    return th.replay_one(one, rep)
