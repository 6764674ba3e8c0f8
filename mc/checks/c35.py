"""C35: moments of the maximum, split-join and fork-join formulas against explored chains."""
import math

from .. import queues as qq
from ..ctmc import Absorb, Graph
from . import thcommon as th

LAWS = {"M": qq.expo(1.0), "E2": qq.erlang(2, 2.0), "E3": qq.erlang(3, 3.0), "E4": qq.erlang(4, 4.0), "E9": qq.erlang(9, 9.0),
        "H": qq.h2(0.4, 2.0, 0.75), "H2": qq.h2(0.8, 2.5, 0.3)}


class Max:
    """The longest of independent times, each with its own law (None: not started, never counted)."""

    def __init__(self, laws, nmom=5):
        self.laws = laws
        same = all(x is laws[0] for x in laws)
        self.norm = (lambda s: tuple(sorted(s))) if same else (lambda s: s)
        ini = {(): 1.0}
        for law in laws:
            nxt = {}
            for s, p in ini.items():
                for ph, q in law.alpha:
                    if q:
                        nxt[s + (ph,)] = nxt.get(s + (ph,), 0) + p * q
            ini = nxt
        self.ini = {}
        for s, p in ini.items():
            self.ini[self.norm(s)] = self.ini.get(self.norm(s), 0) + p
        self.a = Absorb(list(self.ini), self.succ, nmom=nmom)
        self.m = self.a.moments(self.ini)

    def succ(self, s):
        out = []
        for i, ph in enumerate(s):
            if ph == 99:
                continue
            for r, t in self.laws[i].moves(ph):
                u = s[:i] + (99 if t is None else t,) + s[i + 1:]
                out.append((r, None if all(x == 99 for x in u) else self.norm(u)))
        return out


def expm_law(law, t):
    """Phases of one time t after its start: {phase or 99: probability} (uniformisation)."""
    lam = max(law.rate)
    v = {ph: p for ph, p in law.alpha}
    out = {}
    k, w = 0, math.exp(-lam * t)
    acc = 0.0
    while acc < 1 - 1e-15 and k < 4000:
        for ph, p in v.items():
            out[ph] = out.get(ph, 0) + w * p
        acc += w
        nv = {}
        for ph, p in v.items():
            stay = p
            if ph != 99:
                for r, u in law.moves(ph):
                    u = 99 if u is None else u
                    nv[u] = nv.get(u, 0) + p * r / lam
                    stay -= p * r / lam
            nv[ph] = nv.get(ph, 0) + stay
        v = nv
        k += 1
        w *= lam * t / k
    return out


def delayed_max(acc, law, n, delta, nmom):
    """The i-th of n times starts i*delta later: at (n-1)*delta the last one has just started."""
    ini = {(): 1.0}
    for i in range(n):
        d = expm_law(law, (n - 1 - i) * delta) if i < n - 1 else {ph: p for ph, p in law.alpha}
        nxt = {}
        for s, p in ini.items():
            for ph, q in d.items():
                if q:
                    u = tuple(sorted(s + (ph,)))
                    nxt[u] = nxt.get(u, 0) + p * q
        ini = nxt
    M = Max([law] * n, nmom)
    a = Absorb(list(ini), M.succ, nmom=nmom)
    th.explored(acc, a)
    r = [1.0] + a.moments(ini)
    c = (n - 1) * delta
    return [sum(math.comb(k, j) * c ** (k - j) * r[j] for j in range(k + 1)) for k in range(1, nmom + 1)]


def forkjoin(acc, n, rho, cap):
    """Mean time to the k-th of n subtasks, k = 1..n (mu = 1)."""
    def done(s):
        out = []
        for i, x in enumerate(s):
            if x and (i == 0 or s[i - 1] < x):
                t = list(s)
                t[i] -= 1
                out.append((float(s.count(x)), tuple(sorted(t))))
        return out

    def succ(s):
        return done(s) + ([(rho, tuple(x + 1 for x in s))] if s[-1] < cap else [])
    g = Graph([(0,) * n], succ)
    pi = g.stationary_by_level(sum) if n == 1 else g.stationary()
    th.explored(acc, g)
    ini = {}
    for s, p in zip(g.states, pi):
        t = tuple(x + 1 for x in s)
        ini[t] = ini.get(t, 0) + p
    out = []
    for k in range(1, n + 1):
        a = Absorb(list(ini), lambda s: [(r, None if sum(y == 0 for y in t) >= k else t) for r, t in done(s)], nmom=1)
        th.explored(acc, a)
        out.append(a.moments(ini)[0])
    return out


def harmonic(n, k):
    """Mean of the k-th of n exponential times."""
    return sum(1.0 / i for i in range(n - k + 1, n + 1))


def one(acc, cfg):
    from most_queue.theory import fj_calc as fj
    from most_queue.theory import mg1_calc
    kind, n, par, scales = cfg
    S = lambda m, sc: [x * sc ** (k + 1) for k, x in enumerate(m)]

    def cmp(key, got, exp, sc, rel=1e-6):
        if got is None:
            return
        if not hasattr(got, "__len__") or len(got) != len(exp):
            c.fail(key, "%s = %r, must have %d elements" % (key, got, len(exp)))
            return
        for k, x in enumerate(S(exp, sc)):
            c.num("%s[%d]" % (key, k), got[k], x, rel, 1e-14 * sc ** (k + 1))
    if kind == "max":
        law = LAWS[par[0]]
        b = law.moments(5)
        M = Max([law] * n)
        th.explored(acc, M.a)
        for sc in scales:
            c = th.Cmp(acc, cfg, "maximum-")
            for cnt in (3, 4):
                bb = S(b[:cnt], sc)
                cmp("getMaxMoments", c.call("getMaxMoments", lambda: fj.getMaxMoments(n, bb)), M.m[:cnt], sc)
                for num in (1, 2, 3, 4):
                    cmp("getMaxMoments(num)", c.call("getMaxMoments", lambda: fj.getMaxMoments(n, bb, num)), M.m[:min(num, cnt)], sc)
            if par[0][0] in "ME":                                   # the Gamma law by two moments is Erlang here
                cmp("getMaxMoments(2)", c.call("getMaxMoments", lambda: fj.getMaxMoments(n, S(b[:2], sc))), M.m[:2], sc)
                for num in (2, 3, 4):
                    cmp("getMaxMomentsDelta(0)", c.call("getMaxMomentsDelta", lambda: fj.getMaxMomentsDelta(n, S(b, sc), num, 0)), M.m[:num], sc)
            g = c.call("get_1ambda_max", lambda: fj.get_1ambda_max(S(b[:4], sc), n, 0.7))
            if g is not None:
                c.num("get_1ambda_max", g, 0.7 / (M.m[0] * sc))
            c.done({"law": par[0], "n": n, "maximum": M.m[:4]})
    if kind == "delta":
        r, d = par
        law = qq.erlang(r, float(r))
        b = law.moments(4)
        exp = delayed_max(acc, law, n, d, 4)
        for sc in scales:
            c = th.Cmp(acc, cfg, "maximum with fixed delays-")
            for num in (1, 2, 3, 4):
                cmp("getMaxMomentsDelta", c.call("getMaxMomentsDelta", lambda: fj.getMaxMomentsDelta(n, S(b, sc), num, d * sc)), exp[:num], sc)
            c.done({"erlang": r, "delay": d, "n": n, "maximum": exp})
    if kind == "deltas":
        r, s = par                               # phases of the service and of the delay
        laws = [qq.erlang(r + i * s, 1.0) for i in range(n)]
        M = Max(laws)
        th.explored(acc, M.a)
        b, d = qq.erlang(r, 1.0).moments(4), qq.erlang(s, 1.0).moments(3)
        for sc in scales:
            c = th.Cmp(acc, cfg, "maximum with random delays-")
            for num in (1, 2, 3, 4):
                cmp("getMaxMomentsDelta", c.call("getMaxMomentsDelta", lambda: fj.getMaxMomentsDelta(n, S(b, sc), num, S(d, sc))), M.m[:num], sc)
            c.done({"service": r, "delay": s, "n": n, "maximum": M.m[:4]})
    if kind == "sj":
        # the station is a single channel whose service is the maximum
        law, rho = LAWS[par[0]], par[1]
        M = Max([law] * n)
        states = [s for s in M.a.g.states if s is not None]
        idx = {s: i for i, s in enumerate(states)}
        rate, jump = [], []
        for s in states:
            out = {}
            for x, t in M.succ(s):
                k = None if t is None else idx[t]
                out[k] = out.get(k, 0) + x
            tot = sum(out.values())
            rate.append(tot)
            jump.append({k: x / tot for k, x in out.items()})
        ph = qq.Ph([(idx[s], p) for s, p in M.ini.items()], rate, jump)
        lam = rho / M.m[0]
        q = qq.fifo(qq.expo(lam), ph, 1, 60)
        th.explored(acc, M.a, *q.graphs)
        for sc in scales:
            c = th.Cmp(acc, cfg, "split-join-")
            b = S(law.moments(4), sc)
            cmp("v", c.call("v", lambda: mg1_calc.get_v(lam / sc, fj.getMaxMoments(n, b))), q.v, sc, 1e-5)
            cmp("w", c.call("w", lambda: mg1_calc.get_w(lam / sc, fj.getMaxMoments(n, b))), q.w, sc, 1e-5)
            c.done({"law": par[0], "n": n, "rho": rho, "v": q.v})
    if kind == "fj":
        rho, cap = par
        ex = forkjoin(acc, n, rho, cap)
        ex2 = ex[-1] if n == 2 else (12 - rho) / 8 / (1 - rho)
        qn, q2 = qq.fifo(qq.expo(rho), qq.expo(1.0 / n), n, 60), qq.fifo(qq.expo(rho), qq.expo(0.5), 2, 60)
        th.explored(acc, *qn.graphs)
        invar = ex2 * qn.v[0] / q2.v[0]
        for sc in scales:
            c = th.Cmp(acc, cfg, "fork-join-")
            l, mu = rho / sc, 1.0 / sc
            exact = 2e-5
            for f, lo, tol in (("get_v1_fj_varma", 1, exact if n < 3 else 3e-3),
                               ("get_v1_fj_nelson_tantawi", 2, exact if n < 3 else 0.004 + 0.016 * rho),
                               ("get_v1_fj_varki_merchant", 1, exact if n < 2 else 1e-3 + 0.09 * rho ** 2)):
                g = c.call(f, lambda: getattr(fj, f)(l, mu, n)) if n >= lo else None
                if g is not None:
                    c.num(f, g, ex[-1] * sc, tol, 0.0)
            if n == 2:
                g = c.call("get_v1_fj2", lambda: fj.get_v1_fj2(l, mu))
                c.num("get_v1_fj2", g, ex[-1] * sc, exact, 0.0)
            for k in range(1, n + 1):
                g = c.call("get_v1_varma_nk", lambda: fj.get_v1_varma_nk(l, mu, n, k))
                if g is not None:
                    c.num("get_v1_varma_nk", g, ex[k - 1] * sc, exact if n < 3 else 0.025 * rho, 0.0)
                g = c.call("get_v1_fj_nelson_nk", lambda: fj.get_v1_fj_nelson_nk(l, mu, n, k))
                if g is not None:
                    c.num("get_v1_fj_nelson_nk", g, ex[k - 1] * sc, exact if n < 3 else 0.4 * rho, 0.0)
            # the rest as the methods are defined
            g = c.call("get_v1_fj_invar", lambda: fj.get_v1_fj_invar(l, mu, n))
            if g is not None:
                c.num("get_v1_fj_invar", g, invar * sc, 1e-5 if rho < 0.85 else 1e-4, 0.0)
            b = [math.factorial(k) * sc ** k for k in (1, 2, 3, 4)]
            g = c.call("get_v_fj_max", lambda: fj.get_v_fj_max(l, b, n))
            top = Max([qq.expo(1 - rho)] * n).m
            cmp("get_v_fj_max", g, top[:2], sc)
            if g is not None and not g[0] >= ex[-1] * sc * (1 - 1e-6):
                c.fail("bound", "the maximum of independent branches %g is below the fork-join time %g" % (g[0], ex[-1] * sc))
            if n > 1:
                g = c.call("get_v_fj_invar_tt", lambda: fj.get_v_fj_invar_tt(l, b, n))
                if g is not None:
                    c.num("get_v_fj_invar_tt", g[0], invar * sc, 5e-3, 0.0)
            c.done({"n": n, "rho": rho, "k-th subtask": ex})
        c = th.Cmp(acc, cfg, "")
        if (n, rho) == (3, 0.2):
            # recorded findings
            g = c.call("get_v1_fj_invar_sj", lambda: fj.get_v1_fj_invar_sj(rho, 1.0, n))
            if g is not None and not 0.5 * ex[-1] < g < 2 * ex[-1]:
                c.fail("fork-join-invar-sj,n=3,rho=0.2", "get_v1_fj_invar_sj = %g, the exact chain has %g" % (g, ex[-1]))
        if (n, rho) == (2, 0.2):
            a = c.call("get_v_fj_invar_tt", lambda: fj.get_v_fj_invar_tt(rho, [1.0, 2.0, 6.0], n))
            b = c.call("get_v_fj_invar_tt", lambda: fj.get_v_fj_invar_tt(rho / 10, [10.0, 200.0, 6000.0], n))
            if a and b and not abs(b[1] / a[1] - 100) < 0.5:
                c.fail("fork-join-invar-tt-second-moment,n=2,rho=0.2", "second moments %g and %g at time units 1 and 1/10" % (a[1], b[1]))
    if kind == "light":
        # next to no load the response time is an order statistic
        for sc in scales:
            c = th.Cmp(acc, cfg, "fork-join without load-")
            l, mu = 1e-10 / sc, 1.0 / sc
            for k in range(1, n + 1):
                exp = harmonic(n, k) * sc
                for f in ("get_v1_varma_nk", "get_v1_fj_nelson_nk"):
                    g = c.call(f, lambda: getattr(fj, f)(l, mu, n, k))
                    if g is not None:
                        c.num(f, g, exp, 1e-7, 0.0)
                acc.add("states")
                acc.add("transitions")
            for f in ("get_v1_fj_varma", "get_v1_fj_nelson_tantawi", "get_v1_fj_varki_merchant"):
                g = c.call(f, lambda: getattr(fj, f)(l, mu, n))
                if g is not None and (n > 1 or "nelson" not in f):
                    c.num(f, g, harmonic(n, n) * sc, 1e-7, 0.0)
            for x in ("E3", "H") if n < 9 else ():
                M = Max([LAWS[x]] * n)
                th.explored(acc, M.a)
                cmp("get_v_fj_max", c.call("get_v_fj_max", lambda: fj.get_v_fj_max(l, S(LAWS[x].moments(4), sc), n)), M.m[:2], sc, 1e-6)
            c.done()
    if kind == "tt":
        cv, rho = par
        from most_queue.rand_distribution import H2_dist
        v = cv * cv
        svc = qq.h2(*H2_dist.get_params_clx([1.0, 1 + v, (1 + v) * (1 + 2 * v)], verbose=False))
        sl = lambda k: qq.Ph(svc.alpha, [x / k for x in svc.rate], svc.jump)
        q = [qq.fifo(qq.expo(rho), sl(float(k)), k, 40) for k in (2, n)]
        th.explored(acc, *(q[0].graphs + q[1].graphs))
        exp = (12 - rho) / 8 / (1 - rho) * complex(q[1].v[0]).real / complex(q[0].v[0]).real
        for sc in scales:
            c = th.Cmp(acc, cfg, "fork-join-")
            b = [sc, sc ** 2 * (1 + v), sc ** 3 * (1 + v) * (1 + 2 * v)]
            g = c.call("get_v_fj_invar_tt", lambda: fj.get_v_fj_invar_tt(rho / sc, b, n))
            if g is not None:
                c.num("get_v_fj_invar_tt", g[0], exp * sc, 2e-3, 0.0)
            c.done()


def main(thorough):
    sc = (1.0, 1e-3, 1e3)
    names = ("M", "E2", "E3", "H", "H2") + (("E4", "E9") if thorough else ())
    grid = []
    for x in names:
        for n in (1, 2, 3, 4) + ((5, 6) if thorough else ()):
            grid.append(("max", n, (x,), sc))
        for n in (1, 2, 3) + ((4,) if thorough else ()):
            for rho in (0.3, 0.8) if not thorough else (0.1, 0.3, 0.6, 0.8, 0.9):
                if not (x == "E9" and n > 3):
                    grid.append(("sj", n, (x, rho), sc))
    for n in (1, 2, 3) + ((4, 5) if thorough else ()):
        for r in (1, 2, 4):
            for d in (0.05, 0.6, 3.0) if not thorough else (0.01, 0.05, 0.3, 0.6, 1.5, 3.0, 10.0):
                grid.append(("delta", n, (r, d), sc))
            for s in (1, 3) if not thorough else (1, 2, 3):
                if n < 5:
                    grid.append(("deltas", n, (r, s), sc))
    if not thorough:
        for x in ("M", "E2", "H"):
            grid += [("max", n, (x,), sc) for n in (5, 6)] + [("sj", n, (x, 0.6), sc) for n in (4, 5)]
        grid += [("delta", n, (2, 0.3), sc) for n in (4, 5)]
        grid.append(("tt", 5, (0.8, 0.5), sc))
    for n, cap, rhos in ((1, 200, (0.3, 0.8)), (2, 60, (0.2, 0.5, 0.7)), (3, 24, (0.2, 0.5)), (4, 13, (0.2,))) if not thorough else \
            ((1, 300, (0.05, 0.3, 0.6, 0.8, 0.9)), (2, 90, (0.05, 0.2, 0.35, 0.5, 0.6, 0.7, 0.8)), (3, 36, (0.05, 0.2, 0.35, 0.5, 0.65)), (4, 18, (0.05, 0.2, 0.35))):
        for rho in rhos:
            grid.append(("fj", n, (rho, cap), sc))
    for n in list(range(1, 7 if not thorough else 9)) + [10, 14]:
        grid.append(("light", n, (), sc))
    for n in (2, 3, 4):
        for cv in (0.6, 0.8, 1.3) if not thorough else (0.6, 0.75, 0.85, 1.15, 1.3, 1.7):
            for rho in (0.3, 0.7) if not thorough else (0.15, 0.3, 0.5, 0.7):
                grid.append(("tt", n, (cv, rho), sc))
    grid.sort(key=lambda g: g[0] != "fj")
    return th.run("C35", one, grid, thorough, ["fork-join approximations beyond two channels agree with the exact chain to their known error; "
                                               "the invariants are compared with their definition by exact chains"])


def replay(rep):
    return th.replay_one(one, rep)
