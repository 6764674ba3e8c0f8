"""C30: single-channel priority formulas against the exact priority queue.  Classes above (and below)
the observed one are merged, which changes nothing for it; the chain keeps the phase of the job in
service and, with preemption, of the interrupted job."""
import itertools

from .. import queues as qq
from ..ctmc import Absorb, Graph
from ..queues import Ph
from . import thcommon as th

# name -> (Ph with mean 1, sojourn of any number of moments comes from the chain)
LAWS = {"M": qq.expo(1.0), "E2": qq.erlang(2, 2.0), "E3": qq.erlang(3, 3.0), "H": qq.h2(0.4, 2.0, 0.75)}


def scaled(law, mean):
    return Ph(law.alpha, [r / mean for r in law.rate], law.jump)


def mix(parts):
    """Mixture of laws: [(weight, Ph)]"""
    alpha, rate, jump = [], [], []
    tot = sum(w for w, _ in parts)
    for w, p in parts:
        o = len(rate)
        alpha += [(ph + o, x * w / tot) for ph, x in p.alpha]
        rate += p.rate
        jump += [{(None if t is None else t + o): x for t, x in j.items()} for j in p.jump]
    return Ph(alpha, rate, jump)


def start(law):
    return [(p, ph) for ph, p in law.alpha if p]


class Preempt:
    """State (na, pa, nj, pj): jobs of higher classes, phase in service; jobs of the class, phase of
    its first job or None before its first start."""

    def __init__(self, la, A, lj, J, ca, cj):
        self.la, self.A, self.lj, self.J, self.ca, self.cj = la, A, lj, J, ca, cj
        self.g = Graph([(0, None, 0, None)], lambda s: self.succ(s, True))
        self.pi = self.g.stationary_by_level(lambda s: s[2])

    def serve(self, s):
        """The server turns to the highest class present."""
        na, pa, nj, pj = s
        if na and pa is None:
            return [(p, (na, ph, nj, pj)) for p, ph in start(self.A)]
        if not na and nj and pj is None:
            return [(p, (0, None, nj, ph)) for p, ph in start(self.J)]
        return [(1.0, s)]

    def succ(self, s, arrivals):
        na, pa, nj, pj = s
        out = []
        if self.la and na < self.ca:
            out += [(self.la * p, t) for p, t in self.serve((na + 1, pa, nj, pj))]
        if arrivals and nj < self.cj:
            out += [(self.lj * p, t) for p, t in self.serve((na, pa, nj + 1, pj))]
        if na:
            for r, t in self.A.moves(pa):
                out += [(r, (na, t, nj, pj))] if t is not None else \
                    [(r * p, x) for p, x in self.serve((na - 1, None, nj, pj))]
        elif nj:
            for r, t in self.J.moves(pj):
                out += [(r, (0, None, nj, t))] if t is not None else \
                    [(r * p, x) for p, x in self.serve((0, None, nj - 1, None))]
        return out

    def tagged(self, end):
        seen, tot = {}, 0.0
        for s, x in zip(self.g.states, self.pi):
            if s[2] < self.cj:
                tot += x
                for p, t in self.serve((s[0], s[1], s[2] + 1, s[3])):
                    t = None if end(t) else t
                    seen[t] = seen.get(t, 0) + x * p
        a = Absorb([None] + [s for s in seen if s is not None],
                   lambda s: [(r, None if end(t) else t) for r, t in self.succ(s, False)])
        return a, [x / tot for x in a.moments(seen)]

    def active(self):
        end = lambda t: t[2] == 0
        a = Absorb([(0, None, 1, ph) for _, ph in start(self.J)],
                   lambda s: [(r, None if end(t) else t) for r, t in self.succ(s, False)], nmom=4)
        return a, a.moments({(0, None, 1, ph): p for p, ph in start(self.J)})


class NonPreempt:
    """State (na, nj, nb, server): jobs waiting above, of the class and below; (class, phase) in service."""

    def __init__(self, la, A, lj, J, lb, B, ca, cj, cb):
        self.l = (la, lj, lb)
        self.law = (A, J, B)
        self.cap = (ca, cj, cb)
        self.g = Graph([(0, 0, 0, None)], lambda s: self.succ(s, True))
        k = 1 if not cb else 2
        self.pi = self.g.stationary_by_level(lambda s: s[k])

    def next(self, n):
        for c in range(3):
            if n[c]:
                m = tuple(x - (i == c) for i, x in enumerate(n))
                return [(p, m + ((c, ph),)) for p, ph in start(self.law[c])]
        return [(1.0, n + (None,))]

    def succ(self, s, arrivals):
        n, srv = s[:3], s[3]
        out = []
        for c in range(3):
            if self.l[c] and (arrivals or c == 0) and n[c] < self.cap[c]:
                m = tuple(x + (i == c) for i, x in enumerate(n))
                out += [(self.l[c] * p, t) for p, t in (self.next(m) if srv is None else [(1.0, m + (srv,))])]
        if srv is not None:
            c, ph = srv
            for r, t in self.law[c].moves(ph):
                out += [(r, n + ((c, t),))] if t is not None else [(r * p, x) for p, x in self.next(n)]
        return out

    def waits(self):
        """The tagged job is the last of its class; lower jobs cannot overtake it."""
        seen, tot = {}, 0.0

        def end(t):
            return t[1] == 0
        for s, x in zip(self.g.states, self.pi):
            if s[1] >= self.cap[1]:
                continue
            tot += x
            t = None if s[3] is None else (s[0], s[1] + 1, 0, s[3])
            seen[t] = seen.get(t, 0) + x
        a = Absorb([None] + [s for s in seen if s is not None],
                   lambda s: [(r, None if end(t) else t) for r, t in self.succ(s, False)])
        return a, [x / tot for x in a.moments(seen)]


HEAVY = 1.0


def caps(rho):
    """Truncation of a queue with this load."""
    import math
    return max(12, int(math.ceil(-24 * HEAVY / math.log(rho * 0.9 + 0.1)))) if rho else 0


def burst(lam, laws):
    """Truncation of the queue of arrivals at rate lam during the slowest phase of any of the laws."""
    import math
    r = lam / (lam + min(x for p in laws for x in p.rate))
    return int(math.ceil(-22 / math.log(r)))


def busy(lam, law, num, first=None):
    """Busy period of M/PH/1, started by one job (or by a delay with the law `first`)."""
    rho = lam * law.moments(1)[0]
    cap = max(60, 6 * caps(rho))
    laws = (law, first or law)

    def succ(s):
        k, f, ph = s
        out = []
        if k < cap and lam:
            out.append((lam, (k + 1, f, ph)))
        for r, t in laws[f].moves(ph):
            if t is not None:
                out.append((r, (k, f, t)))
            elif k == 1:
                out.append((r, None))
            else:
                out += [(r * p, (k - 1, 0, x)) for p, x in start(law)]
        return out
    ini = {(1, 1, ph): p for p, ph in start(laws[1])}
    a = Absorb(list(ini), succ, nmom=num)
    return a, a.moments(ini)


def stable_fit(m):
    """The two-phase hyperexponential law with these three moments has no rate with a negative real part."""
    from most_queue.rand_distribution import H2_dist
    y, m1, m2 = H2_dist.get_params_clx(m)
    if min(complex(m1).real, complex(m2).real) <= 0:
        return False
    got = [f * (y / m1 ** k + (1 - y) / m2 ** k) for k, f in ((1, 1), (2, 2), (3, 6))]
    return all(abs(complex(a) / b - 1) < 1e-6 for a, b in zip(got, m))


def np_waits(acc, ls, P, bs, only=None):
    K, out = len(ls), []
    rho = sum(x * y for x, y in zip(ls, bs))
    for j in range(K):
        if only not in (None, j):
            out.append(None)
            continue
        la, lb = sum(ls[:j]), sum(ls[j + 1:])
        ra = sum(x * y for x, y in zip(ls[:j], bs[:j]))
        rj = ra + ls[j] * bs[j]
        A = mix(list(zip(ls[:j], P[:j]))) if j else None
        L = mix(list(zip(ls[j + 1:], P[j + 1:]))) if j + 1 < K else None
        if j and j + 1 < K:
            ca, cj, cb = min(13, caps(ra)), min(16, caps(rj)), min(45, int(1.5 * caps(rho)))
            if rho < 0.32:                        # light load: far fewer levels matter
                ca, cj, cb = 13, 14, 36
        else:
            ca, cj, cb = caps(ra), (int(1.5 * caps(rj)) if j else caps(rj)), (int(1.5 * caps(rho)) if lb else 0)
            ca, cj = (max(ca, burst(la, P)) if j else 0), max(cj, burst(ls[j], P))
        m = NonPreempt(la, A, ls[j], P[j], lb, L, ca, cj, cb)
        a, w = m.waits()
        th.explored(acc, m.g, a)
        out.append(w)
    return out


def one(acc, cfg):
    from most_queue.theory import priority_calc as pc
    global HEAVY
    kind, ls, bs, laws, scales = cfg[:5]
    only = cfg[5] if len(cfg) > 5 else None       # one class, to share the work
    HEAVY = 1.5 if "H" in laws else 1.0
    P = [scaled(LAWS[x], m) for x, m in zip(laws[:len(ls)], bs)]
    B = [p.moments(6) for p in P]
    K = len(ls)
    ref = {}
    if kind == "busy":
        a, ref["pnz"] = busy(ls[0], P[0], 5)
        th.explored(acc, a)
        a, ref["warm"] = busy(ls[0], P[0], 5, P[1])
        th.explored(acc, a)
    if kind == "pr":
        ref.update(v=[], w=[], h=[], pnz=[])
        for j in range(K):
            la = sum(ls[:j])
            A = mix(list(zip(ls[:j], P[:j]))) if j else None
            ra = sum(x * y for x, y in zip(ls[:j], bs[:j]))
            rj = ra + ls[j] * bs[j]
            ca = caps(ra)
            m = Preempt(la, A, ls[j], P[j], ca, caps(rj) if j == 0 else int(1.5 * caps(rj)))
            a1, v = m.tagged(lambda t: t[2] == 0)
            a2, w = m.tagged(lambda t: t[2] == 1 and t[3] is not None)
            a3, h = m.active()
            a4, z = busy(sum(ls[:j + 1]), mix(list(zip(ls[:j + 1], P[:j + 1]))), 4)
            th.explored(acc, m.g, a1, a2, a3, a4)
            for k, x in (("v", v), ("w", w), ("h", h), ("pnz", z)):
                ref[k].append(x)
    if kind == "np":
        ref["w"] = np_waits(acc, ls, P, bs, only)
        mine = [j for j in range(K) if only in (None, j)]
    if kind == "fifo":
        q = qq.fifo(qq.expo(sum(ls)), mix(list(zip(ls, P))), 1, 60)
        ref["w"] = q.w
        th.explored(acc, *q.graphs)
    if kind == "mxgn":
        n, svc = laws[-1], mix(list(zip(ls, P)))
        q = qq.fifo(qq.expo(sum(ls)), svc, n, 60)
        ref["w"] = [complex(x).real for x in q.w]
        th.explored(acc, *q.graphs)
    if kind == "npn":
        n = laws[-1]
        ref["w"] = np_waits(acc, ls, [scaled(p, 1.0 / n) for p in P], [x / n for x in bs])
        q = qq.fifo(qq.expo(sum(ls)), P[0], n, 60)
        th.explored(acc, *q.graphs)
        ref["fifo"] = [complex(q.w[0]).real]
        one_ch = sum(x * w[0] for x, w in zip(ls, ref["w"])) / sum(ls)
        ref["w"] = [[x * ref["fifo"][0] / one_ch for x in w] for w in ref["w"]]
    tol = (1e-6, 2e-6, 1e-5) if K < 3 else (1e-6, 1e-5, 3e-5)
    for scale in scales:
        c = th.Cmp(acc, cfg, kind + "-")
        S = lambda m: [x * scale ** (k + 1) for k, x in enumerate(m)]
        l = [x / scale for x in ls]
        b = [S(x) for x in B]
        b4 = [x[:4] for x in b]

        def cmp(key, got, exp, prec=None):
            if got is None:
                return
            if not hasattr(got, "__len__") or len(got) < len(exp):
                c.fail(key, "%s = %r, must have %d elements" % (key, got, len(exp)))
                return
            for k, x in enumerate(S(exp)):
                c.num("%s[%d]" % (key, k), got[k], x, tol[min(k, 2)] if prec is None else prec, 1e-12 * scale ** (k + 1))
        if kind == "busy":
            cmp("ppnz_calc", c.call("ppnz_calc", lambda: pc.ppnz_calc(l[0], b[0][:5])), ref["pnz"])
            cmp("ppnz_calc_warm_up", c.call("ppnz_calc_warm_up", lambda: pc.ppnz_calc_warm_up(l[0], b[1][:5], S(ref["pnz"]))), ref["warm"])
            for num in range(1, 6):               # lists of different lengths
                cmp("ppnz_calc(%d moments)" % num, c.call("ppnz_calc", lambda: pc.ppnz_calc(l[0], b[0][:num])), ref["pnz"][:num])
                cmp("ppnz_calc_warm_up(%d moments)" % num,
                    c.call("ppnz_calc_warm_up", lambda: pc.ppnz_calc_warm_up(l[0], b[1][:num], S(ref["pnz"][:num]))), ref["warm"][:num])
            for num in (1, 2, 3, 4):
                g = c.call("ppnz_calc", lambda: pc.ppnz_calc(l[0], b[0], num))
                cmp("ppnz_calc(num)", g, ref["pnz"][:num])
        if kind == "pr":
            g = c.call("get_w1_pr", lambda: pc.get_w1_pr(l, b4))
            for j in range(K):
                if g is not None:
                    cmp("get_w1_pr", [g[j]], [ref["v"][j][0] - bs[j]])
            g = c.call("climov_w_pr_calc", lambda: pc.climov_w_pr_calc(l, b4))
            for j in range(K):
                if g is not None:
                    cmp("climov_w_pr_calc", g[j], ref["w"][j][:2])
            for size in (4, 5, 6):
                g = c.call("calc_pr1(%d moments)" % size, lambda: pc.calc_pr1(l, [x[:size] for x in b]))
                if g is not None:
                    for key in ("v", "w", "h", "pnz"):
                        for j in range(K):
                            cmp("calc_pr1 %s" % key, g[key][j], ref[key][j][:3])
                    for j in range(K):
                        cmp("calc_pr1 w_with_pr", g["w_with_pr"][j][:1], [ref["v"][j][0] - bs[j]])
            for size in (3, 4, 6):
                g = c.call("calc_pr1(num=2, %d moments)" % size, lambda: pc.calc_pr1(l, [x[:size] for x in b], num=2))
                if g is not None:
                    for key in ("v", "w", "h"):
                        for j in range(K):
                            cmp("calc_pr1(num=2) %s" % key, g[key][j], ref[key][j][:2])
        if kind == "np":
            g = c.call("get_w1_np", lambda: pc.get_w1_np(l, b4))
            for j in mine:
                if g is not None:
                    cmp("get_w1_np", [g[j]], ref["w"][j][:1])
            fits = stable_fit([sum(l * m[k] for l, m in zip(ls, B)) / sum(ls) for k in range(3)])
            g = c.call("get_w_np", lambda: pc.get_w_np(l, b4))
            v = c.call("get_v_np", lambda: pc.get_v_np(l, b4))
            for j in mine:
                if g is not None:
                    cmp("get_w_np", g[j], ref["w"][j])
                if v is not None:
                    cmp("get_v_np", v[j], qq.conv_moments(ref["w"][j], B[j][:3]))
            for num, size in ((2, 3), (3, 5), (1, 2)):
                g = c.call("get_w_np", lambda: pc.get_w_np(l, [x[:size] for x in b], num))
                v = c.call("get_v_np", lambda: pc.get_v_np(l, [x[:size] for x in b], num))
                for j in mine:
                    if g is not None:
                        cmp("get_w_np(num=%d)" % num, g[j], ref["w"][j][:num])
                    if v is not None:
                        cmp("get_v_np(num=%d)" % num, v[j], qq.conv_moments(ref["w"][j], B[j][:3])[:num])
            g = c.call("get_w_prty_invar(n=1)", lambda: pc.get_w_prty_invar(l, b4, 1, "NP"), 200)
            for j in mine:
                if g is not None:                 # without a stable fit of the mean service only the first moments agree
                    cmp("get_w_prty_invar(n=1)", g[j] if fits else g[j][:1], ref["w"][j][:3 if fits else 1], 2e-4 if fits else 0.06)
        if kind == "mxgn":
            g = c.call("get_w_MxGn_no_pr", lambda: pc.get_w_MxGn_no_pr(l, b4, n), 200)
            v = c.call("get_v_MxGn_no_pr", lambda: pc.get_v_MxGn_no_pr(l, b4, n), 200)
            for j in range(K):
                if g is not None:
                    cmp("get_w_MxGn_no_pr", g[j], ref["w"], 2e-4)
                if v is not None:
                    cmp("get_v_MxGn_no_pr", v[j], qq.conv_moments(ref["w"], B[j][:3]), 2e-4)
        if kind == "npn":
            # jobs of all classes are alike: the total queue is that of the FIFO system, its split between
            # classes that of the single channel n times faster (the invariant the method is built on)
            g = c.call("get_w_prty_invar", lambda: pc.get_w_prty_invar(l, b4, n, "NP"), 200)
            v = c.call("get_v_prty_invar", lambda: pc.get_v_prty_invar(l, b4, n, "NP"), 200)
            for j in range(K):
                if g is not None:
                    for k in range(3):
                        c.num("get_w_prty_invar[%d]" % k, g[j][k], ref["w"][j][k] * scale ** (k + 1), 3e-3, 0.0)
                    if v is not None:
                        cmp("get_v_prty_invar", v[j], qq.conv_moments([g[j][k] / scale ** (k + 1) for k in range(3)], B[j][:3]))
        if kind == "fifo":
            g = c.call("get_w_mg1_bp", lambda: pc.get_w_mg1_bp(l, b4))
            v = c.call("get_v_mg1_bp", lambda: pc.get_v_mg1_bp(l, b4))
            for j in range(K):
                if g is not None:
                    cmp("get_w_mg1_bp", g[j], ref["w"])
                if v is not None:
                    cmp("get_v_mg1_bp", v[j], qq.conv_moments(ref["w"], B[j][:3]))
        c.done({"kind": kind, "l": ls, "laws": laws, "ref": {k: v for k, v in ref.items()}})


def main(thorough):
    sc = (1.0, 1e-3, 1e3)
    grid = []
    names = ("M", "E2", "H") if not thorough else ("M", "E2", "E3", "H")
    for r in (0.2, 0.5, 0.75) + ((0.05, 0.35, 0.85) if thorough else ()):
        for x in names:
            for y in names:
                grid.append(("busy", (r, 0.0), (1.0, 1.7), (x, y), sc))
    rates = [((0.3, 0.2), (1.0, 1.5)), ((0.1, 0.5), (2.0, 0.6))]
    pairs = [("M", "M"), ("E2", "H"), ("H", "E2"), ("E2", "E2")]
    if thorough:
        rates += [((0.25, 0.25), (1.0, 1.0)), ((0.5, 0.2), (1.0, 1.0)), ((0.05, 0.3), (1.0, 2.0)), ((0.9, 0.04), (0.5, 3.0))]
        pairs = [(x, y) for x in names for y in names]
    for l, b in rates:
        for p in pairs:
            for kind in ("pr", "np", "fifo"):
                grid.append((kind, l, b, p, sc))
    tri = [((0.15, 0.1, 0.2), (1.0, 1.5, 0.8), n) for n in (("M", "E2", "H"), ("H", "M", "E2"))]
    if thorough:
        tri += [((0.1, 0.2, 0.1), (1.3, 0.7, 1.6), n) for n in list(itertools.permutations(("M", "E2", "H")))[:4] + [("E2",) * 3]]
    def each(kind, l, b, n):
        if kind == "np" and len(l) > 2:
            grid.extend((kind, l, b, n, sc, j) for j in range(len(l)))
        else:
            grid.append((kind, l, b, n, sc))
    for l, b, n in tri:
        for kind in ("pr", "np", "fifo"):
            each(kind, l, b, n)
    for l, b, n in (((0.08, 0.05, 0.08, 0.07), (1.0, 1.4, 0.7, 1.1), ("M", "E2", "M", "E2")),
                    ((0.05, 0.1, 0.06, 0.06, 0.02), (1.4, 0.6, 1.0, 1.2, 2.0), ("E2", "M", "M", "M", "M")), ((0.6,), (1.1,), ("E3",))):
        for kind in ("pr", "np", "fifo"):
            each(kind, l, b, n)
    for n in (2, 3) if not thorough else (2, 3, 4, 5):
        for l, b in (((0.3, 0.2), (1.0, 1.9)), ((0.1, 0.45), (2.0, 0.6))):
            grid.append(("mxgn", tuple(x * n for x in l), b, ("M", "M", n), sc))
        for l in ((0.6,), (0.1, 0.5)) + (((0.2, 0.2, 0.2),) if thorough else ()):
            for x in ("E3", "H"):
                grid.append(("npn", tuple(y * n for y in l), (1.0,) * len(l), (x,) * len(l) + (n,), sc))
    grid.sort(key=lambda g: -len(g[1]))
    return th.run("C30", one, grid, thorough, ["moments of waiting with interruptions beyond the mean are not compared "
                                               "(interruptions depend on the service time)"])


def replay(rep):
    return th.replay_one(one, rep)
