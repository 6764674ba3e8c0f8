"""C28: multichannel models with warm-up, cooling and delayed cooling against the exact chain
(mode, phase, jobs, phases in service) of the protocol that the simulators implement."""
from .. import queues as qq
from ..ctmc import Absorb, Graph, conv_moments, levels
from . import thcommon as th
from .c27 import moments


def phases(mode, law, f):
    """Outcomes of entering a clocked mode: [(prob, f(mode, phase))]"""
    return [(p, f(mode, ph)) for ph, p in law.alpha if p != 0]


def fill(k, n, svc):
    """Outcomes of starting min(k, n) services at once."""
    out = {(): 1.0}
    for _ in range(min(k, n)):
        nxt = {}
        for b, p in out.items():
            for pp, b2 in qq.start_one(b, svc):
                nxt[b2] = nxt.get(b2, 0) + p * pp
        out = nxt
    return list(out.items())


class Protocol:
    """Station with optional delay -> cooling -> off -> warm-up -> service.
    State (mode, phase, jobs, service phases); modes: off, w, s, c, d."""

    def __init__(self, lam, svc, n, warm, cold=None, delay=None, top=60):
        self.lam, self.svc, self.n, self.warm, self.cold, self.delay, self.top = lam, svc, n, warm, cold, delay, top
        self.g = Graph([("off", 0, 0, ())], self.succ)
        self.pi = self.g.stationary_by_level(lambda s: s[2])
        self.p = [complex(x).real for x in levels(self.pi, self.g, lambda s: s[2], top)]

    def emptied(self):
        if self.delay:
            return phases("d", self.delay, lambda m, ph: (m, ph, 0, ()))
        if self.cold:
            return phases("c", self.cold, lambda m, ph: (m, ph, 0, ()))
        return [(1.0, ("off", 0, 0, ()))]

    def ended(self, mode, k):
        """Outcomes of the end of the warm-up, cooling or delay with k jobs present."""
        if mode == "w":
            return [(p, ("s", 0, k, b)) for b, p in fill(k, self.n, self.svc)]
        if mode == "d":
            return phases("c", self.cold, lambda m, ph: (m, ph, 0, ()))
        if k == 0:
            return [(1.0, ("off", 0, 0, ()))]
        return phases("w", self.warm, lambda m, ph: (m, ph, k, ()))

    def arrival(self, s):
        mode, ph, k, busy = s
        if mode == "off":
            return phases("w", self.warm, lambda m, p: (m, p, 1, ()))
        if mode == "d" or (mode == "s" and k < self.n):
            return [(p, ("s", 0, k + 1, b)) for p, b in qq.start_one(busy, self.svc)]
        return [(1.0, (mode, ph, k + 1, busy))]

    def local(self, s):
        """Transitions without arrivals."""
        mode, ph, k, busy = s
        out = []
        if mode in ("w", "c", "d"):
            law = {"w": self.warm, "c": self.cold, "d": self.delay}[mode]
            for r, t in law.moves(ph):
                if t is not None:
                    out.append((r, (mode, t, k, busy)))
                else:
                    out += [(r * p, x) for p, x in self.ended(mode, k)]
        elif mode == "s":
            for r, b2, done in qq.departures(busy, self.svc):
                if not done:
                    out.append((r, ("s", 0, k, b2)))
                elif k > self.n:
                    out += [(r * p, ("s", 0, k - 1, b3)) for p, b3 in qq.start_one(b2, self.svc)]
                elif k == 1:
                    out += [(r * p, x) for p, x in self.emptied()]
                else:
                    out.append((r, ("s", 0, k - 1, b2)))
        return out

    def succ(self, s):
        out = self.local(s)
        if s[2] < self.top:
            out += [(self.lam * p, x) for p, x in self.arrival(s)]
        return out

    def waits(self):
        """Moments of the waiting time: the tagged job is the last one of the state after its arrival;
        it starts when the station serves and no more than n jobs (itself included) are present."""
        def done(x):
            return None if x[0] == "s" and x[2] <= self.n else x

        def succ(s):
            return [(r, done(x)) for r, x in self.local(s)]
        seen, tot = {}, 0.0
        for s, x in zip(self.g.states, self.pi):
            if s[2] >= self.top:
                continue
            for p, t in self.arrival(s):
                t = done(t)
                seen[t] = seen.get(t, 0) + x * p
                tot += x * p
        a = Absorb([None] + [s for s in seen if s is not None], succ)
        self.a = a
        return [complex(x / tot).real for x in a.moments(seen)]

    def prob(self, mode):
        return complex(sum(x for s, x in zip(self.g.states, self.pi) if s[0] == mode)).real


class FirstSpecial(Protocol):
    """The first job of a busy period is served with the warm-up law.  Mode f: `phase` is its phase."""

    def emptied(self):
        return [(1.0, ("off", 0, 0, ()))]

    def arrival(self, s):
        mode, ph, k, busy = s
        if mode == "off":
            return phases("f", self.warm, lambda m, p: (m, p, 1, ()))
        if k < self.n:
            return [(p, (mode, ph, k + 1, b)) for p, b in qq.start_one(busy, self.svc)]
        return [(1.0, (mode, ph, k + 1, busy))]

    def local(self, s):
        mode, ph, k, busy = s
        if mode != "f":
            return Protocol.local(self, s)
        out = []

        def after(rest, m):
            if k > self.n:
                return [(p, (m, ph if m == "f" else 0, k - 1, b)) for p, b in qq.start_one(rest, self.svc)]
            if k == 1:
                return self.emptied()
            return [(1.0, (m, ph if m == "f" else 0, k - 1, rest))]
        for r, t in self.warm.moves(ph):
            if t is None:
                out += [(r * p, x) for p, x in after(busy, "s")]
            else:
                out.append((r, (mode, t, k, busy)))
        for r, b2, fin in qq.departures(busy, self.svc):
            if fin:
                out += [(r * p, x) for p, x in after(b2, "f")]
            else:
                out.append((r, (mode, ph, k, b2)))
        return out

    def waits(self):
        def done(x):
            return None if x[2] <= self.n and x[0] in ("s", "f") else x

        def succ(s):
            return [(r, done(x)) for r, x in self.local(s)]
        seen, tot = {}, 0.0
        for s, x in zip(self.g.states, self.pi):
            if s[2] >= self.top:
                continue
            for p, t in self.arrival(s):
                t = done(t)
                seen[t] = seen.get(t, 0) + x * p
                tot += x * p
        a = Absorb([None] + [s for s in seen if s is not None], succ)
        self.a = a
        return [complex(x / tot).real for x in a.moments(seen)]


def build(kind, n, lam, b, bw, bc, bd, fit):
    svc = qq.h2(*fit(b)) if kind != "mmn" else qq.expo(1 / b[0])
    warm = qq.h2(*fit(bw))
    cold = qq.h2(*fit(bc)) if kind in ("mmn", "full") else None
    delay = qq.h2(*fit(bd)) if kind == "full" else None
    top = 40
    while True:
        q = (FirstSpecial if kind == "first" else Protocol)(lam, svc, n, warm, cold, delay, top)
        if abs(q.p[-1]) * top ** 3 < 1e-11 or top >= 640:
            return q
        top *= 2


def one(acc, cfg):
    from most_queue.rand_distribution import H2_dist
    from most_queue.theory.m_h2_h2warm import Mh2h2Warm
    from most_queue.theory.mmn_with_h2_cold_and_h2_warmup import MMn_H2warm_H2cold
    from most_queue.theory.mgn_with_h2_delay_cold_warm import MGnH2ServingColdWarmDelay
    kind, n, rho, sb, sw, sc, sd, scales = cfg
    lam = rho * n
    b1 = moments(1.0, *sb) if kind != "mmn" else [1.0, 2.0, 6.0, 24.0]
    bw1, bc1, bd1 = (moments(*x) if x else None for x in (sw, sc, sd))
    q = build(kind, n, lam, b1, bw1, bc1, bd1, H2_dist.get_params_clx)
    ew = q.waits()
    if kind == "first":
        p0 = q.p[0]
        ev = [ew[0] + (1 - p0) * b1[0] + p0 * bw1[0],
              ew[1] + 2 * ew[0] * b1[0] + (1 - p0) * b1[1] + p0 * bw1[1],
              ew[2] + 3 * ew[1] * b1[0] + 3 * ew[0] * b1[1] + (1 - p0) * b1[2] + p0 * bw1[2]]
    else:
        ev = conv_moments(ew, b1[:3])
    th.explored(acc, q.g, q.a)
    # enough tiers that nothing beyond them matters; a fitted law with complex parameters can make the
    # probabilities of far tiers oscillate around zero, where ratios of neighbouring tiers mean nothing
    rest, tiers = 0.0, len(q.p)
    while tiers > n + 3 and rest + abs(q.p[tiers - 1]) * tiers ** 3 < 1e-6 * min(1.0, ew[2] * lam ** 3):
        tiers -= 1
        rest += abs(q.p[tiers]) * (tiers + 1) ** 3
    tiers += 3
    if min(q.p[:tiers]) <= 0:
        acc.add("skipped_oscillating")
        return
    for scale in scales:
        c = th.Cmp(acc, cfg, "%s-" % kind)
        sc_ = lambda m: [x * scale ** (k + 1) for k, x in enumerate(m)]
        a = dict(N=tiers, accuracy=1e-10)
        if kind in ("warm", "first"):
            mk = lambda: Mh2h2Warm(lam / scale, sc_(b1), sc_(bw1), n, is_only_first=kind == "first", **a)
        elif kind == "mmn":
            mk = lambda: MMn_H2warm_H2cold(lam / scale, 1 / scale, sc_(bw1), sc_(bc1), n, **a)
        else:
            mk = lambda: MGnH2ServingColdWarmDelay(lam / scale, sc_(b1), sc_(bw1), sc_(bc1), sc_(bd1), n, **a)
        m = c.call("construct", mk)
        if m is None or c.call("run", lambda: m.run() or 1) is None:
            continue
        w = c.call("get_w", m.get_w)
        v = c.call("get_v", m.get_v)
        p = c.call("get_p", m.get_p)
        c.seq("p", p, q.p[:tiers - 3], 1e-5, 2e-7)
        for k in range(3):
            t = 1e-5 * scale ** (k + 1)
            if w is not None:
                c.num("w[%d]" % k, w[k], ew[k] * scale ** (k + 1), 1e-4, t)
            if v is not None:
                c.num("v[%d]" % k, v[k], ev[k] * scale ** (k + 1), 1e-4, t)
        if kind in ("mmn", "full"):
            c.num("cold", c.call("get_cold_prob", m.get_cold_prob), q.prob("c"), 1e-5, 1e-7)
            c.num("warm", c.call("get_warmup_prob", m.get_warmup_prob), q.prob("w"), 1e-5, 1e-7)
        if kind == "full":
            c.num("delay", c.call("get_cold_delay_prob", m.get_cold_delay_prob), q.prob("d"), 1e-5, 1e-7)
            c.num("idle", c.call("get_idle_prob", m.get_idle_prob), q.prob("off"), 1e-5, 1e-7)
        c.done({"kind": kind, "n": n, "rho": rho, "p0": q.p[0], "w": ew})


def main(thorough):
    G, H = "gamma", "h2"
    sb = [(0.6, G), (0.85, G), (1.2, H)] + ([(0.45, G), (1.6, H), (0.95, G)] if thorough else [])
    sw = [(0.7, 0.6, G), (3.1, 1.3, H)] + ([(0.2, 0.85, G), (6.0, 0.5, G)] if thorough else [])
    sc = [(1.2, 1.25, H), (2.7, 0.55, G)] + ([(0.3, 0.8, G)] if thorough else [])
    sd = [(0.9, 0.85, G)] + ([(3.0, 1.3, H)] if thorough else [])
    ns = (1, 2, 3) if not thorough else (1, 2, 3, 4, 5)
    rhos = (0.3, 0.7) if not thorough else (0.15, 0.3, 0.5, 0.7, 0.85)
    sc3 = (1.0, 0.05, 20.0)
    grid = []
    for n in ns:
        for r in rhos:
            for w in sw:
                for b in sb:
                    grid.append(("warm", n, r, b, w, None, None, sc3))
                    grid.append(("first", n, r, b, w, None, None, sc3))
                for cc in sc:
                    grid.append(("mmn", n, r, None, w, cc, None, sc3))
                    for b in sb:
                        for d in sd:
                            grid.append(("full", n, r, b, w, cc, d, sc3))
    for n in (4, 5):
        grid += [(k, n, 0.5, None if k == "mmn" else b, w, None if k in ("warm", "first") else cc, d if k == "full" else None, sc3)
                 for k in ("warm", "first", "mmn", "full") for b, w, cc, d in ((sb[0], sw[1], sc[0], sd[0]), (sb[2], sw[0], sc[1], sd[0]))]
    return th.run("C28", one, grid, thorough,
                  ["every time as fitted by the two-phase hyperexponential law with complex parameters",
                   "no limit on the queue", "tiers chosen so that the probability beyond them is negligible"], chunksize=2)


def replay(rep):
    return th.replay_one(one, rep)
