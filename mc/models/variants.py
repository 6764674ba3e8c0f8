"""Reference models of the finite-source, impatient and batch simulators."""
from ..explore import Clocks, Moments
from .base import SRC, SRV, BaseModel

PAT = ("N", 6.0)


class FiniteModel(BaseModel):
    """m sources; a source is either counting down or has one job in the system."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.clk = Clocks()
        self.idle = [(self.clk.start(SRC, 0.0), i) for i in range(cfg["m"])]
        self.nsrc = cfg["m"]

    def events(self):
        return [("src", i) for _, i in self.idle] + [("srv", b[2]) for b in self.busy]

    def default(self, k, evs):
        ns = len(self.idle)
        if ns and (k // (self.cfg["m"] + 1)) % 2 == 0:
            return k % ns
        return len(evs) - 1

    def key(self):
        return super().key() + (tuple(i for _, i in self.idle),)

    def countdown(self):
        self.idle.append((self.clk.start(SRC, self.t), self.nsrc))
        self.nsrc += 1

    def fire(self, ev, t):
        if ev[0] == "src":
            self.advance(t)
            was_full = len(self.busy) == self.n
            i = next(i for i, s in enumerate(self.idle) if s[1] == ev[1])
            self.clk.fire(self.idle.pop(i)[0], t)
            d = self.dropped
            self.arrive()
            if self.dropped > d:
                self.countdown()
            if len(self.busy) == self.n and not was_full:
                self.full_since = t
        else:
            super().fire(ev, t)

    def departed(self):
        self.countdown()
        super().departed()

    def obs(self):
        o = super().obs()
        o["p"] = o["p"][:self.cfg["m"] + 1]
        o["sources_ready"] = len(self.idle)
        return o


class ImpatientModel(BaseModel):
    """Waiting jobs have a patience clock.  cfg['pat'] lists which arrivals draw a
    patience at once: those that wait always do."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.pat = {}
        self.wd = Moments()      # waits of everybody whose wait is over
        self.left = 0

    def events(self):
        return super().events() + [("pat", q[1]) for q in self.queue]

    def default(self, k, evs):
        ns = len(self.busy)
        if k % 3 != 2 or len(evs) == 1:
            return 0
        if (k // 3) % 3 == 0 and len(evs) > 1 + ns:
            return 1 + ns + (k % (len(evs) - 1 - ns))
        return 1 if ns else 0

    def key(self):
        return super().key() + (tuple(q[1] for q in self.queue), self.left)

    def arrive(self):
        mode = self.cfg.get("pat_mode", ("idle", "drop"))
        waits = len(self.busy) == self.n
        full = waits and self.buf is not None and len(self.queue) >= self.buf
        c = None
        if (waits and not full) or (full and "drop" in mode) or (not waits and "idle" in mode):
            c = self.clk.start(PAT, self.t)
        super().arrive()
        if waits and not full:
            self.pat[self.arrived] = c
        elif c is not None:
            self.clk.cancel(c, self.t)

    def start_job(self, arr, num):
        super().start_job(arr, num)
        if num in self.pat:
            self.clk.cancel(self.pat.pop(num), self.t)

    def fire(self, ev, t):
        if ev[0] != "pat":
            return super().fire(ev, t)
        self.advance(t)
        i = next(i for i, q in enumerate(self.queue) if q[1] == ev[1])
        arr, num = self.queue.pop(i)
        self.clk.fire(self.pat.pop(num), t)
        self.dropped += 1
        self.served += 1
        self.left += 1
        self.v.add(t - arr)
        self.w.add(t - arr)

    def obs(self):
        o = super().obs()
        o["waiting"] = sorted(q[0] for q in self.queue)
        return o


class BatchModel(BaseModel):
    """Whole batches arrive; the size is the answer to one uniform draw."""

    EDGE = 1e-7

    def events(self):
        ev = []
        lo = 0.0
        for i, q in enumerate(self.cfg["batch"]):
            if q > 0:
                ev.append(("arr", i + 1, "lo"))
                ev.append(("arr", i + 1, "hi"))
        return ev + [("srv", b[2]) for b in self.busy]

    def default(self, k, evs):
        nb = len(evs) - len(self.busy)
        if k % 4 == 0 or not self.busy:
            return (k * 5 // 4) % nb
        return nb + k % len(self.busy)

    def fire(self, ev, t):
        if ev[0] != "arr":
            return super().fire(ev, t)
        self.advance(t)
        was_full = len(self.busy) == self.n
        self.clk.fire(self.src, t)
        self.src = self.clk.start(SRC, t)
        q = self.cfg["batch"]
        lo, hi = sum(q[:ev[1] - 1]), sum(q[:ev[1]])
        u = lo + self.EDGE if ev[2] == "lo" else hi - self.EDGE
        self.clk.value("gu", u)
        self.clk.value("u", u)
        for _ in range(ev[1]):
            self.arrive()
        if len(self.busy) == self.n and not was_full:
            self.full_since = t
