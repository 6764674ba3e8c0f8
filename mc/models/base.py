"""Operational reference model of GI/G/n and GI/G/n/r, optionally with warm-up,
cooling and delayed cooling.  Written independently of the simulator: jobs wait in
one FIFO line, a job starts as soon as the station is on and a server is free."""
from ..explore import Clocks, Moments

SRC = ("N", 1.0)
SRV = ("N", 2.0)
WARM = ("N", 3.0)
COLD = ("N", 4.0)
DELAY = ("N", 5.0)


class BaseModel:
    def __init__(self, cfg):
        self.cfg = cfg
        self.n = cfg["n"]
        self.buf = cfg.get("buffer")
        self.warm_set = cfg.get("warm", False)
        self.cold_set = cfg.get("cold", False)
        self.delay_set = cfg.get("delay", False)
        self.clk = Clocks()
        self.t = 0.0
        self.queue = []          # (arrival time, job number)
        self.busy = []           # (clock, arrival time, job number), in order of start
        self.phase = None        # None (off or serving) | 'warm' | 'cold' | 'delay'
        self.phase_clock = None
        self.phase_since = 0.0
        self.starts = {"warm": 0, "cold": 0, "delay": 0}
        self.warm_after_cold = self.zero_wait = 0
        self.phase_time = {"warm": 0.0, "cold": 0.0, "delay": 0.0}
        self.arrived = self.taken = self.served = self.dropped = 0
        self.time_in = {}
        self.w = Moments()
        self.v = Moments()
        self.pp = Moments()
        self.full_since = None
        self.src = self.clk.start(SRC, 0.0)

    # ---- state -----------------------------------------------------------
    def in_sys(self):
        return len(self.queue) + len(self.busy)

    def events(self):
        ev = [("arr",)]
        for i in range(len(self.busy)):
            ev.append(("srv", self.busy[i][2]))
        if self.phase is not None:
            ev.append((self.phase,))
        return ev

    def default(self, k, evs):
        """default policy of the deviation-bounded mode: alternate bursts that fill
        the station with drains that empty it."""
        pol = self.cfg.get("policy", "burst")
        if pol == "burst":
            period = 4 * self.n + 4
            filling = (k % (2 * period)) < period
            if self.phase is not None and k % 3 == 2:
                return len(evs) - 1
            return 0 if filling or len(evs) == 1 else 1 + (k % (len(evs) - 1))
        if pol == "fill":
            period = self.n + (self.cfg["fill"] if self.buf is None else self.buf) + 4
            if k % (2 * period) < period or len(evs) == 1:
                return 0
            return 1 + (k % (len(evs) - 1))
        if pol == "steady":
            return 0 if (k % 2 == 0 or len(evs) == 1) else 1
        return 0

    def key(self):
        return (len(self.queue), tuple(j for _, _, j in self.busy), self.phase,
                self.arrived, self.served, self.dropped)

    # ---- transitions -----------------------------------------------------
    def advance(self, t):
        j = self.in_sys()
        self.time_in[j] = self.time_in.get(j, 0.0) + (t - self.t)
        self.t = t

    def begin_phase(self, name):
        self.phase = name
        self.starts[name] += 1
        self.phase_since = self.t
        self.phase_clock = self.clk.start({"warm": WARM, "cold": COLD, "delay": DELAY}[name], self.t)

    def end_phase(self, fired):
        self.phase_time[self.phase] += self.t - self.phase_since
        (self.clk.fire if fired else self.clk.cancel)(self.phase_clock, self.t)
        self.phase = None

    def start_job(self, arr, num):
        self.taken += 1
        self.w.add(self.t - arr)
        self.busy.append((self.clk.start(SRV, self.t), arr, num))

    def fill(self):
        while self.queue and len(self.busy) < self.n:
            self.start_job(*self.queue.pop(0))

    def fire(self, ev, t):
        self.advance(t)
        was_full = len(self.busy) == self.n
        if ev[0] == "arr":
            self.clk.fire(self.src, t)
            self.src = self.clk.start(SRC, t)
            self.arrive()
        elif ev[0] == "srv":
            i = next(i for i, b in enumerate(self.busy) if b[2] == ev[1])
            c, arr, _ = self.busy.pop(i)
            self.clk.fire(c, t)
            self.served += 1
            self.v.add(t - arr)
            self.departed()
        else:
            self.end_phase(True)
            self.phase_over(ev[0])
        # a period of full occupancy
        full = len(self.busy) == self.n
        if full and not was_full:
            self.full_since = t
        if was_full and not full:
            self.pp.add(t - self.full_since)

    def arrive(self):
        self.arrived += 1
        num = self.arrived
        if self.phase in ("warm", "cold"):
            self.enqueue(num)
        elif self.phase == "delay":
            self.end_phase(False)
            self.zero_wait += 1
            self.start_job(self.t, num)
        elif len(self.busy) == self.n:
            self.enqueue(num)
        elif self.warm_set and not self.busy:
            self.begin_phase("warm")
            self.enqueue(num)
        else:
            self.zero_wait += 1
            self.start_job(self.t, num)

    def enqueue(self, num):
        if self.buf is not None and len(self.queue) >= self.buf:
            self.dropped += 1
        else:
            self.queue.append((self.t, num))

    def departed(self):
        if self.queue:
            self.fill()
        elif not self.busy and self.cold_set:
            self.begin_phase("delay" if self.delay_set else "cold")

    def phase_over(self, name):
        if name == "warm":
            self.fill()
        elif name == "delay":
            self.begin_phase("cold")
        elif self.queue:
            if self.warm_set:
                self.warm_after_cold += 1
                self.begin_phase("warm")
            else:
                self.fill()

    # ---- observation -----------------------------------------------------
    def obs(self):
        o = {"now": self.t, "arrived": self.arrived, "started": self.taken, "served": self.served,
             "dropped": self.dropped, "in_system": self.in_sys(), "queue": len(self.queue),
             "in_service": sorted(b[1] for b in self.busy),
             "v": self.v.get() if self.served else None,
             "w": self.w.get() if self.taken else None}
        m = max(self.time_in) + 3 if self.time_in else 3
        o["p"] = [self.time_in.get(j, 0.0) / self.t for j in range(m)]
        o["p_total"] = 1.0
        o["busy_period"] = self.pp.get() if self.pp.xs else None
        if self.warm_set or self.cold_set:
            o["counts"] = [self.starts["warm"], self.starts["cold"], self.warm_after_cold, self.zero_wait]
            for k, ok in (("warm", self.warm_set), ("cold", self.cold_set), ("delay", self.delay_set)):
                if ok:
                    o["prob_" + k] = self.phase_time[k] / self.t if self.phase != k else None
        return o
