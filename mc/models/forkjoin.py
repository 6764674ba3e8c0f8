"""Reference models of the fork-join / split-join simulators."""
from ..explore import Clocks, Moments
from .base import SRC, SRV


class _Common:
    def __init__(self, cfg):
        self.cfg = cfg
        self.n, self.k = cfg["n"], cfg["k"]
        self.clk = Clocks()
        self.t = self.t_next = 0.0
        self.src = self.clk.start(SRC, 0.0)
        self.arrived = self.served = 0
        self.left = {}              # job -> subtasks still needed for completion
        self.came = {}
        self.time_in = {}
        self.v = Moments()

    def advance(self, t):
        j = len(self.left)
        self.time_in[j] = self.time_in.get(j, 0.0) + (t - self.t)
        self.t = t

    def one_done(self, job):
        """One more subtask of the job is complete; True if this completes the job."""
        if job not in self.left:
            return False
        self.left[job] -= 1
        if self.left[job]:
            return False
        del self.left[job]
        self.served += 1
        self.v.add(self.t - self.came[job])
        return True

    def obs(self):
        m = max(self.time_in, default=0) + 3
        return {"now": self.t, "arrived": self.arrived, "served": self.served, "in_system": len(self.left),
                "p": [self.time_in.get(j, 0.0) / self.t for j in range(m)], "p_total": 1.0,
                "busy": self.busy_count(), "v": self.v.get() if self.served else None}


class ForkJoinModel(_Common):
    """cfg['mode']: 'FJ', 'PURGE' or 'SJ'.  Channel i owns the stream ('S', i)."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.srv = [None] * self.n      # (clock, job)
        self.line = [[] for _ in range(self.n)]
        self.jobs = []                  # split-join: jobs waiting

    def busy_count(self):
        return sum(1 for s in self.srv if s)

    def events(self):
        return [("arr",)] + [("srv", i) for i in range(self.n) if self.srv[i]]

    def default(self, k, evs):
        if len(evs) == 1 or k % (2 * self.n + 2) < 2:
            return 0
        return 1 + (k * 3) % (len(evs) - 1)

    def key(self):
        return (tuple(s and s[1] for s in self.srv), tuple(map(tuple, self.line)), tuple(self.jobs),
                tuple(sorted(self.left.items())), self.arrived)

    def begin(self, i, job):
        self.srv[i] = (self.clk.start(("S", i), self.t), job)

    def next_of(self, i):
        if self.line[i]:
            self.begin(i, self.line[i].pop(0))

    def fire(self, ev, t):
        self.advance(t)
        sj = self.cfg["mode"] == "SJ"
        if ev[0] == "arr":
            self.clk.fire(self.src, t)
            self.src = self.clk.start(SRC, t)
            job = self.arrived
            self.arrived += 1
            self.came[job] = t
            self.left[job] = self.n if sj else self.k
            if sj:
                if len(self.left) > 1:
                    self.jobs.append(job)
                else:
                    for i in range(self.n):
                        self.begin(i, job)
                return
            for i in range(self.n):
                if self.srv[i]:
                    self.line[i].append(job)
                else:
                    self.begin(i, job)
            return
        i = ev[1]
        c, job = self.srv[i]
        self.clk.fire(c, t)
        self.srv[i] = None
        done = self.one_done(job)
        if sj:
            if done and self.jobs:
                nxt = self.jobs.pop(0)
                for i in range(self.n):
                    self.begin(i, nxt)
            return
        if done and self.cfg["mode"] == "PURGE":
            for q in range(self.n):
                self.line[q] = [x for x in self.line[q] if x != job]
                if self.srv[q] and self.srv[q][1] == job:
                    self.clk.cancel(self.srv[q][0], t)
                    self.srv[q] = None
                    self.next_of(q)
        self.next_of(i)


class DeltaModel(_Common):
    """cfg['sj'], cfg['delta']: a number (fixed delay) or 'random'."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.busy = []       # (clock, job, subtask)
        self.line = []       # (job, subtask)
        self.pending = []    # (clock or release time, job, subtask)
        self.holder = None

    def busy_count(self):
        return len(self.busy)

    def fixed(self):
        return not isinstance(self.cfg["delta"], str)

    def events(self):
        if self.fixed() and self.pending:
            nxt = min(self.pending)
            if nxt[0] <= self.t_next + 1e-9:
                self.t_next = nxt[0]        # a release is due before anything else
                return [("rel", nxt[1], nxt[2])]
        ev = [("arr",)] + [("srv", b[1], b[2]) for b in self.busy]
        if not self.fixed():
            ev += [("rel", q[1], q[2]) for q in self.pending]
        return ev

    def default(self, k, evs):
        if len(evs) == 1 or k % (2 * self.k + 1) < 2:
            return 0
        return 1 + (k * 3) % (len(evs) - 1)

    def key(self):
        return (tuple((b[1], b[2]) for b in self.busy), tuple(self.line), tuple((q[1], q[2]) for q in self.pending),
                tuple(sorted(self.left.items())), self.arrived)

    def begin(self, job, i):
        self.busy.append((self.clk.start(SRV, self.t), job, i))

    def release(self, job, i):
        if self.cfg["sj"]:
            if self.holder is None:
                self.holder = job
            if self.holder == job and len(self.busy) < self.n:
                self.begin(job, i)
            else:
                self.line.append((job, i))
        elif len(self.busy) < self.n:
            self.begin(job, i)
        else:
            self.line.append((job, i))

    def fill(self):
        for x in list(self.line):
            if len(self.busy) == self.n:
                return
            if not self.cfg["sj"] or x[0] == self.holder:
                self.line.remove(x)
                self.begin(*x)

    def fire(self, ev, t):
        self.advance(t)
        if ev[0] == "arr":
            self.clk.fire(self.src, t)
            self.src = self.clk.start(SRC, t)
            job = self.arrived
            self.arrived += 1
            self.came[job] = t
            self.left[job] = self.k
            self.release(job, 0)
            for i in range(1, self.k):
                due = t + i * self.cfg["delta"] if self.fixed() else self.clk.start(delta_label(i), t)
                self.pending.append((due, job, i))
        elif ev[0] == "rel":
            q = next(q for q in self.pending if q[1:] == ev[1:])
            self.pending.remove(q)
            if not self.fixed():
                self.clk.fire(q[0], t)
            self.release(ev[1], ev[2])
        else:
            b = next(b for b in self.busy if b[1:] == ev[1:])
            self.busy.remove(b)
            self.clk.fire(b[0], t)
            if self.one_done(ev[1]) and self.cfg["sj"]:
                self.holder = self.line[0][0] if self.line else None
            self.fill()


DELTA = [0.8, 0.9]           # first two moments of one random delay


def delta_label(i):
    """i delays in a row, as a gamma law with their mean and variance."""
    mean, var = i * DELTA[0], i * (DELTA[1] - DELTA[0] ** 2)
    return ("G", round(mean * mean / var, 6), round(var / mean, 6))
