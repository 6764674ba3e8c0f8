"""Reference model of the priority simulator (No, NP, PR, RS, RW)."""
import itertools

from ..explore import Clocks, Moments

PREEMPT = ("PR", "RS", "RW")


def A(k):
    return ("N", 10.0 + k)


def S(k):
    return ("N", 20.0 + k)


def W(k):
    return ("N", 30.0 + k)


class Job:
    __slots__ = ("num", "k", "arr", "clock", "line_since", "waited", "tried", "begun",
                 "real", "entered", "waited_net")


class PriorityModel:
    def __init__(self, cfg, clk=None):
        self.cfg = cfg
        self.n, self.k, self.disc = cfg["n"], cfg["k"], cfg["disc"]
        self.buf = cfg.get("buffer")
        self.victim, self.rsdraw = cfg.get("victim", "first"), cfg.get("rsdraw", "preempt")
        self.warm = cfg.get("warm", False)
        self.clk = clk or Clocks()
        self.t = 0.0
        self.t_next = 0.0
        k = self.k
        self.lines = [[] for _ in range(k)]
        self.fifo = []
        self.srv = [None] * self.n
        self.arrived, self.served, self.dropped, self.taken = [0] * k, [0] * k, [0] * k, [0] * k
        self.time_in = [{} for _ in range(k)]
        self.last = [0.0] * k
        self.v = [Moments() for _ in range(k)]
        self.w = [Moments() for _ in range(k)]
        self.seq = 0
        self.planned = None
        self.src = [self.clk.start(A(i), 0.0) for i in range(k)] if clk is None else []

    def law(self, j):
        return S(j.k)

    # -- state
    def waiting(self):
        return len(self.fifo) + sum(map(len, self.lines))

    def count(self, c):
        return (sum(1 for s in self.srv if s and s.k == c) + len(self.lines[c])
                + sum(1 for j in self.fifo if j.k == c))

    def events(self):
        return [("arr", c) for c in range(self.k)] + self.ends()

    def ends(self):
        ev = []
        for s in self.srv:
            if s is None:
                continue
            # under RW the time needed is one number: a run shorter than an earlier,
            # interrupted one cannot be complete
            if self.disc == "RW" and s.tried and self.t_next - s.clock.since <= s.tried:
                continue
            ev.append(("srv", s.num))
        return ev

    @staticmethod
    def plan(cfg):
        """Every order of the classes: fill the station past its buffer with one, two or three jobs of each class in turn,
        then empty it, wholly or by half, by the oldest or the newest busy channel."""
        out = []
        n = cfg["n"] + (cfg.get("buffer") or 0) + cfg["k"] + 1
        for i, perm in enumerate(itertools.permutations(range(cfg["k"]))):
            for block in (1, 2, 3):
                out += [perm[(j // block) % cfg["k"]] for j in range(n)]
                out += [-1 - (i + block) % 2] * (n if (i + block) % 3 else n // 2)
        return out

    def default(self, k, evs):
        ns = len(evs) - self.k
        if self.cfg.get("policy") == "orders":
            if self.planned is None:
                self.planned = self.plan(self.cfg)
            c = self.planned[k % len(self.planned)]
            if c >= 0 or ns == 0:
                return max(c, 0)
            return self.k if c == -1 else len(evs) - 1
        if k % 5 < 3 or ns == 0:
            return (self.k - 1 - (k // 2)) % self.k
        return self.k + k % ns

    def key(self):
        return (tuple(tuple(j.num for j in q) for q in self.lines), tuple(j.num for j in self.fifo),
                tuple(sorted(s.num for s in self.srv if s)), tuple(self.arrived), tuple(self.served))

    # -- transitions
    def account(self, c):
        j = self.count(c)
        self.time_in[c][j] = self.time_in[c].get(j, 0.0) + self.t - self.last[c]
        self.last[c] = self.t

    def fire(self, ev, t):
        self.t = t
        if ev[0] == "arr":
            c = ev[1]
            self.clk.fire(self.src[c], t)
            self.account(c)
            self.src[c] = self.clk.start(A(c), t)
            j = Job()
            j.num, j.k, j.arr, j.clock, j.waited, j.tried = sum(self.arrived), c, t, None, 0.0, 0.0
            j.line_since = t
            self.arrived[c] += 1
            self.arrive(j)
        else:
            self.complete(ev[1])

    def complete(self, num):
        i = next(i for i, s in enumerate(self.srv) if s and s.num == num)
        j = self.srv[i]
        self.clk.fire(j.clock, self.t)
        self.account(j.k)
        self.srv[i] = None
        self.finish(j)
        self.fill(i)
        return j

    def finish(self, j):
        self.served[j.k] += 1
        self.v[j.k].add(self.t - j.arr)
        self.w[j.k].add(j.waited)

    def start(self, i, j, law=None):
        self.srv[i] = j
        j.waited += self.t - j.line_since
        self.taken[j.k] += 1
        if j.clock is None:
            j.clock = self.clk.start(law or self.law(j), self.t)
        else:
            self.clk.resume(j.clock, self.t)
        j.begun = self.seq
        self.seq += 1

    def fill(self, i):
        if self.disc == "No":
            if self.fifo:
                self.start(i, self.fifo.pop(0))
            return
        for q in self.lines:
            if q:
                self.start(i, q.pop(0))
                return

    def arrive(self, j):
        free = [i for i in range(self.n) if self.srv[i] is None]
        if free:
            law = W(j.k) if self.warm and len(free) == self.n else None
            self.start(free[0], j, law)
            return
        if self.disc in PREEMPT:
            worst = max(s.k for s in self.srv)
            if worst > j.k:
                cand = [i for i in range(self.n) if self.srv[i].k == worst]
                i = {"first": lambda: cand[0], "last": lambda: cand[-1],
                     "newest": lambda: max(cand, key=lambda i: self.srv[i].begun),
                     "oldest": lambda: min(cand, key=lambda i: self.srv[i].begun)}[self.victim]()
                self.preempt(i)
                self.start(i, j)
                return
        if self.buf is not None and self.waiting() >= self.buf:
            self.dropped[j.k] += 1
        elif self.disc == "No":
            self.fifo.append(j)
        else:
            self.lines[j.k].append(j)

    def preempt(self, i):
        j = self.srv[i]
        self.srv[i] = None
        c = j.clock
        ran = self.t - c.since
        if self.disc == "PR":
            self.clk.pause(c, self.t)
        elif self.disc == "RW":
            j.tried = max(j.tried, ran)
            self.clk.pause(c, self.t)
            c.acc = 0.0
        else:
            self.clk.cancel(c, self.t)
            j.clock = None
            if self.rsdraw == "preempt":
                j.clock = self.clk.start(self.law(j), self.t)
                self.clk.pause(j.clock, self.t)
        j.line_since = self.t
        self.lines[j.k].insert(0, j)

    # -- observation
    def obs(self):
        k = self.k
        o = {"now": self.t, "arrived": list(self.arrived), "served": list(self.served),
             "dropped": list(self.dropped), "in_system": [self.count(c) for c in range(k)],
             "queue": [len(self.fifo)] if self.disc == "No" else [len(q) for q in self.lines],
             "in_service": sorted((s.k, s.arr) for s in self.srv if s)}
        if self.disc in ("No", "NP"):
            o["started"] = list(self.taken)
        for c in range(k):
            o["v%d" % c] = self.v[c].get() if self.served[c] else None
            o["w%d" % c] = self.w[c].get() if self.served[c] else None
            m = max(self.time_in[c], default=0) + 3
            closed = [self.time_in[c].get(j, 0.0) / self.t for j in range(m)]
            o["p%d" % c] = closed
            # the interval that is still open for this class may or may not be included
            full = list(closed) + [0.0] * 3
            full[self.count(c)] += (self.t - self.last[c]) / self.t
            o["_p%d" % c] = full
        return o


class NodeModel(PriorityModel):
    """One node of a network: class numbers are the node's own priority positions."""

    def __init__(self, cfg, node, clk):
        self.node = node
        super().__init__(cfg, clk)

    def law(self, j):
        return ("N", 100.0 * (self.node + 1) + j.real)


class NetModel:
    """cfg: nodes (channels), disc per node, prty[m][class] = priority of the class in node m,
    R[class] = (external row, rows per node) of probabilities of the nodes and, last, the exit."""

    EDGE = 1e-7

    def __init__(self, cfg):
        self.cfg = cfg
        self.clk = Clocks()
        self.t = self.t_next = 0.0
        self.K = cfg["k"]
        self.M = len(cfg["nodes"])
        self.nodes = [NodeModel(dict(cfg, n=cfg["nodes"][m], disc=cfg["disc"][m], buffer=None), m, self.clk)
                      for m in range(self.M)]
        self.src = [self.clk.start(("X", 1.0 + k), 0.0) for k in range(self.K)]
        self.arrived, self.served = [0] * self.K, [0] * self.K
        self.v = [Moments() for _ in range(self.K)]
        self.w = [Moments() for _ in range(self.K)]

    def row(self, k, m):
        return self.cfg["R"][k][m + 1]

    def dests(self, k, m):
        return [i for i, q in enumerate(self.row(k, m)) if q > 0]

    def events(self):
        ev = [("arr", k, d) for k in range(self.K) for d in self.dests(k, -1)]
        for m, node in enumerate(self.nodes):
            node.t_next = self.t_next
            for e in node.ends():
                j = next(s for s in node.srv if s and s.num == e[1])
                ev += [("srv", m, e[1], d) for d in self.dests(j.real, m)]
        return ev

    def default(self, k, evs):
        na = sum(1 for e in evs if e[0] == "arr")
        if k % 3 == 0 or na == len(evs):
            return (k * 2) % na
        return na + (k * 5) % (len(evs) - na)

    def key(self):
        return tuple(n.key() for n in self.nodes) + (tuple(self.arrived), tuple(self.served))

    def route(self, k, m, d):
        q = self.row(k, m)
        u = sum(q[:d]) + self.EDGE if self.clk.step % 2 else sum(q[:d + 1]) - self.EDGE
        self.clk.value("gu", u)
        self.clk.value("u", u)

    def enter(self, j, m):
        node = self.nodes[m]
        node.t = self.t
        j.k = self.cfg["prty"][m][j.real]
        j.arr, j.clock, j.waited, j.tried, j.line_since = self.t, None, 0.0, 0.0, self.t
        node.account(j.k)
        node.arrived[j.k] += 1
        node.arrive(j)

    def fire(self, ev, t):
        self.t = t
        if ev[0] == "arr":
            k = ev[1]
            self.clk.fire(self.src[k], t)
            self.src[k] = self.clk.start(("X", 1.0 + k), t)
            j = Job()
            j.num, j.real, j.entered, j.waited_net = sum(self.arrived), k, t, 0.0
            self.arrived[k] += 1
            self.route(k, -1, ev[2])
            self.enter(j, ev[2])
            return
        _, m, num, d = ev
        node = self.nodes[m]
        node.t = t
        j = node.complete(num)
        j.waited_net += j.waited
        self.route(j.real, m, d)
        if d == self.M:
            self.served[j.real] += 1
            self.v[j.real].add(t - j.entered)
            self.w[j.real].add(j.waited_net)
        else:
            self.enter(j, d)

    def obs(self):
        o = {"now": self.t, "arrived": list(self.arrived), "served": list(self.served),
             "in_network": [a - s for a, s in zip(self.arrived, self.served)]}
        for m, node in enumerate(self.nodes):
            o["node%d" % m] = [node.count(c) for c in range(self.K)]
            o["node%d_served" % m] = list(node.served)
            for c in range(self.K):
                if node.served[c]:
                    o["node%d_v%d" % (m, c)] = node.v[c].get()
        for k in range(self.K):
            o["v%d" % k] = self.v[k].get() if self.served[k] else None
            o["w%d" % k] = self.w[k].get() if self.served[k] else None
        return o
