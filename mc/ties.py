"""
Simultaneous events.  The explorer (explore.py) uses generic times; here all durations are small integers,
so that events coincide all the time, as they do with deterministic laws.  The order of simultaneous events is
not specified: the model may take any of them first, and the set of model states that agree with everything
observed so far is tracked (subset construction).  A history of the real simulator that no order explains is a
violation.  Every assignment of the first durations of every stream is explored.
"""
import itertools
import math
import pickle

from . import explore, seam
from .models import base, forkjoin, priority, variants
from .report import Acc, CaseTimeout, pmap, time_limit


class Infeasible(Exception):
    pass


class Table:
    """(stream, number) -> value, for the model and for the real code alike."""

    def __init__(self, streams, bits):
        self.vals = {}
        bits = list(bits)
        for label, values, free in streams:
            self.vals[label] = (values, [bits.pop(0) for _ in range(free)])

    def get(self, label, i):
        if label == "gu":
            label = "u"
        if label not in self.vals:
            raise seam.SeamError("draw from unknown stream %r" % (label,))
        values, fixed = self.vals[label]
        return values[fixed[i] if i < len(fixed) else (i * 5 + len(str(label))) // 3 % len(values)]


NOW = None      # the table of the history that is being explored


class Script(seam.Script):
    def draw(self, label):
        if label == "gu":
            label = "u"
        i = self.pos.get(label, 0)
        self.pos[label] = i + 1
        return NOW.get(label, i)


class Clocks(explore.Clocks):
    """Clocks that know their duration and can only expire on time."""

    def start(self, stream, t):
        i = len(self.draws.get(stream, ()))
        c = super().start(stream, t)
        c.elapsed = float(NOW.get(stream, i))       # the full duration
        return c

    def due(self, c):
        return c.since + c.elapsed - c.acc

    def fire(self, c, t):
        if abs(self.due(c) - t) > 1e-9:
            raise Infeasible
        c.acc += t - c.since
        c.state = "done"

    def next(self):
        return min((self.due(c) for q in self.draws.values() for c in q
                    if isinstance(c, explore.Clock) and c.state == "run"), default=math.inf)


class _Forward:
    def __init__(self, cfg):
        keep, explore.Clocks = explore.Clocks, Clocks
        mods = (base, variants, priority, forkjoin)
        for m in mods:
            m.Clocks = Clocks
        try:
            super().__init__(cfg)
        finally:
            explore.Clocks = keep
            for m in mods:
                m.Clocks = keep

    def next_time(self):
        return self.clk.next()


class Base(_Forward, base.BaseModel):
    pass


class Finite(_Forward, variants.FiniteModel):
    pass


class Impatient(_Forward, variants.ImpatientModel):
    pass


class Batch(_Forward, variants.BatchModel):
    def fire(self, ev, t):
        if ev[0] == "arr":
            q = self.cfg["batch"]
            u = NOW.get("u", len(self.clk.draws.get("u", ())))
            if ev[2] != "lo" or not sum(q[:ev[1] - 1]) < u <= sum(q[:ev[1]]):
                raise Infeasible
        super().fire(ev, t)


class _Known:
    def preempt(self, i):
        j = self.srv[i]
        super().preempt(i)
        j.tried = 0.0            # durations are known, nothing to infer from interrupted runs


class Priority(_Known, _Forward, priority.PriorityModel):
    pass


class Node(_Known, priority.NodeModel):
    pass


class Net(_Forward, priority.NetModel):
    def __init__(self, cfg):
        keep, priority.NodeModel = priority.NodeModel, Node
        try:
            super().__init__(cfg)
        finally:
            priority.NodeModel = keep

    def route(self, k, m, d):
        q = self.row(k, m)
        u = NOW.get("u", len(self.clk.draws.get("u", ())))
        if not sum(q[:d]) < u <= sum(q[:d + 1]):
            raise Infeasible
        super().route(k, m, d)


class ForkJoin(_Forward, forkjoin.ForkJoinModel):
    pass


class Delta(_Forward, forkjoin.DeltaModel):
    def next_time(self):
        t = self.clk.next()
        return min([t] + [q[0] for q in self.pending]) if self.fixed() else t

    def events(self):
        return [("arr",)] + [("srv", b[1], b[2]) for b in self.busy] + [("rel", q[1], q[2]) for q in self.pending]

    def fire(self, ev, t):
        if ev[0] == "rel" and self.fixed():
            q = next(q for q in self.pending if q[1:] == ev[1:])
            if abs(q[0] - t) > 1e-9:
                raise Infeasible
        super().fire(ev, t)


CLASSES = {base.BaseModel: Base, variants.FiniteModel: Finite, variants.ImpatientModel: Impatient,
           variants.BatchModel: Batch, priority.PriorityModel: Priority, priority.NetModel: Net,
           forkjoin.ForkJoinModel: ForkJoin, forkjoin.DeltaModel: Delta}


def streams(cls, cfg, x):
    """[(label, values, number of free draws)] of a configuration; x: more free draws."""
    n = cfg.get("n", 1)
    arr, srv = (1.0, 2.0), (float(n), n + 1.0)
    if cls in (Base, Impatient, Batch, Finite):
        if cls is Finite:
            arr = (1.0, 2.0)
        out = [(base.SRC, arr, 4 + x), (base.SRV, srv, 4)]
        for k, lab in (("warm", base.WARM), ("cold", base.COLD), ("delay", base.DELAY)):
            if cfg.get(k):
                out.append((lab, (1.0, 2.0), 2))
        if cls is Impatient:
            out.append((variants.PAT, (1.0, 2.0), 3))
        if cls is Batch:
            q = cfg["batch"]
            mid = [sum(q[:i]) + q[i] / 2 for i in range(len(q)) if q[i]]
            out = [(base.SRC, (2.0, 3.0), 2 + x), (base.SRV, srv, 4), ("u", tuple((mid + mid)[:2] if len(mid) < 3 else (mid[0], mid[-1])), 2)]
        return out
    if cls is Priority:
        k = cfg["k"]
        return [(priority.A(i), (1.0 + i, 2.0 + i), 2 + (i == 0) * x) for i in range(k)] + \
               [(priority.S(i), (float(n), n + 2.0 - (i == 0)), 2) for i in range(k)] + \
               ([(priority.W(i), (1.0, 3.0), 1) for i in range(k)] if cfg.get("warm") else [])
    if cls is Net:
        return [(("X", 1.0 + k), (1.0 + k, 3.0), 2) for k in range(cfg["k"])] + \
               [(("N", 100.0 * (m + 1) + k), (1.0, 2.0), 1 + x) for m in range(len(cfg["nodes"])) for k in range(cfg["k"])] + \
               [("u", (0.21, 0.83), 2)]
    if cls is ForkJoin:
        return [(base.SRC, (1.0, 2.0), 3 + x)] + [(("S", i), (1.0, 2.0), 2) for i in range(n)]
    out = [(base.SRC, (1.0, 2.0), 3 + x), (base.SRV, (1.0, 2.0), 5)]
    if isinstance(cfg["delta"], str):
        out += [(forkjoin.delta_label(i), (1.0, 2.0), 1) for i in range(1, cfg["k"])]
    return out


def history(adapter, cls, fields, cfg, bits, table, steps, acc):
    """One history of the real code against the set of all orders."""
    global NOW
    NOW = table
    name = adapter.name(cfg) + " simultaneous"
    seam.set_script(Script())
    states = {b"": pickle.dumps(cls(cfg), -1)}
    labels, step = [], 0
    rep = {"ties": {"cfg": cfg, "bits": list(bits), "steps": steps}}
    try:
        with time_limit(60):
            sim = adapter.make(cfg)
            for step in range(steps):
                adapter.step(sim, cfg)
                nxt, best, seen = {}, None, {}
                for blob in states.values():
                    m = pickle.loads(blob)
                    t = m.next_time()
                    m.t_next = t
                    for ev in m.events():
                        c = pickle.loads(blob)
                        c.t_next = t
                        try:
                            c.fire(ev, t)
                        except Infeasible:
                            continue
                        acc.add("model_steps")
                        exp = c.obs()
                        if fields:
                            exp = {k: v for k, v in exp.items() if k in fields}
                        got = adapter.observe(sim, cfg, exp)
                        bad = [f for f in exp if not explore.same(exp[f], got.get(f))]
                        if not bad:
                            b2 = pickle.dumps(c, -1)
                            nxt[b2] = b2
                            seen[ev] = 1
                        elif best is None or len(bad) < len(best[0]):
                            best = bad, ev, exp, got
                acc.add("steps")
                if not nxt:
                    bad, ev, exp, got = best
                    f = bad[0]
                    acc.violation("%s:%s" % (name, f),
                                  "%s, after event %d (durations %s): no order of the simultaneous events explains the history; "
                                  "closest is %s, where %s is %s, must be %s" % (
                                      name, step + 1, {str(k): [table.get(k, i) for i in range(len(v[1]) + 1)] for k, v in table.vals.items()},
                                      explore._lab(ev), f, explore._short(got.get(f)), explore._short(exp[f])), rep)
                    acc.add("failed_schedules")
                    return
                acc.add("tie_branches", len(nxt))
                if len(nxt) > 300:
                    acc.add("histories_cut_short")
                    break
                states = nxt
            acc.add("validated")
            acc.add("tie_histories")
            return
    except CaseTimeout as e:
        err = "does not return: %s" % e
    except seam.SeamError as e:
        err = "draws from a stream it does not own: %s" % e
    except Exception as e:
        err = "raises %s: %s" % (type(e).__name__, e)
    finally:
        seam.set_script(None)
    acc.violation("%s:exception" % name, "%s, event %d: %s" % (name, step + 1, err), rep)
    acc.add("failed_schedules")


def work(adapter, factory, task):
    cfg, x, steps, head = task
    cls = CLASSES[getattr(factory, "cls", factory)]
    fields = getattr(factory, "fields", None)
    st = streams(cls, cfg, x)
    n = sum(f for _, _, f in st) - len(head)
    acc = Acc()
    for tail in itertools.product((0, 1), repeat=n):
        bits = tuple(head) + tail
        history(adapter, cls, fields, cfg, bits, Table(st, bits), steps, acc)
        if acc.n.get("failed_schedules", 0) >= 4:
            acc.add("tasks_cut_short_by_failures")
            break
    return acc


def explore_ties(adapter, factory, jobs):
    """jobs: (cfg, extra free draws, steps)"""
    tasks = [(cfg, x, steps, head) for cfg, x, steps in jobs for head in itertools.product((0, 1), repeat=3)]
    return pmap(lambda t: work(adapter, factory, t), tasks)


def replay(adapter, factory, rep):
    r = rep["ties"]
    cls = CLASSES[getattr(factory, "cls", factory)]
    acc = Acc()
    cfg = tup(r["cfg"])
    st = streams(cls, cfg, len(r["bits"]) - sum(f for _, _, f in streams(cls, cfg, 0)))
    history(adapter, cls, getattr(factory, "fields", None), cfg, r["bits"], Table(st, r["bits"]), r["steps"], acc)
    for key, text, _ in acc.viol:
        print(key, text)
    print("reproduced" if acc.viol else "not reproduced")
    return 1 if acc.viol else 0


def tup(x):
    if isinstance(x, dict):
        return {k: tup(v) for k, v in x.items()}
    return tuple(tup(y) for y in x) if isinstance(x, list) else x
