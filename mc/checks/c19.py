"""C19: a simulation can be stopped, looked at and resumed.  Every history of draws (two values for each of
the first draws) is explored for every kind of simulator; for each history every way to cut the run into
portions, every moment of looking at the results, every order of the setup calls, and every schedule of two
simulators that live side by side, must give the history of the uninterrupted run."""
import itertools
import time

from .. import seam
from ..report import Acc, finish, pmap
from ..simadapt import _Scripted, _exp_generate
from . import thcommon as th

ARR, SRV = [1.0, 0.1], [2.0, 0.1]


class Tree(seam.Script):
    """Answers of the first draws are given by bits, in the order of the reference run; every stream has
    its own generic values."""

    def __init__(self, bits, slots=None):
        super().__init__()
        self.bits = bits
        self.slots = {} if slots is None else slots   # (stream, number) -> place in the reference run
        self.fixed = slots is not None

    def draw(self, label):
        i = self.pos.get(label, 0)
        self.pos[label] = i + 1
        if (label, i) not in self.slots and not self.fixed:
            self.slots[label, i] = len(self.slots)
        s = self.slots.get((label, i), 10 ** 6)
        name = label if isinstance(label, str) else label[0] + "%g" % label[1]
        h = sum((k + 3) * ord(ch) for k, ch in enumerate(name)) % 17
        bit = self.bits[s] if s < len(self.bits) else (i * 5 + h) // 3 % 2
        if isinstance(label, str):
            return (0.21, 0.73)[bit] + 0.0007 * ((i * 7 + h) % 11)
        arrival = label[0] == "X" or label[0] == "N" and (label[1] == 1.0 or 10 <= label[1] < 20)
        lo, hi = (0.31, 1.37) if arrival else (0.43, 2.09)
        return (lo, hi)[bit] + 0.0171 * h + 0.00371 * ((i * 7 + 3 * h) % 23)


class Kind:
    """How to build a simulator: constructor and setup calls."""

    def __init__(self, make, setters, after=None):
        self.make, self.setters, self.after = make, setters, after


def kinds():
    out = {}

    def base(**k):
        opts = {x: k[x] for x in ("buffer", "buffer_type") if x in k}

        def make():
            from most_queue.sim.qs_sim import QueueingSystemSimulator
            return QueueingSystemSimulator(k["n"], **opts)
        st = [("set_sources", (ARR, "Norm")), ("set_servers", (SRV, "Norm"))]
        for nm, m in (("warm", 3.0), ("cold", 4.0), ("cold_delay", 5.0)):
            if k.get(nm):
                st.append(("set_" + nm, ([m, 0.1], "Norm")))
        return Kind(make, st)
    for n in (1, 2):
        for buf in (None, 1):
            out["GI/G/%d/%s" % (n, buf)] = base(n=n, buffer=buf)
        out["GI/G/%d deque" % n] = base(n=n, buffer_type="deque")
        out["GI/G/%d warm" % n] = base(n=n, warm=1)
        out["GI/G/%d warm cold" % n] = base(n=n, warm=1, cold=1)
        out["GI/G/%d warm cold delay" % n] = base(n=n, warm=1, cold=1, cold_delay=1)

    def finite(n, m):
        def make():
            from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
            return QueueingFiniteSourceSim(n, m)
        return Kind(make, [("set_sources", (ARR, "Norm")), ("set_servers", (SRV, "Norm"))])

    def impatient(n):
        def make():
            from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
            return ImpatientQueueSim(n)
        return Kind(make, [("set_sources", (ARR, "Norm")), ("set_servers", (SRV, "Norm")), ("set_impatiens", ([6.0, 0.1], "Norm"))])

    def batch(n):
        def make():
            from most_queue.sim.batch_sim import QueueingSystemBatchSim
            return QueueingSystemBatchSim(n, [0.5, 0.0, 0.5])
        return Kind(make, [("set_sources", (ARR, "Norm")), ("set_servers", (SRV, "Norm"))])

    def fj(n, k, mode):
        def make():
            from most_queue.sim.fj_sim import ForkJoinSim
            return ForkJoinSim(n, k, is_SJ=mode == "SJ", is_Purge=mode == "PURGE")

        def after(sim):
            for i, s in enumerate(sim.servers):
                s.dist = _Scripted(("S", i))
        return Kind(make, [("set_sources", (ARR, "Norm")), ("set_servers", (SRV, "Norm"))], after)

    def delta(n, k, d, sj):
        def make():
            from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
            return ForkJoinSimDelta(n, k, d, is_SJ=sj)
        return Kind(make, [("set_sources", (ARR, "Norm")), ("set_servers", (SRV, "Norm"))])

    def prio(n, disc, warm, buf=None):
        def make():
            from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
            return PriorityQueueSimulator(n, 2, disc, buffer=buf)

        def par(x):
            return ([{"type": "Norm", "params": [x + i, 0.1]} for i in range(2)],)
        st = [("set_sources", par(10.0)), ("set_servers", par(20.0))]
        if warm:
            st.append(("set_warm_up", par(30.0)))
        return Kind(make, st)

    def net():
        def make():
            import numpy as np
            from most_queue import rand_distribution as rd
            from most_queue.sim.priority_network import PriorityNetwork
            rd.Exp_dist.generate = _exp_generate
            R = [np.matrix([[1.0, 0.0, 0.0], [0.0, 0.4, 0.6], [0.0, 0.0, 1.0]]),
                 np.matrix([[0.5, 0.5, 0.0], [0.0, 0.0, 1.0], [0.4, 0.0, 0.6]])]
            serv = [[{"type": "Norm", "params": [100.0 * (m + 1) + k, 0.1]} for k in range(2)] for m in range(2)]
            return PriorityNetwork(2, [1.0, 2.0], R, [1, 2], ["PR", "NP"], serv, [[1, 0], [0, 1]])
        return Kind(make, [])
    for n in (1, 2):
        out["finite n=%d m=3" % n] = finite(n, 3)
        out["impatient n=%d" % n] = impatient(n)
        out["batch n=%d" % n] = batch(n)
        for d in ("No", "NP", "PR", "RS", "RW"):
            out["priority %s n=%d" % (d, n)] = prio(n, d, False)
        out["priority NP warm-up n=%d" % n] = prio(n, "NP", True)
        out["priority PR warm-up n=%d" % n] = prio(n, "PR", True)
    out["priority NP n=1 buffer=1"] = prio(1, "NP", False, 1)
    for n, k, mode in ((2, 2, "FJ"), (3, 2, "FJ"), (3, 2, "PURGE"), (2, 2, "SJ"), (3, 3, "SJ")):
        out["fork-join %s n=%d k=%d" % (mode, n, k)] = fj(n, k, mode)
    out["delayed fork-join"] = delta(2, 2, 0.37, False)
    out["delayed split-join"] = delta(2, 2, 0.37, True)
    out["network"] = net()
    return out


def build(kind, order=None):
    sim = kind.make()
    for i in order or range(len(kind.setters)):
        name, args = kind.setters[i]
        getattr(sim, name)(*[list(a) if isinstance(a, list) else a for a in args])
    if kind.after:
        kind.after(sim)
    for s in [sim] + list(getattr(sim, "smos", ())):      # shorter tables of state probabilities
        if isinstance(getattr(s, "p", None), list) and hasattr(s, "num_of_states"):
            if s.p and isinstance(s.p[0], list):
                s.p = [x[:40] for x in s.p]
            elif len(s.p) > 40:
                s.p = s.p[:40]
            s.num_of_states = min(40, s.num_of_states)
    return sim


FIELDS = ("ttek", "arrived", "taked", "served", "dropped", "in_sys", "v", "w", "ppnz", "v_network", "w_network", "load", "time_to_next")
GETTERS = ("get_p", "get_warmup_prob", "get_cold_prob", "get_cold_delay_prob")


def plain(x):
    if isinstance(x, (list, tuple)):
        return tuple(plain(y) for y in x)
    if hasattr(x, "tolist"):
        return plain(x.tolist())
    if isinstance(x, (int, float, complex)) and not isinstance(x, bool):
        return complex(x)
    return repr(x)


def look(sim):
    """Everything a user can ask for."""
    o = {}
    for g in GETTERS:
        if hasattr(sim, g):
            try:
                o[g] = plain(getattr(sim, g)())
            except (AttributeError, ZeroDivisionError, TypeError) as e:
                o[g] = "raises " + type(e).__name__
    try:
        str(sim)                                 # what it prints is the subject of C38
    except Exception:
        pass
    for k, s in enumerate([sim] + list(getattr(sim, "smos", ()))):
        for f in FIELDS:
            if hasattr(s, f) and f != "load":
                o["%d.%s" % (k, f)] = plain(getattr(s, f))
        if hasattr(sim, "smos") and k:
            o["%d.p" % k] = plain(s.get_p()) if s.ttek else ()
    return o


def near(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, complex) and isinstance(b, complex):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a)) or (a != a and b != b)
    return a == b


def diff(a, b):
    return [k for k in a if k not in b or not near(a[k], b[k])]


def total(sim):
    return sum(sim.served) if isinstance(sim.served, list) else sim.served


class Ref:
    """The uninterrupted run of one history."""

    def __init__(self, kind, bits, depth):
        self.script = Tree(bits)
        seam.set_script(self.script)
        sim = build(kind)
        self.served = [total(sim)]
        for _ in range(depth):
            sim.run_one_step()
            self.served.append(total(sim))
        self.end = look(sim)
        self.slots = self.script.slots
        # the states on the way, of runs looked at only once
        self.at = {}


def history(acc, name, kind, bits, depth, thorough):
    ref = Ref(kind, bits, depth)
    again = lambda: seam.set_script(Tree(bits, ref.slots))
    acc.add("schedules")
    acc.seen("states", tuple(sorted((k, v) for k, v in ref.end.items())))

    def expect(sim, at, what):
        """State after `at` events of the reference run, then the same end."""
        acc.add("traces")
        if at is not None:
            for _ in range(depth - at):
                sim.run_one_step()
        acc.add("transitions", depth)
        d = diff(ref.end, look(sim))
        if d:
            acc.violation("%s:%s" % (name, what[0]), "%s, draws %s: %s ends with %s = %s, the uninterrupted run with %s" % (
                name, "".join(map(str, bits)), what, d[0], look(sim).get(d[0]), ref.end[d[0]]), {"cfg": [name, list(bits), depth]})

    # looking at the results: once, at every moment, and all the time
    for at in list(range(depth + 1)) + ["always"]:
        again()
        sim = build(kind)
        if at in (0, "always"):
            look(sim)
        for i in range(1, depth + 1):
            sim.run_one_step()
            if at in (i, "always"):
                a = look(sim)
                if diff(a, look(sim)):
                    acc.violation("%s:look" % name, "%s: results differ when read twice: %s" % (name, diff(a, look(sim))),
                                  {"cfg": [name, list(bits), depth]})
        expect(sim, None, ("look", at))
    # in portions of events
    for cut in range(1, depth):
        again()
        sim = build(kind)
        sim.run(cut, False)
        sim.run(depth - cut, False)
        expect(sim, None, ("events", cut, depth - cut))
    # in portions of completions: every set of intermediate totals
    tops = sorted(set(ref.served) - {0})
    first = {t: ref.served.index(t) for t in tops}
    for k in range(1, len(tops) + 1):
        for marks in itertools.combinations(tops, k):
            if len(tops) > 4 and 2 < k < len(tops):
                continue
            again()
            sim = build(kind)
            for t in marks:
                sim.run(t)
                if total(sim) != t:
                    acc.violation("%s:total" % name, "%s: run(%d) stops with %d served" % (name, t, total(sim)), {"cfg": [name, list(bits), depth]})
            expect(sim, first[marks[-1]], ("served",) + marks)
    # order of the setup calls
    for order in itertools.permutations(range(len(kind.setters))):
        names = [kind.setters[i][0] for i in order]
        if list(order) == sorted(order) or "set_cold_delay" in names and names.index("set_cold_delay") < names.index("set_cold"):
            continue                             # the delay is a delay of cooling: refused before it
        again()
        sim = build(kind, order)
        expect(sim, 0, ("setup", names))


def side_by_side(acc, x, y, steps, kx, ky):
    """All schedules of two simulators, each with its own history."""
    bits = [(0, 1, 1, 0, 0, 1, 0, 1), (1, 0, 0, 1, 0, 0, 1, 1)]
    kinds_ = (kx, ky)
    refs = []
    for k, b in zip(kinds_, bits):
        refs.append(Ref(k, b, steps))
    for pick in itertools.combinations(range(2 * steps + 2), steps + 1):
        scripts = [Tree(b, r.slots) for b, r in zip(bits, refs)]
        sims = [None, None]
        for i in range(2 * steps + 2):
            who = 0 if i in pick else 1
            seam.set_script(scripts[who])
            if sims[who] is None:
                sims[who] = build(kinds_[who])
            else:
                sims[who].run_one_step()
            acc.add("transitions")
        acc.add("schedules")
        for who in (0, 1):
            acc.add("traces")
            d = diff(refs[who].end, look(sims[who]))
            if d:
                acc.violation("side:%s" % (x, y)[who], "%s beside %s, schedule %s: ends with another %s than alone" % (
                    (x, y)[who], (y, x)[who], pick, d[0]), {"side": [x, y, steps]})
                return


def task(t):
    acc = Acc()
    K = kinds()
    with seam.quiet():
        if t[0] == "side":
            side_by_side(acc, t[1], t[2], t[3], K[t[1]], K[t[2]])
        else:
            _, name, nbits, depth, thorough, lo, hi = t
            for h in range(lo, hi):
                try:
                    with th.time_limit(120):
                        history(acc, name, K[name], tuple((h >> i) & 1 for i in range(nbits)), depth, thorough)
                except seam.SeamError:
                    raise
                except Exception as e:
                    acc.violation("%s:raises" % name, "%s raises %s: %s" % (name, type(e).__name__, e),
                                  {"cfg": [name, [(h >> i) & 1 for i in range(nbits)], depth]})
                if len(acc.viol) > 4:
                    break
        seam.set_script(None)
    return acc


def main(thorough):
    t0 = time.time()
    seam.prepare_imports()
    seam.install_fake_rng()
    nbits, depth, steps = (10, 16, 4) if thorough else (6, 12, 3)
    tasks = []
    for name in kinds():
        n = 1 << nbits
        part = max(1, n // 8)
        for lo in range(0, n, part):
            tasks.append(("alone", name, nbits, depth, thorough, lo, lo + part))
    for x, y in itertools.combinations_with_replacement(kinds(), 2):
        tasks.append(("side", x, y, steps))
    acc = pmap(task, tasks, chunksize=1)
    cov = {"schedules": acc.n.get("schedules", 0), "states": len(acc.sets.get("states", ())), "transitions": acc.n.get("transitions", 0),
           "traces_validated_against_impl": acc.n.get("traces", 0), "configurations": len(kinds()), "max_depth": depth,
           "preemption_bound": None, "exhaustive": True}
    cov = {k: v for k, v in cov.items() if v is not None}
    return finish("C19", "model_checking", acc, t0, cov,
                  ["two values for each of the first %d draws, a fixed pattern afterwards" % nbits,
                   "event times are generic: simultaneous events are not explored"])


def replay(rep):
    seam.prepare_imports()
    seam.install_fake_rng()
    acc = Acc()
    K = kinds()
    with seam.quiet():
        if "side" in rep:
            x, y, s = rep["side"]
            side_by_side(acc, x, y, s, K[x], K[y])
        else:
            name, bits, depth = rep["cfg"]
            history(acc, name, K[name], tuple(bits), depth, False)
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
