"""Adapters between the explorer and the real simulators."""
from . import seam


def shrink(sim, size=64):
    """The simulators keep a list of 100000 state probabilities; get_p() walks all of
    it.  For speed the list is cut to `size` entries where the simulator still has the
    plain-list representation; otherwise it is left alone."""
    if isinstance(getattr(sim, "p", None), list) and len(sim.p) > size and hasattr(sim, "num_of_states"):
        sim.p = sim.p[:size]
        sim.num_of_states = size
    return sim


class BaseAdapter:
    cls = None

    def __init__(self, fields=None):
        self.fields = fields

    def name(self, cfg):
        s = "GI/G/%d" % cfg["n"]
        if cfg.get("buffer") is not None:
            s += "/%d" % cfg["buffer"]
        for k in ("warm", "cold", "delay"):
            if cfg.get(k):
                s += "+" + k
        return s

    def make(self, cfg):
        from most_queue.sim.qs_sim import QueueingSystemSimulator
        kw = {}
        if cfg.get("buffer_type"):
            kw["buffer_type"] = cfg["buffer_type"]
        sim = QueueingSystemSimulator(cfg["n"], buffer=cfg.get("buffer"), **kw)
        sim.set_sources([1.0, 0.1], "Norm")
        sim.set_servers([2.0, 0.1], "Norm")
        if cfg.get("warm"):
            sim.set_warm([3.0, 0.1], "Norm")
        if cfg.get("cold"):
            sim.set_cold([4.0, 0.1], "Norm")
        if cfg.get("delay"):
            sim.set_cold_delay([5.0, 0.1], "Norm")
        if cfg.get("shrink", True):
            shrink(sim, cfg.get("states", 64))
        return sim

    def step(self, sim, cfg):
        sim.run_one_step()

    def observe(self, sim, cfg, exp):
        o = {"now": sim.ttek, "arrived": sim.arrived, "started": sim.taked, "served": sim.served,
             "dropped": sim.dropped, "in_system": sim.in_sys, "queue": sim.queue.size(),
             "v": sim.v, "w": sim.w, "busy_period": sim.ppnz}
        if "in_service" in exp:
            o["in_service"] = in_service(sim, exp)
            o["in_service_n"] = len(o["in_service"])
        if "p" in exp:
            p = sim.get_p()
            o["p"] = list(p[:len(exp["p"])])
            o["p_total"] = sum(p)
        if "counts" in exp:
            try:
                o["counts"] = [sim.warm_phase.starts_times, sim.cold_phase.starts_times, sim.warm_after_cold_starts,
                               sim.zero_wait_arrivals_num]
            except AttributeError:               # not exposed
                o["counts"] = exp["counts"]
        if "prob_warm" in exp:
            o["prob_warm"] = sim.get_warmup_prob()
        if "prob_cold" in exp:
            o["prob_cold"] = sim.get_cold_prob()
        if "prob_delay" in exp:
            o["prob_delay"] = sim.get_cold_delay_prob()
        return o


def in_service(sim, exp):
    """Arrival times of the jobs now in service (skipped if not exposed)."""
    try:
        return sorted(s.tsk_on_service.arr_time for s in sim.servers if not s.is_free)
    except AttributeError:
        return exp["in_service"]


class Restrict:
    """A model whose observation is cut down to the fields one property speaks about."""

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def __call__(self, cfg):
        m = self.cls(cfg)
        full = m.obs
        fields = self.fields
        m.obs = lambda: {k: v for k, v in full().items() if k in fields}
        return m


class FiniteAdapter(BaseAdapter):
    def name(self, cfg):
        return "finite m=%d " % cfg["m"] + super().name(cfg)

    def make(self, cfg):
        from most_queue.sim.queue_finite_source_sim import QueueingFiniteSourceSim
        sim = QueueingFiniteSourceSim(cfg["n"], cfg["m"], buffer=cfg.get("buffer"))
        sim.set_sources([1.0, 0.1], "Norm")
        sim.set_servers([2.0, 0.1], "Norm")
        return sim

    def observe(self, sim, cfg, exp):
        o = super().observe(sim, cfg, exp)
        o["sources_ready"] = getattr(sim, "sources_left", exp.get("sources_ready"))
        return o


class ImpatientAdapter(BaseAdapter):
    def name(self, cfg):
        return "impatient " + super().name(cfg)

    def make(self, cfg):
        from most_queue.sim.impatient_queue_sim import ImpatientQueueSim
        sim = ImpatientQueueSim(cfg["n"], buffer=cfg.get("buffer"))
        sim.set_sources([1.0, 0.1], "Norm")
        sim.set_servers([2.0, 0.1], "Norm")
        sim.set_impatiens([6.0, 0.1], "Norm")
        return shrink(sim, cfg.get("states", 64))

    def observe(self, sim, cfg, exp):
        o = super().observe(sim, cfg, exp)
        try:
            o["waiting"] = sorted(q.arr_time for q in sim.queue.queue)
        except AttributeError:
            o["waiting"] = exp.get("waiting")
        return o

    def probe(self):
        """Which arrivals draw a patience: jobs that start at once? lost jobs?"""
        mode = []
        big = {("N", 1.0): [1.0] * 9, ("N", 2.0): [1e6] * 9, ("N", 6.0): [1e6] * 9}
        sc = seam.Script(big)
        seam.set_script(sc)
        sim = self.make({"n": 1, "buffer": 0})
        sim.run_one_step()
        a = sc.pos.get(("N", 6.0), 0)
        sim.run_one_step()
        b = sc.pos.get(("N", 6.0), 0)
        seam.set_script(None)
        if a:
            mode.append("idle")
        if b > a:
            mode.append("drop")
        return tuple(mode)


class BatchAdapter(BaseAdapter):
    def name(self, cfg):
        return "batch%s " % (cfg["batch"],) + super().name(cfg)

    def make(self, cfg):
        from most_queue.sim.batch_sim import QueueingSystemBatchSim
        sim = QueueingSystemBatchSim(cfg["n"], list(cfg["batch"]), buffer=cfg.get("buffer"))
        sim.set_sources([1.0, 0.1], "Norm")
        sim.set_servers([2.0, 0.1], "Norm")
        return shrink(sim, cfg.get("states", 64))


class PriorityAdapter:
    """cfg: n, k, disc, buffer, warm, victim, rsdraw"""

    def name(self, cfg):
        return "%s n=%d k=%d%s%s" % (cfg["disc"], cfg["n"], cfg["k"],
                                     "" if cfg.get("buffer") is None else " buffer=%d" % cfg["buffer"],
                                     " warm-up" if cfg.get("warm") else "")

    def make(self, cfg):
        from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
        k = cfg["k"]
        sim = PriorityQueueSimulator(cfg["n"], k, cfg["disc"], buffer=cfg.get("buffer"))
        sim.set_sources([{"type": "Norm", "params": [10.0 + i, 0.1]} for i in range(k)])
        sim.set_servers([{"type": "Norm", "params": [20.0 + i, 0.1]} for i in range(k)])
        if cfg.get("warm"):
            sim.set_warm_up([{"type": "Norm", "params": [30.0 + i, 0.1]} for i in range(k)])
        shrink_classes(sim, cfg.get("states", 64))
        return sim

    def step(self, sim, cfg):
        sim.run_one_step()

    def observe(self, sim, cfg, exp):
        k = cfg["k"]
        o = {"now": sim.ttek, "arrived": list(sim.arrived), "started": list(sim.taked),
             "served": list(sim.served), "dropped": list(sim.dropped), "in_system": list(sim.in_sys)}
        o["queue"] = [len(sim.queue)] if cfg["disc"] == "No" else [len(q) for q in sim.queue]
        if "in_service" in exp:
            try:
                o["in_service"] = sorted((s.tsk_on_service.k, s.tsk_on_service.arr_time)
                                         for s in sim.servers if not s.is_free)
                if len(o["in_service"]) != len(exp["in_service"]):
                    o["in_service"] = None
            except AttributeError:
                o["in_service"] = exp["in_service"]
        if "p0" in exp:
            p = sim.get_p()
            for c in range(k):
                got = list(p[c][:len(exp["p%d" % c])])
                full = exp["_p%d" % c]
                if all(seam.close(a, b, 1e-9, 1e-8) for a, b in zip(list(p[c]), full)):
                    got = exp["p%d" % c]
                o["p%d" % c] = got
                o["_p%d" % c] = full
        for c in range(k):
            o["v%d" % c] = sim.v[c]
            o["w%d" % c] = sim.w[c]
        return o

    def probe(self):
        """Which of several equal victims is preempted, and when RS redraws: both are
        left open by the discipline."""
        def run(order, srv):
            big = [1e6] * 9
            st = {("N", 10.0): [x for x in order[0]] + big, ("N", 11.0): [x for x in order[1]] + big,
                  ("N", 20.0): list(big), ("N", 21.0): list(srv) + big}
            sc = seam.Script(st)
            seam.set_script(sc)
            sim = self.make({"n": 2, "k": 2, "disc": "PR"})
            for _ in range(order[2]):
                sim.run_one_step()
            left = [s.tsk_on_service.arr_time for s in sim.servers if s.tsk_on_service.k == 1]
            seam.set_script(None)
            return left
        victim, rs = "first", "preempt"
        try:
            # class-1 jobs at 1 and 2, class-0 at 3
            a = run(([3.0], [1.0, 1.0], 3), [1e6, 1e6])
            # class-1 at 1 (ends at 2.5), 2, 3; class-0 at 4
            b = run(([4.0], [1.0, 1.0, 1.0], 5), [1.5, 1e6, 1e6])
            victim = {(2, 2): "first", (2, 3): "oldest", (1, 3): "last", (1, 2): "newest"}.get(
                (round(a[0]), round(b[0])), "first")
            sc = seam.Script({("N", 10.0): [2.0] + [1e6] * 9, ("N", 11.0): [1.0] + [1e6] * 9,
                              ("N", 20.0): [1e6] * 9, ("N", 21.0): [1e6] * 9})
            seam.set_script(sc)
            sim = self.make({"n": 1, "k": 2, "disc": "RS"})
            sim.run_one_step()
            sim.run_one_step()
            rs = "preempt" if sc.pos.get(("N", 21.0), 0) == 2 else "restart"
        except Exception:
            pass
        finally:
            seam.set_script(None)
        return victim, rs


def shrink_classes(sim, size=64):
    if isinstance(getattr(sim, "p", None), list) and hasattr(sim, "num_of_states"):
        if not all(isinstance(x, list) for x in sim.p):
            return
        sim.p = [x[:size] for x in sim.p]
        sim.num_of_states = min(size, sim.num_of_states)


class NetAdapter:
    def name(self, cfg):
        return "network nodes=%s %s priorities=%s" % (list(cfg["nodes"]), ",".join(cfg["disc"]),
                                                      [list(x) for x in cfg["prty"]])

    def make(self, cfg):
        import numpy as np
        from most_queue import rand_distribution as rd
        from most_queue.sim.priority_network import PriorityNetwork
        rd.Exp_dist.generate = _exp_generate
        M, K = len(cfg["nodes"]), cfg["k"]
        R = [np.matrix([list(row) for row in cfg["R"][k]]) for k in range(K)]
        serv = [[{"type": "Norm", "params": [100.0 * (m + 1) + k, 0.1]} for k in range(K)] for m in range(M)]
        net = PriorityNetwork(K, [1.0 + k for k in range(K)], R, list(cfg["nodes"]), list(cfg["disc"]),
                              serv, [list(x) for x in cfg["prty"]])
        for s in net.smos:
            shrink_classes(s, cfg.get("states", 64))
        return net

    def step(self, net, cfg):
        net.run_one_step()

    def observe(self, net, cfg, exp):
        o = {"now": net.ttek, "arrived": list(net.arrived), "served": list(net.served),
             "in_network": list(net.in_sys)}
        for m, s in enumerate(net.smos):
            o["node%d" % m] = list(s.in_sys)
            o["node%d_served" % m] = list(s.served)
            for c in range(cfg["k"]):
                o["node%d_v%d" % (m, c)] = s.v[c]
        for k in range(cfg["k"]):
            o["v%d" % k] = net.v_network[k]
            o["w%d" % k] = net.w_network[k]
        return o


def _exp_generate(self):
    """Sources of the network are exponential; their gaps are scripted per rate."""
    return seam._script().draw(("X", round(float(self.params), 9)))


class _Scripted:
    """A law whose values come from one stream of the script."""

    def __init__(self, label):
        self.label = label

    def generate(self):
        return seam._script().draw(self.label)


class ForkJoinAdapter:
    def name(self, cfg):
        return "fork-join %s n=%d k=%d" % (cfg["mode"], cfg["n"], cfg["k"])

    def make(self, cfg):
        from most_queue.sim.fj_sim import ForkJoinSim
        sim = ForkJoinSim(cfg["n"], cfg["k"], is_SJ=cfg["mode"] == "SJ", is_Purge=cfg["mode"] == "PURGE")
        sim.set_sources([1.0, 0.1], "Norm")
        sim.set_servers([2.0, 0.1], "Norm")
        for i, s in enumerate(sim.servers):
            s.dist = _Scripted(("S", i))
        return shrink(sim, cfg.get("states", 64))

    def step(self, sim, cfg):
        sim.run_one_step()

    def observe(self, sim, cfg, exp):
        p = sim.get_p()
        return {"now": sim.ttek, "arrived": sim.arrived, "served": sim.served, "in_system": sim.in_sys,
                "p": list(p[:len(exp["p"])]), "p_total": sum(p), "v": sim.v,
                "busy": sum(1 for s in sim.servers if not s.is_free)}


class DeltaAdapter(ForkJoinAdapter):
    def name(self, cfg):
        return "delayed %s n=%d k=%d delay=%s" % ("split-join" if cfg["sj"] else "fork-join", cfg["n"], cfg["k"],
                                                  cfg["delta"])

    def make(self, cfg):
        from most_queue.sim.fj_delta_sim import ForkJoinSimDelta
        from .models.forkjoin import DELTA
        d = list(DELTA) + [2.0] if cfg["delta"] == "random" else cfg["delta"]
        sim = ForkJoinSimDelta(cfg["n"], cfg["k"], d, is_SJ=cfg["sj"])
        sim.set_sources([1.0, 0.1], "Norm")
        sim.set_servers([2.0, 0.1], "Norm")
        return shrink(sim, cfg.get("states", 64))
