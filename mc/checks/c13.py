"""C13: simulated superposition of flows."""
import itertools
import time

import numpy as np

from .. import explore, seam
from ..report import Acc, finish, pmap, time_limit

FAMILIES = {
    "Gamma": ("sum_2_Gamma_flows", "Gamma", "get_mu_alpha", [[1.0, 1.7, 4.2, 13.0], [0.8, 1.1, 2.0, 5.5]]),
    "H": ("sum_2_H2_flows", "H2_dist", "get_params", [[1.0, 3.0, 15.0, 110.0], [0.8, 1.6, 5.5, 26.0]]),
    "E": ("sum_2_Erlang_flows", "Erlang_dist", "get_params", [[1.0, 1.5, 3.0, 7.5], [0.9, 1.62, 4.374, 15.7464]]),
    "Pa": ("sum_2_Pa_flows", "Pareto_dist", "get_a_k", [[1.0, 1.5, 3.0, 7.5], [0.9, 1.2, 4.374, 15.7464]]),
}


def label(params):
    try:
        ps = list(params)
    except TypeError:
        ps = [params]
    return ("F",) + tuple((round(complex(x).real, 8), round(complex(x).imag, 8)) for x in ps)


def patch(on):
    from most_queue import rand_distribution as rd
    for _, cls, _, _ in FAMILIES.values():
        getattr(rd, cls).generate = lambda self: seam._script().draw(label(self.params))


def one(fam, seq, variant, nm, acc, key=None):
    from most_queue import rand_distribution as rd
    from most_queue.sim.flow_sum_sim import FlowSumSim
    fn, cls, fit, flows = FAMILIES[fam]
    labels = [label(getattr(rd, cls)(getattr(getattr(rd, cls), fit)(a)).params) for a in flows]
    g = explore.gaps(len(seq) + 1, variant)
    clk = explore.Clocks()
    pend = [clk.start(labels[0], 0.0), clk.start(labels[1], 0.0)]
    t, times, gaps = 0.0, [], []
    for k, s in enumerate(seq):
        t += g[k]
        times.append(t)
        gaps.append(g[k])
        clk.fire(pend[s], t)
        pend[s] = clk.start(labels[s], t)
        acc.seen("states", (fam, tuple(seq[:k + 1])))
        acc.add("steps")
    script = seam.Script(clk.script(times))
    seam.set_script(script)
    exp = [sum(x ** (i + 1) for x in gaps) / len(gaps) for i in range(nm)]
    try:
        with time_limit(20):
            got = getattr(FlowSumSim, fn)(list(flows[0]), list(flows[1]), num_of_moments=nm, num_of_sim=len(seq))
        bad = None if explore.same(exp, got) and len(got) == nm else "returns %s, must be %s" % (got, exp)
    except Exception as e:
        bad = "raises %s: %s" % (type(e).__name__, e)
    finally:
        seam.set_script(None)
    acc.add("schedules")
    if bad:
        acc.violation("%s" % fam, "sum of two %s flows, epochs from flows %s: %s" % (fam, seq, bad),
                      {"fam": fam, "seq": list(seq), "variant": variant, "nm": nm})
    else:
        acc.add("validated")
    acc.sample({"family": fam, "epochs": "".join(str(s + 1) for s in seq), "moments": exp})


def merged(x, y, size, nm):
    """Moments of the first intervals of two merged periodic streams."""
    k = int(size * y / (x + y)) + 2
    ev = np.sort(np.concatenate([x * np.arange(1, k + 1), y * np.arange(1, size - k + 6)]))[:size]
    gaps = np.diff(ev, prepend=0.0)
    return [float((gaps ** (i + 1)).sum() / size) for i in range(nm)]


def fold(fam, n, mode, acc):
    """n flows are folded pairwise.  The laws are labelled by the moments they were fitted to and their
    intervals are as long as the mean: the streams are periodic, what is left is the folding."""
    from most_queue import rand_distribution as rd
    from most_queue.sim.flow_sum_sim import FlowSumSim
    cls = getattr(rd, FAMILIES[fam][1])
    means = [1.0 + 0.37 * i for i in range(n)]
    made = set()

    def init(self, params, *x, **k):
        self.mean = float(params[0])
        made.add(fam)

    def wrong(self, *x, **k):
        raise AssertionError("sums flows of another family")
    stand_in = [(cls, "__init__", init), (cls, "generate", lambda self: self.mean)]
    for f in ("get_params", "get_a_k", "get_mu_alpha"):
        if hasattr(cls, f):
            stand_in.append((cls, f, staticmethod(lambda m, *x, **k: list(m))))
    stand_in += [(getattr(rd, f[1]), "__init__", wrong) for k, f in FAMILIES.items() if k != fam]
    kept = [(c, k, c.__dict__[k]) for c, k, _ in stand_in]
    for x in stand_in:
        setattr(*x)
    a = [[m, 2 * m * m, 6 * m ** 3, 24 * m ** 4] for m in means]
    bad = None
    try:
        with time_limit(100):
            if mode == "class":
                size = 77
                s = FlowSumSim([list(x) for x in a], distr=fam, verbose=False, num_of_jobs=size)
                s.sum_flows()
                want, cur = [], means[0]
                for m in means[1:]:
                    want.append(merged(cur, m, size, 4))
                    cur = want[-1][0]
                if len(s.flows_) != n - 1 or not all(explore.same(x, y) for x, y in zip(want, s.flows_)):
                    bad = "partial sums are %s, must be %s" % (s.flows_, want)
                elif not explore.same(want[-1], s.result_flow):
                    bad = "the result is %s, must be %s" % (s.result_flow, want[-1])
                elif not explore.same([x[1] for x in want], s.a2_sum) or not explore.same([x[0] for x in want], s.a1_sum):
                    bad = "a1_sum/a2_sum differ from the partial sums"
                elif not explore.same([((f[1] - f[0] ** 2) ** 0.5) / f[0] for f in want], s.coevs):
                    bad = "coefficients of variation are wrong"
            else:
                got = FlowSumSim.sum_n_flows([list(x) for x in a], fam, verbose=False)[0]
                if abs(got * sum(1 / m for m in means) - 1) > 1e-5 * n:
                    bad = "mean of the total is %s, must be %s" % (got, 1 / sum(1 / m for m in means))
    except Exception as e:
        bad = "raises %s: %s" % (type(e).__name__, e)
    finally:
        for c, k, v in kept:
            setattr(c, k, v)
    acc.add("folds")
    if bad:
        acc.violation("fold-%s-%s" % (fam, mode), "folding %d %s flows (%s): %s" % (n, fam, mode, bad),
                      {"fold": fam, "n": n, "mode": mode})


def work(task):
    acc = Acc()
    if task[0] == "fold":
        fold(*task[1:], acc)
        return acc
    fam, n, first, variant, nm = task
    for rest in itertools.product((0, 1), repeat=n - len(first)):
        one(fam, first + rest, variant, nm, acc)
    return acc


def main(thorough):
    t0 = time.time()
    seam.prepare_imports()
    seam.install_fake_rng()
    tasks = []
    for fam in FAMILIES:
        for n in range(1, 15 if thorough else 11):
            for first in itertools.product((0, 1), repeat=min(n, 3)):
                tasks.append((fam, n, first, n % 3, 1 + n % 4))
        for n in range(2, 7):
            tasks.append(("fold", fam, n, "class"))
            if fam != "Pa" and (n < 5 or thorough):
                tasks.append(("fold", fam, n, "function"))
    with seam.quiet():
        patch(True)
        acc = pmap(work, tasks[::-1])
    cov = {"states": len(acc.sets.get("states", ())), "transitions": acc.n.get("steps", 0),
           "traces_validated_against_impl": acc.n.get("validated", 0), "schedules": acc.n.get("schedules", 0),
           "folds": acc.n.get("folds", 0), "exhaustive": True}
    return finish("C13", "model_checking", acc, t0, cov,
                  ["ties between the two streams are excluded", "gaps are scripted at generate()"])


def replay(rep):
    seam.prepare_imports()
    seam.install_fake_rng()
    acc = Acc()
    patch(True)
    if "fold" in rep:
        fold(rep["fold"], rep["n"], rep["mode"], acc)
    else:
        one(rep["fam"], tuple(rep["seq"]), rep["variant"], rep["nm"], acc)
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
