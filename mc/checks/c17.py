"""C17: reported load = sum over classes of arrival rate times mean service time over channels.

States: every (arrival notation, service notation, channels, classes) combination built in
the real simulators, reached by the calls set_sources / set_servers in either order."""
import itertools
import math
import time

from .. import seam
from ..report import Acc, finish, pmap, time_limit
from .c15 import PH, cox, erlang, h2

POINTS = {
    "M": [0.4, 3.0], "D": [0.7, 2.5], "Uniform": [[1.5, 0.5], [0.4, 0.1]], "Norm": [[2.0, 0.3], [0.6, 0.05]],
    "H": [[0.3, 0.5, 2.0], [0.9, 4.0, 0.25]], "E": [[3, 1.7], [1, 0.6]], "Gamma": [[0.8, 1.9], [2.5, 0.4]],
    "C": [[0.35, 0.6, 2.1], [0.8, 3.0, 1.2]], "Pa": [[1.4, 0.5], [3.3, 1.1]],
}


def mean(nt, p):
    """Mean of the law: expected absorption time of the explored chain where it is one."""
    if nt == "M":
        return PH(erlang(1, p)).moment(1)
    if nt == "E":
        return PH(erlang(p[0], p[1])).moment(1)
    if nt == "H":
        return PH(h2(*p)).moment(1)
    if nt == "C":
        return PH(cox(*p)).moment(1)
    if nt == "D":
        return p
    if nt in ("Uniform", "Norm"):
        return p[0]
    if nt == "Gamma":
        return p[1] / p[0]
    return p[0] * p[1] / (p[0] - 1)


def flat(nts):
    return [(nt, p) for nt in nts for p in POINTS[nt]]


def close(a, b):
    return isinstance(a, (int, float)) and abs(a - b) <= 1e-9 * abs(b)


def basic(task):
    (snt, sp), n = task[1], task[2]
    acc = Acc()
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    from most_queue.sim.utils.distribution_utils import calc_qs_load
    for vnt, vp in flat(POINTS):
        exp = mean(vnt, vp) / mean(snt, sp) / n
        rep = {"basic": [snt, sp, vnt, vp, n]}
        got = {}
        try:
            got["function"] = calc_qs_load(snt, sp, vnt, vp, n)
            for order in (0, 1):
                qs = QueueingSystemSimulator(n, buffer=None if order else 3, verbose=False)
                acc.add("transitions", 2)
                if order:
                    qs.set_servers(vp, vnt)
                    qs.set_sources(sp, snt)
                else:
                    qs.set_sources(sp, snt)
                    qs.set_servers(vp, vnt)
                got["simulator, servers set %s" % ("first" if order else "last")] = qs.calc_load()
        except Exception as e:
            acc.violation("raises-%s-%s" % (snt, vnt), "%s%s/%s%s/%d raises %s: %s" % (snt, sp, vnt, vp, n, type(e).__name__, e), rep)
            continue
        acc.add("states")
        for k, g in got.items():
            acc.add("comparisons")
            if not close(g, exp):
                acc.violation("load-%s-%s" % (snt, vnt), "%s%s/%s%s/%d: %s gives load %s, must be %s" % (snt, sp, vnt, vp, n, k, g, exp), rep)
                break
        else:
            acc.add("validated")
    acc.sample({"source": [snt, sp], "channels": n})
    return acc


def priority(task):
    _, classes, n, disc = task
    acc = Acc()
    from most_queue.sim.priority_queue_sim import PriorityQueueSimulator
    exp = sum(mean(*v) / mean(*s) for s, v in classes) / n
    rep = {"priority": [list(classes), n, disc]}
    try:
        for order in (0, 1):
            qs = PriorityQueueSimulator(n, len(classes), disc)
            acc.add("transitions", 2)
            fs = [lambda: qs.set_sources([{"type": s[0], "params": s[1]} for s, v in classes]),
                  lambda: qs.set_servers([{"type": v[0], "params": v[1]} for s, v in classes])]
            for f in (fs if order else fs[::-1]):
                f()
            got = qs.calc_load()
            acc.add("comparisons")
            if not close(got, exp):
                acc.violation("priority", "%s, %d channels, %s: load %s, must be %s" % (classes, n, disc, got, exp), rep)
                return acc
    except Exception as e:
        acc.violation("priority-raises", "%s, %d channels, %s raises %s: %s" % (classes, n, disc, type(e).__name__, e), rep)
        return acc
    acc.add("states")
    acc.add("validated")
    return acc


def work(task):
    seam.set_script(AnyScript())
    return basic(task) if task[0] == "basic" else priority(task)


class AnyScript(seam.Script):
    def draw(self, label):
        return 0.5


def main(thorough):
    t0 = time.time()
    seam.prepare_imports()
    seam.install_fake_rng()
    tasks = [("basic", s, n) for s in flat(POINTS) for n in (1, 2, 3, 7)]
    discs = ["No", "PR", "RS", "RW", "NP"]
    pts = flat(POINTS)
    one = [(s, v) for s in pts for v in pts]
    i = 0
    for s in pts:
        for v in pts:
            tasks.append(("priority", ((s, v),), 1 + i % 3, discs[i % 5]))
            i += 1
    # two classes: every pair of notations per class position; three classes: cyclic cover
    nts = list(POINTS)
    for a, b, c, d in itertools.product(nts, repeat=4):
        if not thorough and (nts.index(a) + 2 * nts.index(b) + 3 * nts.index(c) + 5 * nts.index(d)) % 9:
            continue
        g = lambda nt, k: (nt, POINTS[nt][k])
        tasks.append(("priority", ((g(a, 0), g(b, 1)), (g(c, 1), g(d, 0))), 1 + i % 3, discs[i % 5]))
        tasks.append(("priority", ((g(a, 0), g(b, 1)), (g(c, 1), g(d, 0)), (g(b, 0), g(a, 1))), 1 + i % 3, discs[i % 5]))
        i += 1
    with seam.quiet():
        acc = pmap(work, tasks, chunksize=16)
    cov = {"states": acc.n["states"], "transitions": acc.n["transitions"], "traces_validated_against_impl": acc.n.get("validated", 0),
           "comparisons": acc.n["comparisons"], "exhaustive": True}
    cov["samples"] = acc.samples[:3] + [tasks[-1]]
    return finish("C17", "model_checking", acc, t0, cov, ["laws without a finite mean are outside the property"])


def replay(rep):
    seam.prepare_imports()
    seam.install_fake_rng()
    seam.set_script(AnyScript())
    if "basic" in rep:
        snt, sp, vnt, vp, n = rep["basic"]
        acc = basic(("basic", (snt, sp), n))
    else:
        acc = priority(("priority", rep["priority"][0], rep["priority"][1], rep["priority"][2]))
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
