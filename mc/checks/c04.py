"""C04: warm-up, cooling, delayed cooling."""
from . import simcommon
from .. import seam
from ..report import Acc
from ..models.base import BaseModel
from ..simadapt import BaseAdapter, Restrict

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service",
          "v", "w", "p", "p_total", "prob_warm", "prob_cold", "prob_delay", "counts"}
ADAPTER = BaseAdapter()
FACTORY = Restrict(BaseModel, FIELDS)
PHASES = ({"warm": True}, {"cold": True}, {"warm": True, "cold": True}, {"cold": True, "delay": True},
          {"warm": True, "cold": True, "delay": True})


def jobs(thorough):
    out = []
    for ph in PHASES:
        for n in (1, 2, 3):
            out.append((dict(ph, n=n), "all", {1: 15, 2: 14, 3: 12}[n] if thorough else {1: 12, 2: 11, 3: 9}[n],
                        0, n % 2))
            out.append((dict(ph, n=n, policy="burst"), "dev", 40 if thorough else 28, 2 if n < 3 else 1 + thorough, 1))
        for b in (1, 2):
            out.append((dict(ph, n=1, buffer=b), "all", 12 if thorough else 10, 0, 1))
            out.append((dict(ph, n=2, buffer=b), "all", 12 if thorough else 10, 0, 0))
    # more channels and long histories
    for ph in PHASES:
        for n in (4, 6):
            out.append((dict(ph, n=n, policy="burst"), "dev", 40, 1 if thorough else 0, 1))
        for n, b in ((1, None), (3, 4), (5, None)):
            out.append((dict(ph, n=n, buffer=b, policy="burst", states=700), "dev", 1000 if thorough else 300, 0, 2))
    for ph in PHASES:
        out.append((dict(ph, n=2, policy="burst", states=700), "long", 30000 if thorough else 5000, 0, 1))
    return out


def settings(acc):
    """A cooling delay needs a cooling time; a notation that is not supported is refused."""
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    for name, calls in (("delay without cooling", [("set_cold_delay", "M")]), ("unknown warm-up law", [("set_warm", "nope")]),
                        ("unknown cooling law", [("set_cold", "nope")]),
                        ("unknown delay law", [("set_cold", "M"), ("set_cold_delay", "nope")])):
        sim = QueueingSystemSimulator(1)
        for fn, _ in calls[:-1]:
            getattr(sim, fn)(1.0, "M")
        acc.add("rejected_settings")
        try:
            getattr(sim, calls[-1][0])(1.0, calls[-1][1])
        except ValueError:
            continue
        except Exception as e:
            acc.violation("settings:" + name, "%s raises %r instead of a ValueError" % (name, e), {"settings": name})
            continue
        acc.violation("settings:" + name, "%s is accepted" % name, {"settings": name})


def ties(thorough):
    x, s = (1, 18) if thorough else (-1, 14)
    return [(dict(ph, n=n), x - 2 * (len(ph) == 3), s) for ph in PHASES for n in (1, 2)] + \
        [(dict(ph, n=1, buffer=1), x - 2 * (len(ph) == 3), s) for ph in PHASES]


def main(thorough):
    return simcommon.run("C04", ADAPTER, FACTORY, jobs(thorough), post=settings,
                         ties=ties(thorough))


def replay(rep):
    if "settings" in rep:
        seam.prepare_imports()
        acc = Acc()
        settings(acc)
        return 1 if acc.viol else 0
    return simcommon.replay("C04", ADAPTER, FACTORY, rep)
