"""C01: GI/G/n/r dynamics."""
from . import simcommon
from .. import explore, seam
from ..models.base import BaseModel
from ..simadapt import BaseAdapter, Restrict

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service"}
ADAPTER = BaseAdapter()
FACTORY = Restrict(BaseModel, FIELDS)


def jobs(thorough):
    out = []
    for b in (None, 0, 1, 2):
        out.append(({"n": 1, "buffer": b}, "all", 18 if thorough else 14, 0, 0))
        out.append(({"n": 2, "buffer": b}, "all", 14 if thorough else 11, 0, 0))
        out.append(({"n": 3, "buffer": b}, "all", 12 if thorough else 9, 0, 1))
    out.append(({"n": 2, "buffer": 1, "shrink": False}, "all", 5, 0, 1))
    for n in (1, 2, 3):
        for b in (None, 1, 5):
            for pol in ("burst", "steady"):
                out.append(({"n": n, "buffer": b, "policy": pol}, "dev", 44 if thorough else 30,
                            3 if thorough and n == 1 else 2, 1))
    # more channels and long histories
    for n, b in ((5, None), (5, 4), (8, 2)):
        out.append(({"n": n, "buffer": b, "policy": "burst"}, "dev", 60 if thorough else 44, 1, 0))
    for n, b, pol in ((1, 3, "steady"), (2, None, "steady"), (4, 9, "burst"), (12, None, "burst"), (12, 7, "burst")):
        out.append(({"n": n, "buffer": b, "policy": pol, "states": 700}, "dev", 1200 if thorough else 400, 0, 2))
    for n, b in ((2, 140), (30, 60), (3, 20)):
        out.append(({"n": n, "buffer": b, "policy": "fill", "states": 700}, "dev", 700, 0, 1))
    for n, b, pol in ((1, None, "steady"), (3, 8, "burst")):
        out.append(({"n": n, "buffer": b, "policy": pol, "states": 700}, "long", 30000 if thorough else 6000, 0, 1))
    return out


def run_stops(acc):
    """run(N) stops at the N-th completion; run(N, False) after N events."""
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    for n in (1, 2, 3):
        for total in range(1, 8):
            for real in (True, False):
                seam.set_script(seam.Script({("N", 1.0): [0.61 + 0.013 * i for i in range(80)],
                                             ("N", 2.0): [n * (0.83 - 0.017 * (i % 5)) for i in range(80)]}))
                sim = QueueingSystemSimulator(n)
                sim.set_sources([1.0, 0.1], "Norm")
                sim.set_servers([2.0, 0.1], "Norm")
                sim.run(total, real)
                got = sim.served if real else sim.served + sim.arrived
                acc.add("run_calls")
                if got != total:
                    acc.violation("run:n=%d:total=%d:real=%s" % (n, total, real),
                                  "run(%d, is_real_served=%s) stopped after %s %s" % (
                                      total, real, got, "completions" if real else "events"),
                                  {"run": [n, total, real]})
    seam.set_script(None)


def ties(thorough):
    x, s = (2, 20) if thorough else (0, 14)
    return [({"n": n, "buffer": b}, x, s) for n in (1, 2, 3) for b in (None, 0, 1, 2)]


def main(thorough):
    return simcommon.run("C01", ADAPTER, FACTORY, jobs(thorough), post=run_stops,
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C01", ADAPTER, FACTORY, rep)
