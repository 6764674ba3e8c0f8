"""C07: batch arrivals."""
from . import simcommon
from ..models.variants import BatchModel
from ..simadapt import BatchAdapter, Restrict

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service",
          "v", "w", "p", "p_total", "busy_period"}
ADAPTER = BatchAdapter()
FACTORY = Restrict(BatchModel, FIELDS)
LAWS = ((1.0,), (0.25, 0.75), (0.2, 0.5, 0.3), (0.4, 0.0, 0.6), (0.0, 0.0, 1.0))


def jobs(thorough):
    out = []
    x = 1 if thorough else 0
    for law in LAWS:
        br = 2 * sum(1 for q in law if q > 0)
        for n in (1, 2, 3):
            for b in (None, 0, 1, 3) if n < 3 or thorough else (None, 1):
                d = {2: 7, 4: 5, 6: 4}[br] + x
                out.append(({"batch": law, "n": n, "buffer": b}, "all", d, 0, n % 2))
        for n in (1, 2):
            for b in (None, 2):
                out.append(({"batch": law, "n": n, "buffer": b}, "dev", 30 if thorough else 22, 2 if thorough else 1, 1))
    # more channels and long histories
    for n, b in ((4, None), (6, 5)):
        out.append(({"batch": LAWS[-1], "n": n, "buffer": b}, "dev", 50 if thorough else 36, 1, 2))
        out.append(({"batch": LAWS[-1], "n": n, "buffer": b, "states": 700}, "dev", 1000 if thorough else 300, 0, 0))
    for law in ((0.0,) * 9 + (1.0,), (0.1, 0.0, 0.2, 0.0, 0.0, 0.3, 0.0, 0.4), (0.125,) * 8):
        for n, b in ((1, None), (3, 11), (9, 20)):
            out.append(({"batch": law, "n": n, "buffer": b, "states": 700}, "dev", 400 if thorough else 80, 0, 1))
            out.append(({"batch": law, "n": n, "buffer": b}, "dev", 26 if thorough else 12, 1, 2))
    for law in LAWS[1:4]:
        out.append(({"batch": law, "n": 2, "buffer": 6, "states": 700}, "long", 30000 if thorough else 5000, 0, 1))
    return out


def ties(thorough):
    x, s = (2, 18) if thorough else (1, 14)
    return [({"batch": law, "n": n, "buffer": b}, x, s) for law in LAWS for n in (1, 2) for b in (None, 1)]


def main(thorough):
    return simcommon.run("C07", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C07", ADAPTER, FACTORY, rep)
