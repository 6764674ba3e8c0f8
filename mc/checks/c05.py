"""C05: finite source."""
from . import simcommon
from ..models.variants import FiniteModel
from ..simadapt import FiniteAdapter, Restrict

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service", "sources_ready",
          "v", "w", "p", "p_total", "busy_period"}
ADAPTER = FiniteAdapter()
FACTORY = Restrict(FiniteModel, FIELDS)


def jobs(thorough):
    out = []
    for m in (1, 2, 3, 4):
        for n in (1, 2, 3):
            for b in (None, 0, 1):
                d = {1: 13, 2: 10, 3: 8, 4: 6}[m] + (2 if thorough else 0)
                out.append(({"m": m, "n": n, "buffer": b}, "all", d, 0, (m + n) % 2))
    for m in (3, 5):
        for n in (1, 2):
            for b in (None, 1):
                out.append(({"m": m, "n": n, "buffer": b}, "dev", 36 if thorough else 24, 2, 1))
    # more channels and long histories
    for m, n, b in ((7, 4, None), (9, 6, 2)):
        out.append(({"m": m, "n": n, "buffer": b}, "dev", 50 if thorough else 36, 1, 2))
        out.append(({"m": m, "n": n, "buffer": b, "states": 700}, "dev", 1000 if thorough else 300, 0, 0))
    for m, n, b in ((26, 9, None), (20, 11, 4)):
        out.append(({"m": m, "n": n, "buffer": b, "policy": "burst", "states": 700}, "dev", 600 if thorough else 200, 0, 1))
    out.append(({"m": 4, "n": 2, "buffer": 1, "policy": "burst", "states": 700}, "long", 30000 if thorough else 5000, 0, 1))
    out.append(({"m": 6, "n": 2, "buffer": None, "states": 700}, "long", 30000 if thorough else 5000, 0, 2))
    return out


def ties(thorough):
    x, s = (2, 20) if thorough else (0, 14)
    return [({"m": m, "n": n, "buffer": b}, x, s) for m in (1, 2, 3, 4) for n in (1, 2) for b in (None, 0, 1)]


def main(thorough):
    return simcommon.run("C05", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C05", ADAPTER, FACTORY, rep)
