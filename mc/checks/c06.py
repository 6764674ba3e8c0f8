"""C06: impatience."""
from .. import seam
from . import simcommon
from ..models.variants import ImpatientModel
from ..simadapt import ImpatientAdapter, Restrict

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service", "waiting",
          "v", "w", "p", "p_total"}
ADAPTER = ImpatientAdapter()
FACTORY = Restrict(ImpatientModel, FIELDS)


def jobs(thorough):
    seam.prepare_imports()
    seam.install_fake_rng()
    mode = ADAPTER.probe()
    out = []
    x = 2 if thorough else 0
    for b in (None, 0, 1, 2):
        for n, d in ((1, 9), (2, 9), (3, 8)):
            if n == 1 and b in (0, 1):
                d += 2
            out.append(({"n": n, "buffer": b, "pat_mode": mode}, "all", d + x, 0, n % 2))
    for n in (1, 2):
        for b in (None, 3):
            for v in (0, 1):
                out.append(({"n": n, "buffer": b, "pat_mode": mode}, "dev", 30 if thorough else 24, 2, v))
    # more channels and long histories
    for n, b in ((4, None), (5, 3)):
        out.append(({"n": n, "buffer": b, "pat_mode": mode}, "dev", 48 if thorough else 36, 1, 2))
        out.append(({"n": n, "buffer": b, "pat_mode": mode, "states": 700}, "dev", 1000 if thorough else 300, 0, 0))
    out.append(({"n": 1, "buffer": None, "pat_mode": mode, "states": 12000 if thorough else 6000}, "long", 12000 if thorough else 5000, 0, 1))
    return out


def ties(thorough):
    x, s = (2, 20) if thorough else (0, 14)
    mode = ADAPTER.probe()
    return [({"n": n, "buffer": b, "pat_mode": mode}, x, s) for n in (1, 2) for b in (None, 0, 1, 2)]


def main(thorough):
    return simcommon.run("C06", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C06", ADAPTER, FACTORY, rep)
