"""C08: fork-join and split-join."""
from . import simcommon
from ..models.forkjoin import ForkJoinModel
from ..simadapt import ForkJoinAdapter

ADAPTER = ForkJoinAdapter()
FACTORY = ForkJoinModel


def jobs(thorough):
    out = []
    x = 1 if thorough else 0
    for mode in ("FJ", "PURGE", "SJ"):
        for n in (1, 2, 3, 4):
            for k in range(1, n + 1):
                if mode == "SJ" and k != n and (n, k) != (3, 2):
                    continue
                out.append(({"n": n, "k": k, "mode": mode}, "all", {1: 11, 2: 9, 3: 8, 4: 6}[n] + x, 0, n % 2))
                if n > 1:
                    out.append(({"n": n, "k": k, "mode": mode}, "dev", 32 if thorough else 26, 2 if n < 4 or thorough
                                else 1, n % 2))
    # more channels and long histories
    for mode in ("FJ", "PURGE", "SJ"):
        for n, k in ((5, 5), (6, 3)) if mode != "SJ" else ((5, 5),):
            out.append(({"n": n, "k": k, "mode": mode}, "dev", 44 if thorough else 32, 1, 2))
            out.append(({"n": n, "k": k, "mode": mode, "states": 700}, "dev", 1000 if thorough else 300, 0, 0))
        for n, k in ((10, 10), (9, 4)) if mode != "SJ" else ((10, 10),):
            out.append(({"n": n, "k": k, "mode": mode, "states": 700}, "dev", 600 if thorough else 150, 0, 1))
    for mode in ("FJ", "PURGE", "SJ"):
        out.append(({"n": 3, "k": 3 if mode == "SJ" else 2, "mode": mode, "states": 700}, "long", 30000 if thorough else 5000, 0, 1))
    return out


def ties(thorough):
    x, s = (1, 16) if thorough else (0, 12)
    return [({"n": n, "k": k, "mode": m}, x - (n == 3), s) for m in ("FJ", "PURGE") for n in (1, 2, 3) for k in range(1, n + 1)] + \
        [({"n": n, "k": n, "mode": "SJ"}, x, s) for n in (1, 2, 3)]


def main(thorough):
    return simcommon.run("C08", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C08", ADAPTER, FACTORY, rep)
