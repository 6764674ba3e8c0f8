"""C09: fork-join and split-join with start delays."""
from . import simcommon
from ..models.forkjoin import DeltaModel
from ..simadapt import DeltaAdapter

ADAPTER = DeltaAdapter()
FACTORY = DeltaModel


def jobs(thorough):
    out = []
    x = 1 if thorough else 0
    for sj in (False, True):
        for n in (1, 2, 3):
            for k in (1, 2, 3):
                out.append(({"n": n, "k": k, "sj": sj, "delta": "random"}, "all",
                            {1: 9, 2: 8, 3: 7}[k] + x, 0, n % 2))
                for d in (0.13, 0.71, 1.9):
                    out.append(({"n": n, "k": k, "sj": sj, "delta": d}, "all", 9 + x, 0, k % 2))
                if k > 1:
                    out.append(({"n": n, "k": k, "sj": sj, "delta": "random"}, "dev", 32 if thorough else 26,
                                2 if thorough else 1, n % 2))
                    out.append(({"n": n, "k": k, "sj": sj, "delta": 0.47}, "dev", 32, 2, n % 2))
    # more channels and long histories
    for sj in (False, True):
        for d in ("random", 0.31):
            out.append(({"n": 4, "k": 5, "sj": sj, "delta": d}, "dev", 44 if thorough else 32, 1, 2))
            out.append(({"n": 4, "k": 3, "sj": sj, "delta": d, "states": 700}, "dev", 1000 if thorough else 300, 0, 0))
            out.append(({"n": 7, "k": 9, "sj": sj, "delta": d, "states": 700}, "dev", 600 if thorough else 150, 0, 1))
    for sj in (False, True):
        for d in ("random", 0.31):
            out.append(({"n": 2, "k": 3, "sj": sj, "delta": d, "states": 30000 if thorough else 6000}, "long", 30000 if thorough else 5000, 0, 1))
    return out


def ties(thorough):
    x, s = (2, 16) if thorough else (0, 12)
    return [({"n": n, "k": k, "sj": sj, "delta": d}, x, s) for sj in (False, True) for n in (1, 2, 3) for k in (1, 2, 3)
            for d in (1.0, 0.5, "random") if thorough or k < 3 or d != "random" or n == 2]


def main(thorough):
    return simcommon.run("C09", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C09", ADAPTER, FACTORY, rep)
