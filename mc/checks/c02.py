"""C02: statistics of the basic simulator."""
from . import simcommon
from ..models.base import BaseModel
from ..simadapt import BaseAdapter, Restrict

FIELDS = {"w", "v", "p", "p_total", "busy_period"}
ADAPTER = BaseAdapter()
FACTORY = Restrict(BaseModel, FIELDS)


def jobs(thorough):
    out = []
    for b in (None, 0, 1, 2):
        out.append(({"n": 1, "buffer": b}, "all", 17 if thorough else 13, 0, 1))
        out.append(({"n": 2, "buffer": b}, "all", 13 if thorough else 11, 0, 1))
        out.append(({"n": 3, "buffer": b}, "all", 11 if thorough else 9, 0, 0))
    out.append(({"n": 2, "buffer": 1, "shrink": False}, "all", 5, 0, 1))
    for n in (1, 2):
        for ph in ({"warm": True}, {"cold": True}, {"warm": True, "cold": True},
                   {"warm": True, "cold": True, "delay": True}):
            out.append((dict(ph, n=n), "all", 12 if thorough else 10, 0, 0))
    for n in (1, 2, 3):
        for b in (None, 1, 5):
            for pol in ("burst", "steady"):
                out.append(({"n": n, "buffer": b, "policy": pol}, "dev", 44 if thorough else 30,
                            2 if n < 3 or thorough else 1, 0))
    # more channels and long histories
    for n, b in ((5, None), (5, 4), (8, 2)):
        out.append(({"n": n, "buffer": b, "policy": "burst"}, "dev", 60 if thorough else 44, 1, 0))
    for n, b, pol in ((1, 3, "steady"), (2, None, "steady"), (4, 9, "burst"), (12, None, "burst"), (12, 7, "burst")):
        out.append(({"n": n, "buffer": b, "policy": pol, "states": 700}, "dev", 1200 if thorough else 400, 0, 2))
    for n, b in ((1, 4), (2, None)):
        out.append(({"n": n, "buffer": b, "policy": "burst", "states": 700}, "long", 30000 if thorough else 5000, 0, 1))
    out.append(({"n": 2, "warm": True, "cold": True, "delay": True, "policy": "burst", "states": 700}, "long", 30000 if thorough else 5000, 0, 2))
    return out


def ties(thorough):
    x, s = (2, 20) if thorough else (0, 14)
    return [({"n": n, "buffer": b}, x, s) for n in (1, 2, 3) for b in (None, 1)] + \
        [({"n": n, "warm": True}, x, s) for n in (1, 2)]


def main(thorough):
    return simcommon.run("C02", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C02", ADAPTER, FACTORY, rep)
