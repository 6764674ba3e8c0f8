"""C10: priority disciplines."""
from .. import seam
from . import simcommon
from ..models.priority import PriorityModel
from ..simadapt import PriorityAdapter, Restrict

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service"}
ADAPTER = PriorityAdapter()
FACTORY = Restrict(PriorityModel, FIELDS)
DISC = ("No", "NP", "PR", "RS", "RW")


def jobs(thorough, only=None):
    seam.prepare_imports()
    seam.install_fake_rng()
    with seam.quiet():
        victim, rs = ADAPTER.probe()
    out = []
    x = 2 if thorough else 0

    def c(**k):
        return dict(k, victim=victim, rsdraw=rs)
    for d in DISC:
        for n, k, depth in ((1, 2, 8), (2, 2, 7), (1, 3, 6), (2, 3, 6)):
            if d in ("No",) and k == 3:
                depth -= 1
            out.append((c(n=n, k=k, disc=d), "all", depth + x, 0, n % 2))
        for buf in (0, 1, 2):
            out.append((c(n=1, k=2, disc=d, buffer=buf), "all", 7 + x, 0, 0))
            out.append((c(n=2, k=2, disc=d, buffer=buf), "all", 6 + x, 0, 1))
        out.append((c(n=1, k=2, disc=d, warm=True), "all", 6 + x, 0, 0))
        out.append((c(n=2, k=2, disc=d, warm=True), "all", 6 + x, 0, 0))
        for n, k in ((1, 3), (2, 3), (3, 3)):
            out.append((c(n=n, k=k, disc=d), "dev", 26 if thorough else 20, 2 if thorough else 1, n % 3))
        out.append((c(n=2, k=3, disc=d, buffer=3), "dev", 26 if thorough else 20, 2 if thorough else 1, 1))
    # more channels and long histories
    for d in DISC:
        out.append((c(n=4, k=4, disc=d), "dev", 40 if thorough else 30, 1 if thorough else 0, 2))
        out.append((c(n=5, k=5, disc=d, buffer=6), "dev", 40 if thorough else 30, 1 if thorough else 0, 1))
        for n, k, b in ((1, 2, None), (3, 4, 5)):
            out.append((c(n=n, k=k, disc=d, buffer=b, states=700), "dev", 600 if thorough else 200, 0, 0))
        out.append((c(n=8, k=7, disc=d, buffer=15, states=700), "dev", 400 if thorough else 100, 0, 1))
    for d in DISC:
        for n, k, b in ((2, 3, 3), (3, 4, 5), (1, 4, 3), (4, 3, None)):
            cfg = c(n=n, k=k, disc=d, buffer=b, policy="orders", states=700)
            out.append((cfg, "dev", len(PriorityModel.plan(cfg)), 0, 2))
    for d in DISC:
        out.append((c(n=2, k=3, disc=d, buffer=4, states=700), "long", 20000 if thorough else 3000, 0, 1))
    return out


def ties(thorough):
    x, s = (2, 18) if thorough else (0, 14)
    with seam.quiet():
        victim, rs = ADAPTER.probe()
    return [({"n": n, "k": k, "disc": d, "buffer": b, "victim": victim, "rsdraw": rs}, x - 2 * (k == 3), s)
            for d in DISC for n in (1, 2) for k in (2, 3) for b in (None, 1)
            if k == 2 or b is None and (n == 2 or thorough)]


def main(thorough):
    return simcommon.run("C10", ADAPTER, FACTORY, jobs(thorough),
                         ties=ties(thorough))


def replay(rep):
    return simcommon.replay("C10", ADAPTER, FACTORY, rep)
