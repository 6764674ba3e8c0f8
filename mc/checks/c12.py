"""C12: priority networks."""
import itertools

from .. import seam
from . import simcommon
from ..models.priority import NetModel
from ..simadapt import NetAdapter, PriorityAdapter

ADAPTER = NetAdapter()
FACTORY = NetModel

# rows: external, node 1, node 2, ...; columns: nodes, exit
TANDEM = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
FEED = ((0.3, 0.7, 0), (0.25, 0.35, 0.4), (0.5, 0.0, 0.5))
FEED2 = ((1, 0, 0), (0, 0.6, 0.4), (0.2, 0.0, 0.8))
ONE = ((1, 0), (0.3, 0.7))
EXIT = ((1, 0), (0, 1))
THREE = ((0.5, 0.5, 0, 0), (0, 0, 1, 0), (0, 0, 0.5, 0.5), (0.1, 0, 0.2, 0.7))
TANDEM3 = ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1))

FIVE = ((0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1), (1, 2, 3, 0))


def ring(k):
    """Five nodes: class k starts anywhere, goes on by steps of one to three, and may come back."""
    R = [[0.2] * 5 + [0.0]]
    for i in range(5):
        row = [0.0] * 6
        row[(i + 1 + k % 3) % 5] += 0.3
        row[(i + 3) % 5] += 0.2
        row[i] += 0.1
        row[5] = 0.4
        R.append(row)
    return tuple(tuple(r) for r in R)


def jobs(thorough):
    seam.prepare_imports()
    seam.install_fake_rng()
    with seam.quiet():
        victim, rs = PriorityAdapter().probe()
    out = []
    x = 1 if thorough else 0

    def c(**k):
        return dict(k, victim=victim, rsdraw=rs)
    swap, same = (1, 0), (0, 1)
    for d in ("No", "NP", "PR", "RS", "RW"):
        for n in (1, 2):
            out.append((c(nodes=(n,), disc=(d,), k=2, prty=(swap,), R=(EXIT, ONE)), "all", 6 + x, 0, 0))
        out.append((c(nodes=(1, 1), disc=(d, d), k=2, prty=(swap, same), R=(TANDEM, FEED)), "all", 5 + x, 0, 0))
        out.append((c(nodes=(1, 2), disc=(d, "NP"), k=2, prty=(same, swap), R=(FEED, FEED2)), "all", 4 + x, 0, 1))
        # every order of three classes, including the two that are not their own inverse
        for p in itertools.permutations(range(3)):
            out.append((c(nodes=(1,), disc=(d,), k=3, prty=(p,), R=(EXIT, EXIT, EXIT)), "all", 4 + x, 0, 0))
            q = p[1:] + p[:1]
            out.append((c(nodes=(1, 2), disc=(d, "PR"), k=3, prty=(p, q), R=(TANDEM, FEED, FEED2)), "dev",
                        22 + 8 * x, 1, 1))
        out.append((c(nodes=(1, 2, 1), disc=(d, "PR", "NP"), k=2, prty=(same, swap, same),
                      R=(THREE, TANDEM3)), "dev", 24 + 6 * x, 1 + x, 0))
    # more channels and long histories
    out.append((c(nodes=(4, 3, 2), disc=("RW", "PR", "NP"), k=2, prty=(same, swap, same), R=(THREE, TANDEM3), states=700),
                "dev", 600 if thorough else 200, 0, 0))
    for ds in ("No NP PR RS RW", "RW RS PR NP No", "PR PR RS RW NP"):
        out.append((c(nodes=(2, 1, 3, 1, 2), disc=tuple(ds.split()), k=4, prty=FIVE, R=tuple(ring(k) for k in range(4)), states=700),
                    "dev", 400 if thorough else 120, 0, 1))
        out.append((c(nodes=(1, 1, 1, 1, 1), disc=tuple(ds.split()), k=4, prty=FIVE, R=tuple(ring(k) for k in range(4))),
                    "dev", 30 if thorough else 20, 1, 2))
    for ds in ("No NP PR", "RS RW PR"):
        out.append((c(nodes=(1, 2, 1), disc=tuple(ds.split()), k=2, prty=(same, swap, same), R=(THREE, TANDEM3), states=12000 if thorough else 3000),
                    "long", 12000 if thorough else 3000, 0, 1))
    return out


def ties(thorough):
    x, s = (1, 16) if thorough else (0, 14)
    with seam.quiet():
        victim, rs = PriorityAdapter().probe()
    return [(dict(nodes=(1, n), disc=(d, e), k=2, prty=((1, 0), (0, 1)), R=(TANDEM, FEED), victim=victim, rsdraw=rs), x, s)
            for d, e in (("No", "PR"), ("NP", "RS"), ("PR", "NP"), ("RS", "RW"), ("RW", "No")) for n in (1, 2)
            if n == 1 or thorough or d in ("PR", "RW")]


def main(thorough):
    return simcommon.run("C12", ADAPTER, FACTORY, jobs(thorough), ties=ties(thorough),
                         extra_assume=["external gaps are scripted at Exp_dist.generate"])


def replay(rep):
    return simcommon.replay("C12", ADAPTER, FACTORY, rep)
