"""Shared driver of the schedule-exploration checks."""
import time

from .. import explore, seam, ties as tied
from ..report import finish

ASSUME = ["event times are generic in the schedule part; simultaneous events are explored separately, in any order",
          "random draws reach the code only through numpy generators (others make the check fail)"]


def run(prop, adapter, factory, jobs, split=4, extra_assume=(), post=None, extra_cov=None, ties=()):
    t0 = time.time()
    seam.prepare_imports()
    seam.install_fake_rng()
    with_q = seam.quiet()
    jobs = list(jobs) + explore.in_other_units(jobs)
    with with_q:
        acc = explore.explore(adapter, factory, jobs, prop, split=split)
        if post:
            post(acc)
        if ties:
            acc.merge(tied.explore_ties(adapter, factory, ties))
    cov = explore.coverage(acc, {"configurations": len({explore.canon_cfg(j[0]) for j in jobs}),
                                 "max_depth": max(j[2] for j in jobs)})
    if ties:
        cov["histories_with_simultaneous_events"] = acc.n.get("tie_histories", 0)
        cov["tie_configurations"] = len(ties)
        cov["histories_cut_short"] = acc.n.get("histories_cut_short", 0)
    if extra_cov:
        cov.update(extra_cov(acc))
    return finish(prop, "model_checking", acc, t0, cov, ASSUME + list(extra_assume))


def replay(prop, adapter, factory, rep):
    seam.prepare_imports()
    seam.install_fake_rng()
    if "ties" in rep:
        return tied.replay(adapter, factory, rep)
    return explore.replay_path(adapter, factory, rep, prop)
