"""
Schedule explorer for the simulators.

A *schedule* is the order in which the pending clocks of a queueing system
(arrivals, services, warm-ups, patience ...) expire, together with the answers to
its discrete random choices.  The operational reference model (mc/models/*.py)
says which clocks are pending in every state; the explorer walks every order up
to a depth (or every order within a number of deviations from a default policy),
assigns generic (tie-free) event times, turns them into the durations the random
draws must have returned ("prophecy"), and runs the real simulator step by step
under exactly those draws, comparing everything a user can observe after every
step with the reference model.
"""
import itertools
import math

from . import seam
from .report import Acc, CaseTimeout, pmap, time_limit


class Clock:
    __slots__ = ("stream", "since", "acc", "state", "step", "when", "fixed", "elapsed")

    def __init__(self, stream, t, step):
        self.stream = stream
        self.since = t
        self.acc = 0.0
        self.state = "run"      # run | paused | done | cancelled
        self.step = step
        self.when = None
        self.elapsed = None


class Clocks:
    """All draws made so far, per stream, in the order they are made."""

    def __init__(self):
        self.draws = {}
        self.values = {}        # streams of plain values (uniforms)
        self.step = 0
        self.unit = 1.0         # of time

    def start(self, stream, t):
        c = Clock(stream, t, self.step)
        self.draws.setdefault(stream, []).append(c)
        return c

    def value(self, stream, v):
        self.draws.setdefault(stream, []).append(v)

    def fire(self, c, t):
        assert c.state == "run", c.state
        c.elapsed = c.acc + (t - c.since)
        c.state = "done"

    def cancel(self, c, t):
        c.acc += (t - c.since) if c.state == "run" else 0.0
        c.state = "cancelled"
        c.when = self.step

    def pause(self, c, t):
        assert c.state == "run"
        c.acc += t - c.since
        c.state = "paused"

    def resume(self, c, t):
        assert c.state == "paused"
        c.since = t
        c.state = "run"

    def script(self, times):
        """Durations that make the real code follow the schedule."""
        n = len(times)
        out = {}
        end = times[-1] if n else 0.0
        k = 0
        for stream, draws in self.draws.items():
            seq = []
            for c in draws:
                if not isinstance(c, Clock):
                    seq.append(c)
                    continue
                k += 1
                if c.state == "done":
                    seq.append(c.elapsed)
                elif c.state == "cancelled":
                    # would have expired between the cancelling event and the next one
                    i = c.when
                    gap = (times[i + 1] - times[i]) if i + 1 < n else 0.5 * self.unit
                    seq.append(c.acc + gap * (0.31 + 0.37 * ((k * 0.61803) % 1.0)))
                elif c.state == "paused":
                    seq.append(c.acc + 1e5 * self.unit * (1 + 0.01 * k))
                else:
                    seq.append(c.acc + (end - c.since) + 1e5 * self.unit * (1 + 0.01 * k))
            out[stream] = seq
        return out


def gaps(n, variant=0, unit=1.0):
    """Generic event spacings."""
    if unit != 1.0:
        return [g * unit for g in gaps(n, variant)]
    a = [0.6180339887498949, 0.7548776662466927, 0.5698402909980532][variant % 3]
    b = [0.37, 0.11, 0.83][variant % 3]
    out = []
    for k in range(n):
        x = (a * (k + 1) + b + 0.013 * k * k) % 1.0
        if variant % 2:
            out.append(0.05 + 1.9 * x * x)
        else:
            out.append(0.25 + 0.9 * x)
    return out


class Path:
    __slots__ = ("choices", "counts", "labels", "times", "expected", "script", "model", "keys", "defaults")


def run_path(factory, cfg, choices, depth, gap, every=1):
    m = factory(cfg)
    m.clk.unit = cfg.get("unit", 1.0)
    p = Path()
    p.choices, p.counts, p.labels, p.times, p.expected, p.keys, p.defaults = [], [], [], [], [], [], []
    t = 0.0
    for k in range(depth):
        m.t_next = t + gap[k]
        evs = m.events()
        if not evs:
            break
        if k < len(choices):
            i = choices[k]
            if i >= len(evs):
                raise RuntimeError("schedule does not replay: choice %d of %d at step %d" % (i, len(evs), k))
        else:
            i = None
        d = m.default(k, evs) if hasattr(m, "default") else 0
        if i is None:
            i = d
        t = m.t_next         # t + gap, or earlier if the model knows of a deterministic event
        m.clk.step = k
        m.fire(evs[i], t)
        p.choices.append(i)
        p.counts.append(len(evs))
        p.defaults.append(d)
        p.labels.append(evs[i])
        p.times.append(t)
        if every == 1 or (k + 1) % every == 0 or k == depth - 1:
            p.expected.append(m.obs())
            p.keys.append(m.key())
        else:
            p.expected.append(None)
            p.keys.append(None)
    p.model = m
    p.script = m.clk.script(p.times)
    return p


def all_paths(factory, cfg, depth, prefix, gap):
    """Every schedule of `depth` events that starts with `prefix` (DFS, stateless)."""
    cur = list(prefix)
    first = True
    while True:
        # beyond `cur` always take choice 0, so that the enumeration is complete
        p = run_path(_Zero(factory), cfg, cur, depth, gap)
        yield p
        k = len(p.choices) - 1
        while k >= len(prefix) and p.choices[k] + 1 >= p.counts[k]:
            k -= 1
        if k < len(prefix):
            return
        cur = p.choices[:k] + [p.choices[k] + 1]


class _Zero:
    def __init__(self, f):
        self.f = f

    def __call__(self, cfg):
        m = self.f(cfg)
        m.default = lambda k, evs: 0
        return m


def deviating_paths(factory, cfg, depth, bound, gap, prefix=(), devs=0):
    """Every schedule with at most `bound` departures from the model's default policy."""
    p = run_path(factory, cfg, list(prefix), depth, gap)
    yield p
    if devs >= bound:
        return
    for i in range(len(prefix), len(p.choices)):
        for alt in range(p.counts[i]):
            if alt == p.defaults[i]:
                continue
            yield from deviating_paths(factory, cfg, depth, bound, gap, p.choices[:i] + [alt], devs + 1)


def same(exp, got, rtol=1e-9, atol=1e-8):
    if exp is None:                      # not specified in this state
        return True
    if isinstance(exp, (list, tuple)):
        try:
            got = list(got)
        except TypeError:
            return False
        if len(got) < len(exp):
            got = got + [0.0] * (len(exp) - len(got))
        return all(same(a, b, rtol, atol) for a, b in zip(exp, got))
    if isinstance(exp, str):
        return exp == got
    return seam.close(exp, got, rtol, atol)


def check_path(adapter, cfg, p, acc, prop, tag, only_last=False):
    """Run the real code along schedule p; compare after every step."""
    name = adapter.name(cfg)
    unit = cfg.get("unit", 1.0)
    if unit != 1.0:
        name += ", unit of time %g" % unit
    atol = 1e-8 * unit if unit >= 1 else 1e-19
    sc = seam.Script({k: list(v) for k, v in p.script.items()})
    sc.BIG *= unit
    seam.set_script(sc)
    acc.add("schedules")
    k = -1
    try:
        with time_limit(30):
            sim = adapter.make(cfg)
            for k, exp in enumerate(p.expected):
                adapter.step(sim, cfg)
                if exp is None:              # between two looks at a very long history
                    continue
                got = adapter.observe(sim, cfg, exp)
                acc.add("steps")
                bad = [f for f in exp if not same(exp[f], got.get(f), atol=atol)]
                if bad:
                    f = bad[0]
                    acc.violation(
                        "%s:%s" % (name, f),
                        "%s, after event %d (%s) of schedule %s: %s is %s, must be %s" % (
                            name, k + 1, _lab(p.labels[k]), " ".join(_lab(x) for x in p.labels[:k + 1]),
                            f, _short(got.get(f)), _short(exp[f])),
                        {"cfg": cfg, "choices": p.choices, "times": p.times, "step": k, "field": f,
                         "labels": [_lab(x) for x in p.labels], "draws": {str(a): b for a, b in p.script.items()}})
                    acc.add("failed_schedules")
                    return False
    except CaseTimeout as e:
        err = "does not return: %s" % e
    except seam.SeamError as e:
        err = "draws from a stream it does not own: %s" % e
    except Exception as e:  # the code under test crashed
        err = "raises %s: %s" % (type(e).__name__, e)
    else:
        acc.add("validated")
        return True
    finally:
        seam.set_script(None)
    acc.violation("%s:exception" % name,
                  "%s, event %d of schedule %s: %s" % (
                      name, k + 2, " ".join(_lab(x) for x in p.labels[:k + 2]), err),
                  {"cfg": cfg, "choices": p.choices, "times": p.times, "step": k + 1, "field": "exception",
                   "labels": [_lab(x) for x in p.labels], "draws": {str(a): b for a, b in p.script.items()}})
    acc.add("failed_schedules")
    return False


def _lab(x):
    if isinstance(x, tuple):
        return ":".join(str(i) for i in x)
    return str(x)


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:157] + "..."


def canon_cfg(cfg):
    return tuple(sorted((k, str(v)) for k, v in cfg.items()))


UNITS = (2.0 ** 36, 2.0 ** -20)


def in_other_units(jobs, depth=50):
    """The default schedule of every configuration, with time counted in much smaller and in much larger units.
    (Powers of two: every duration and every moment is scaled without rounding.)"""
    out, seen = [], set()
    for cfg, *_ in jobs:
        c = canon_cfg(cfg)
        if c in seen:
            continue
        seen.add(c)
        for u in UNITS:
            d = dict({"states": 700}, unit=u, **cfg)
            if isinstance(d.get("delta"), float):
                d["delta"] *= u
            out.append((d, "dev", depth, 0, 0))
    return out


def explore(adapter, factory, jobs, prop, split=3, fail_cap=8):
    """jobs: list of (cfg, mode, depth, bound, variant) with mode 'all' or 'dev'.
    Returns an Acc with counters schedules/steps/validated and the sets states/edges."""
    tasks = []
    for cfg, mode, depth, bound, variant in jobs:
        gap = gaps(depth + 2, variant, cfg.get("unit", 1.0))
        if mode == "all":
            for p in all_paths(factory, cfg, min(split, depth), (), gap):
                tasks.append((cfg, mode, depth, bound, variant, tuple(p.choices)))
        else:
            if mode == "long":
                tasks.append((cfg, mode, depth, bound, variant, ()))
                continue
            base = run_path(factory, cfg, [], depth, gap)
            tasks.append((cfg, "one", depth, 0, variant, ()))
            if bound >= 1:
                for i in range(len(base.choices)):
                    for alt in range(base.counts[i]):
                        if alt != base.defaults[i]:
                            tasks.append((cfg, "dev", depth, bound, variant,
                                          tuple(base.choices[:i] + [alt])))

    def work(task):
        cfg, mode, depth, bound, variant, prefix = task
        gap = gaps(depth + 2, variant, cfg.get("unit", 1.0))
        acc = Acc()
        c = canon_cfg(cfg)
        if mode == "all":
            it = all_paths(factory, cfg, depth, prefix, gap)
        elif mode == "long":                  # looked at now and then: prime to the periods of the policies
            it = iter([run_path(factory, cfg, [], depth, gap, 97)])
        elif mode == "one":
            it = iter([run_path(factory, cfg, [], depth, gap)])
        else:
            it = deviating_paths(factory, cfg, depth, bound, gap, list(prefix), 1)
        first = True
        for p in it:
            last = None
            for k, key in enumerate(p.keys):
                if key is None:
                    continue
                acc.seen("states", (c, key))
                acc.seen("edges", (c, last, p.labels[k], key))
                last = key
            ok = check_path(adapter, cfg, p, acc, prop, mode)
            if ok:
                acc.seen("outcomes", (c, _round(p.expected[-1])))
            if first:
                first = False
                acc.sample({"cfg": {k: str(v) for k, v in cfg.items()},
                            "schedule": " ".join(_lab(x) for x in p.labels[:60]),
                            "final": {k: _short(v) for k, v in list(p.expected[-1].items())[:8]}
                            if p.expected and p.expected[-1] else {}})
                # determinism of the seam: the same schedule twice, same observation
                a2 = Acc()
                if check_path(adapter, cfg, p, a2, prop, mode) != ok:
                    raise RuntimeError("replaying one schedule twice gave two verdicts: %r" % (p.labels,))
            if acc.n.get("failed_schedules", 0) >= fail_cap:
                acc.add("tasks_cut_short_by_failures")
                break
        return acc
    return pmap(work, tasks, chunksize=1)


def _round(d):
    if isinstance(d, dict):
        return tuple((k, _round(v)) for k, v in d.items())
    if isinstance(d, (list, tuple)):
        return tuple(_round(x) for x in d)
    return round(d, 7) if isinstance(d, float) else d


def replay_path(adapter, factory, rep, prop):
    """Replay a recorded violation without the explorer."""
    cfg = rep["cfg"]
    ch = rep["choices"]
    times = rep["times"]
    gap = [times[0]] + [b - a for a, b in zip(times, times[1:])] + [1.0]
    p = run_path(factory, cfg, ch, len(ch), gap)
    acc = Acc()
    check_path(adapter, cfg, p, acc, prop, "replay")
    for key, text, _ in acc.viol:
        print(key, text)
    print("reproduced" if acc.viol else "not reproduced")
    return 1 if acc.viol else 0


def coverage(acc, extra=None):
    cov = {"states": len(acc.sets.get("states", ())),
           "transitions": len(acc.sets.get("edges", ())),
           "traces_validated_against_impl": acc.n.get("validated", 0),
           "schedules": acc.n.get("schedules", 0),
           "compared_steps": acc.n.get("steps", 0),
           "distinct_final_observations": len(acc.sets.get("outcomes", ())),
           "exhaustive": acc.n.get("tasks_cut_short_by_failures", 0) == 0}
    if extra:
        cov.update(extra)
    return cov


class Moments:
    """Running raw moments, the boring way: keep the observations."""
    __slots__ = ("xs",)

    def __init__(self):
        self.xs = []

    def add(self, x):
        self.xs.append(x)

    def get(self):
        n = len(self.xs)
        if n == 0:
            return [0.0, 0.0, 0.0]
        return [math.fsum(x ** k for x in self.xs) / n for k in (1, 2, 3)]
