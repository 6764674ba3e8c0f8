"""Evidence, verdicts, known findings and the process pool."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
NPROC = min(8, os.cpu_count() or 1)


def known_keys(prop):
    """`finding: property=<id> key=<key> :: text` lines of known_findings.txt."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                head, _, text = line[len("finding:"):].partition("::")
                kv = dict(x.split("=", 1) for x in head.split())
                if prop is None or kv.get("property") == prop:
                    out[kv["key"]] = text.strip()
    except FileNotFoundError:
        pass
    return out


class Acc:
    """What one worker (or the whole check) covered and found."""

    def __init__(self):
        self.n = {}            # named counters
        self.sets = {}         # named sets of hashes, for distinct counts
        self.viol = []         # (key, text, replay dict)
        self.samples = []
        self.notes = []

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def seen(self, name, item):
        s = self.sets.setdefault(name, set())
        s.add(hash(item))

    def violation(self, key, text, replay):
        if len(self.viol) < 60:
            self.viol.append((key, text, replay))

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(x)

    def merge(self, o):
        for k, v in o.n.items():
            self.n[k] = self.n.get(k, 0) + v
        for k, v in o.sets.items():
            self.sets.setdefault(k, set()).update(v)
        self.viol.extend(o.viol)
        for s in o.samples:
            self.sample(s)
        self.notes.extend(o.notes)


class CaseTimeout(Exception):
    pass


def _alarm(_s, _f):
    raise CaseTimeout("no result within the time limit of the case")


class time_limit:
    """Raise CaseTimeout if the body takes longer (main thread of a worker)."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


_FN = None


def _call(task):
    try:
        t0 = time.time()
        got = _FN(task)
        if os.environ.get("MC_TIMES"):            # for tuning only
            sys.__stderr__.write("%.1f s %s\n" % (time.time() - t0, str(task)[:160]))
        return ("ok", got)
    except BaseException:      # harness error, reported by the parent
        return ("err", "%r\n%s" % (task, traceback.format_exc()))


def _calls(tasks):
    acc, t0 = Acc(), time.time()
    for t in tasks:
        st, r = _call(t)
        if st == "err":
            return st, r
        acc.merge(r)
        if acc.viol and time.time() - t0 > 60:    # a defect that makes cases slow
            acc.add("tasks_cut_short_by_failures")
            break
    return "ok", acc


def pmap(fn, tasks, nproc=None, chunksize=1, recycle=False):
    """Run fn over tasks in forked workers (with recycle, one process per task); fn returns an Acc."""
    global _FN
    total = Acc()
    tasks = list(tasks)
    _FN = fn
    n = min(nproc or NPROC, max(1, len(tasks)))
    if n == 1 or os.environ.get("MC_SERIAL"):
        for t in tasks:
            total.merge(fn(t))
        return total
    ctx = mp.get_context("fork")
    t0, known = time.time(), known_keys(None)
    with ctx.Pool(n, maxtasksperchild=1 if recycle else None) as pool:
        if len(tasks) > 64 * n:                   # many small tasks: in bundles of all kinds
            k = 64 * n
            bundles = [tasks[i::k] for i in range(k)]
        else:
            bundles = [tasks[i:i + chunksize] for i in range(0, len(tasks), chunksize)]
        results = pool.imap_unordered(_calls, bundles)
        while True:
            try:
                st, r = results.next(timeout=5)
            except StopIteration:
                break
            except mp.TimeoutError:
                st, r = None, None
            if st == "err":
                pool.terminate()
                raise RuntimeError("harness error in a worker:\n" + r)
            if st == "ok":
                total.merge(r)
            # a defect that makes every case slow: the violations found so far are reported in time
            if time.time() - t0 > 240 and any(v[0] not in known for v in total.viol):
                pool.terminate()
                break
    return total


def finish(prop, level, acc, t0, coverage, assumptions=(), rc_only=False):
    """Write the evidence file, print the verdict, return the exit code."""
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_keys(prop)
    new, old = {}, {}
    for key, text, replay in acc.viol:
        (old if key in known else new).setdefault(key, (text, replay))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    cov = dict(coverage)
    cov.setdefault("samples", acc.samples[:6])
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key in sorted(old):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, known[key]))
    keys = sorted(new, key=lambda k: (len(json.dumps(new[k][1], default=str)), k))
    for i, key in enumerate(keys[:10]):
        text, replay = new[key]
        path = os.path.join("evidence", "replay", "%s_%d.json" % (prop, i))
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump({"property": prop, "key": key, "what": text, "replay": replay}, f,
                      indent=1, default=str)
        print("  %s: %s" % (key, text))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(keys) > 10:
        print("  ... and %d further violation keys" % (len(keys) - 10))
    print("%s %s: %s in %.1f s; %s" % (
        prop, tier, "VIOLATED" if new else "held on everything explored", time.time() - t0,
        ", ".join("%s=%s" % (k, v) for k, v in cov.items()
                  if isinstance(v, (int, bool)))))
    sys.stdout.flush()
    return 1 if new else 0
