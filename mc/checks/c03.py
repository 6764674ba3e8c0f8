"""C03: list and deque containers are indistinguishable."""
import itertools
import time

from .. import explore, seam
from ..models.base import BaseModel
from ..report import Acc, finish, pmap
from ..simadapt import BaseAdapter, Restrict
from . import simcommon

FIELDS = {"now", "arrived", "started", "served", "dropped", "in_system", "queue", "in_service", "v", "w", "p",
          "busy_period"}


class Adapter(BaseAdapter):
    def name(self, cfg):
        return super().name(cfg) + ":" + cfg["buffer_type"]


ADAPTER = Adapter()
FACTORY = Restrict(BaseModel, FIELDS)


def jobs(thorough):
    out = []
    for bt in ("list", "deque"):
        for b in (None, 2):
            out.append(({"n": 1, "buffer": b, "buffer_type": bt}, "all", 15 if thorough else 12, 0, 1))
            out.append(({"n": 2, "buffer": b, "buffer_type": bt}, "all", 12 if thorough else 10, 0, 0))
        out.append(({"n": 2, "buffer_type": bt, "warm": True, "cold": True}, "all", 11 if thorough else 9, 0, 0))
        out.append(({"n": 1, "buffer_type": bt, "policy": "burst"}, "dev", 60 if thorough else 40, 2, 0))
        for b in (None, 70):
            out.append(({"n": 3, "buffer": b, "buffer_type": bt, "policy": "burst", "states": 700}, "dev", 1000 if thorough else 400, 0, 1))
    for bt in ("list", "deque"):
        out.append(({"n": 2, "buffer_type": bt, "policy": "burst", "states": 700}, "long", 30000 if thorough else 5000, 0, 1))
    return out


def container_histories(acc, depth):
    """Every append/pop history of both containers against a plain list."""
    from most_queue.sim.utils import qs_queue

    def rec(hist):
        for name in ("QsQueueList", "QsQueueDeque"):
            q = getattr(qs_queue, name)()
            ref = []
            k = 0
            for step, op in enumerate(hist):
                if op == "a":
                    k += 1
                    q.append(k)
                    ref.append(k)
                    r, e = None, None
                else:
                    e = ref.pop(0)
                    r = q.pop()
                acc.add("container_ops")
                if r != e or q.size() != len(ref):
                    acc.violation("%s:%s" % (name, "pop" if op == "p" else "size"),
                                  "%s after %s: pop returned %r (must be %r), size %r (must be %d)" % (
                                      name, "".join(hist[:step + 1]), r, e, q.size(), len(ref)),
                                  {"container": name, "history": "".join(hist)})
                    return
        acc.add("container_histories")
        if len(hist) < depth:
            rec(hist + ["a"])
            if hist.count("a") > hist.count("p"):
                rec(hist + ["p"])
    rec([])


SIZES = (1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 65, 100, 127, 129, 256, 257, 400)


def long_histories(acc, thorough):
    """Grow, shrink, grow, empty: every combination of sizes, beyond any internal block."""
    from most_queue.sim.utils import qs_queue
    sizes = SIZES + ((1000, 1025, 2049, 5000) if thorough else ())
    for name in ("QsQueueList", "QsQueueDeque"):
        for up in sizes:
            for down in sizes:
                if down > up:
                    continue
                for more in (0,) + sizes[::3]:
                    q = getattr(qs_queue, name)()
                    items = [(i,) for i in range(up + more)]
                    bad = None
                    head = tail = 0
                    for op, k in (("a", up), ("p", down), ("a", more), ("p", up - down + more)):
                        for _ in range(k):
                            if op == "a":
                                q.append(items[tail])
                                tail += 1
                            else:
                                r = q.pop()
                                if r is not items[head] and bad is None:
                                    bad = "pop %d returned %r, must be %r" % (head + 1, r, items[head])
                                head += 1
                            if q.size() != tail - head and bad is None:
                                bad = "size %r, must be %d" % (q.size(), tail - head)
                        acc.add("container_ops", k)
                    acc.add("container_histories")
                    if bad:
                        acc.violation("%s:long" % name, "%s, %d in, %d out, %d in, the rest out: %s" % (name, up, down, more, bad),
                                      {"container": name, "sizes": [up, down, more]})
                        return


def construction(acc):
    from most_queue.sim.qs_sim import QueueingSystemSimulator
    seam.set_script(seam.Script({}))
    for bt in ("list", "deque"):
        try:
            QueueingSystemSimulator(2, buffer_type=bt)
        except Exception as e:
            acc.violation("construct:" + bt, "constructor rejects %r: %r" % (bt, e), {"buffer_type": bt})
    for bt in ("", "List", "DEQUE", "queue", "heap", "listdeque", None, 0, 1):
        acc.add("rejected_types")
        try:
            QueueingSystemSimulator(2, buffer_type=bt)
        except ValueError:
            continue
        except Exception as e:
            acc.violation("reject:%r" % (bt,), "buffer_type %r raises %r instead of a ValueError" % (bt, e),
                          {"buffer_type": str(bt)})
            continue
        acc.violation("reject:%r" % (bt,), "buffer_type %r accepted" % (bt,), {"buffer_type": str(bt)})
    seam.set_script(None)


def main(thorough):
    def post(acc):
        container_histories(acc, 16 if thorough else 13)
        long_histories(acc, thorough)
        construction(acc)
    return simcommon.run("C03", ADAPTER, FACTORY, jobs(thorough), post=post,
                         extra_cov=lambda a: {"container_histories": a.n.get("container_histories", 0),
                                              "container_ops": a.n.get("container_ops", 0)})


def replay(rep):
    if "cfg" not in rep:
        print(rep)
        return 1
    return simcommon.replay("C03", ADAPTER, FACTORY, rep)
