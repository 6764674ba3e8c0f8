"""C33: decomposition of an open network with priorities.  The route of a job is an explicit chain over
nodes; loads, per-node results and end-to-end moments are composed on it and compared."""
import itertools

import numpy as np

from .. import queues as qq
from ..ctmc import Absorb, Graph
from . import thcommon as th
from .c27 import moments
from .c30 import LAWS, Preempt, caps, mix, np_waits, scaled

ROUTES = {
    "one": [[1, 0], [0, 1]],
    "tandem": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "loop": [[1, 0, 0], [0.2, 0.5, 0.3], [0.4, 0, 0.6]],
    "fork": [[0.3, 0.7, 0, 0], [0, 0, 1, 0], [0, 0, 0.25, 0.75], [0, 0, 0, 1]],
    "skip": [[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 1]],      # node 2 is never visited
    "rare": [[0.996, 0.004, 0], [0, 0.003, 0.997], [0.4, 0, 0.6]],
    "last": [[0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 1], [0, 0.3, 0, 0.7]],  # starts in node 3
}


def route_chain(R):
    """Visits per node and the successor function of the route, by exploring it from the source."""
    R = [[float(x) for x in row] for row in R]
    m = len(R) - 1

    def succ(s):
        return [(p, t if t < m else None) for t, p in enumerate(R[0 if s == "in" else s + 1]) if p]
    g = Graph(["in"], lambda s: [] if s is None else succ(s))
    n = g.n
    A = np.eye(n) - g.R.toarray().T
    e = np.zeros(n)
    e[0] = 1.0
    v = np.linalg.solve(A, e)
    return g, {s: x for s, x in zip(g.states, v) if s not in ("in", None)}, succ


def end_to_end(succ, nodes, v):
    """Moments of the sum of independent sojourn times along the route."""
    st = list(nodes)
    pos = {s: i for i, s in enumerate(st)}
    n = len(st)
    P = np.zeros((n, n))
    for s in st:
        for p, t in succ(s):
            if t is not None:
                P[pos[s], pos[t]] += p
    a = [np.array([v[s][k] for s in st]) for k in range(3)]
    inv = np.linalg.inv(np.eye(n) - P)
    m1 = inv @ a[0]
    m2 = inv @ (a[1] + 2 * a[0] * (P @ m1))
    m3 = inv @ (a[2] + 3 * a[1] * (P @ m1) + 3 * a[0] * (P @ m2))
    out = np.zeros(3)
    for p, t in succ("in"):
        out += p * np.array([m1[pos[t]], m2[pos[t]], m3[pos[t]]])
    return list(out)


def fits(ls, bs):
    """Whether the two-phase fit of the law of all classes together has rates with positive real parts."""
    t = sum(ls)
    f = [sum(x * b[i] for x, b in zip(ls, bs)) / t / (1, 2, 6)[i] for i in range(3)]
    c = np.array([[f[1] - f[0] ** 2, 0], [0, 1]])[0, 0]
    r = np.roots([1.0, (f[0] * f[1] - f[2]) / c, (f[0] * f[2] - f[1] ** 2) / c])
    return min(r.real) > 1e-3 * f[0] and abs((2 * c + f[0] ** 2) ** 0.5 / f[0] - 1) > 2e-3


RARE = 0.004


def rows(n, fine):
    """Routes out of a node with n ways: certain, rare, even and uneven."""
    out = [[float(i == j) for j in range(n)] for i in range(n)]
    for i, j in itertools.permutations(range(n), 2):
        for p in (RARE, 0.3, 0.5) if fine else (RARE, 0.5)[:1 + (i < j)]:
            if p < 0.5 or i < j:
                out.append([p if k == i else 1 - p if k == j else 0.0 for k in range(n)])
    if fine and n > 2:
        out.append([1.0 / n] * n)
    return out


def balance(acc, cfg):
    """Rates at the nodes for every matrix of routes from which every job leaves: the visits of the route chain,
    found by following the routes from the source."""
    from most_queue.theory.network_calc import balance_equation
    _, first, nodes, fine = cfg
    c = th.Cmp(acc, cfg, "network-")
    ways = rows(nodes + 1, fine)
    for rest in itertools.product(ways, repeat=nodes):
        R = np.array([list(first)] + list(rest))
        leaves = {nodes}                         # nodes from which the exit can be reached
        while True:
            more = {i for i in range(nodes) if any(R[i + 1, j] and j in leaves for j in range(nodes + 1))} - leaves
            if not more:
                break
            leaves |= more
        if len(leaves) <= nodes:
            continue
        reach, todo = set(), [-1]
        while todo:
            i = todo.pop()
            for j in range(nodes):
                if R[i + 1, j] and j not in reach:
                    reach.add(j)
                    todo.append(j)
        on = sorted(reach)
        A = np.eye(len(on)) - R[1:, :nodes][np.ix_(on, on)].T
        x = np.linalg.solve(A, 1.7 * R[0, on]) if on else []
        want = [0.0] * nodes
        for i, v in zip(on, x):
            want[i] = v
        acc.add("states", 1 + len(on))
        acc.add("transitions", int((R > 0).sum()))
        got = c.call("balance_equation", lambda: balance_equation(1.7, R.copy()))
        if got is None:
            break
        if not c.seq("balance_equation", [complex(v).real for v in got], want, 1e-8, 1e-9, pad=False):
            c.fail("balance_equation", "routes %s: %s, must be %s" % (R.tolist(), list(got), want))
            break
    c.done({"nodes": nodes, "first": first})


def one(acc, cfg):
    if cfg[0] == "balance":
        return balance(acc, cfg)
    from most_queue.theory import network_calc, priority_calc
    names, ns, prty, orders, laws, load, exact, scales = cfg
    K, M = len(names), len(ns)
    R = [ROUTES[x] for x in names]
    chains = [route_chain(r) for r in R]
    for g, _, _ in chains:
        acc.add("states", g.n)
        acc.add("transitions", g.edges)
    L = [0.5 + 0.3 * k for k in range(K)]
    lam = [[L[k] * chains[k][1].get(m, 0.0) for m in range(M)] for k in range(K)]
    # mean services differ between classes and nodes; scaled so that each node has the wanted load
    raw = [[1.0 + 0.35 * ((2 * k + m) % 3) for m in range(M)] for k in range(K)]
    mean = [[0.0] * M for _ in range(K)]
    for m in range(M):
        tot = sum(lam[k][m] * raw[k][m] for k in range(K))
        for k in range(K):
            mean[k][m] = raw[k][m] * (load * ns[m] / tot if tot else 1.0)
    P = [[scaled(LAWS[laws[(k + m) % len(laws)]], mean[k][m]) for m in range(M)] for k in range(K)]
    for m in range(M):
        ks = [k for k in range(K) if lam[k][m] > 0]
        if ns[m] > 1 and ks and not fits([lam[k][m] for k in ks], [P[k][m].moments(3) for k in ks]):
            acc.add("skipped_unfittable")
            return
    for scale in scales:
        c = th.Cmp(acc, cfg, "network-")
        b = [[[x * scale ** (i + 1) for i, x in enumerate(P[k][m].moments(4))] for m in range(M)] for k in range(K)]
        l = [x / scale for x in L]
        res = c.call("network_prty_calc", lambda: network_calc.network_prty_calc(
            [np.matrix(r, dtype=float) for r in R], b, list(ns), l, list(prty), [list(o) for o in orders]), 300)
        if res is None:
            continue
        for m in range(M):
            act = sum(lam[k][m] * mean[k][m] for k in range(K)) / ns[m]
            c.num("load", res["loads"][m], act, 1e-9)
            present = sorted((k for k in range(K) if lam[k][m] > 0), key=lambda k: orders[m][k])
            if not present:
                continue
            ls = [lam[k][m] / scale for k in present]
            if exact and ns[m] == 1:
                bs = [mean[k][m] for k in present]
                Ps = [P[k][m] for k in present]
                l1 = [lam[k][m] for k in present]
                if prty[m] == "NP":
                    w = np_waits(acc, l1, Ps, bs)
                    v = [qq.conv_moments(w[i], Ps[i].moments(3)) for i in range(len(present))]
                else:
                    v = []
                    for i in range(len(present)):
                        ra = sum(x * y for x, y in zip(l1[:i], bs[:i]))
                        pm = Preempt(sum(l1[:i]), mix(list(zip(l1[:i], Ps[:i]))) if i else None, l1[i], Ps[i],
                                     caps(ra), int(1.5 * caps(ra + l1[i] * bs[i])))
                        v.append(pm.tagged(lambda t: t[2] == 0)[1])
                ref, tol = [[x[j] * scale ** (j + 1) for j in range(3)] for x in v], 3e-3
            else:
                with th.seam.quiet():
                    ref = priority_calc.get_v_prty_invar(ls, [b[k][m] for k in present], ns[m], prty[m])
                tol = 1e-9
            for i, k in enumerate(present):
                for j in range(3):
                    c.num("v_node[%d]" % j, res["v_node"][m][k][j], complex(ref[i][j]).real, tol, 0.0)
        for k in range(K):
            g, visits, succ = chains[k]
            try:
                node_v = {m: [complex(x).real for x in res["v_node"][m][k]] for m in visits}
            except (TypeError, IndexError) as e:
                c.fail("v_node", "no per-node moments: %r" % e)
                continue
            ref = end_to_end(succ, visits, node_v)
            for j in range(3):
                c.num("v[%d]" % j, res["v"][k][j], ref[j], 1e-6, 0.0)
        c.done({"routes": names, "n": ns, "loads": load})


def main(thorough):
    sc = (1.0, 1e-3, 1e3)
    grid = []
    perms = list(itertools.permutations(range(3)))
    loads = (0.5, 0.8) if thorough else (0.6,)
    for load in loads:
        for p in ("NP", "PR"):
            # one node, one to three classes, every priority assignment
            for n in (1, 2) if not thorough else (1, 2, 3):
                for o in perms:
                    grid.append((("one",) * 3, (n,), (p,), (o,), ("E2", "E3") if n > 1 else ("E3", "H"), load, False, sc))
                for o in ((0, 1), (1, 0)):
                    grid.append((("one",) * 2, (n,), (p,), (o,), ("M", "H") if n > 1 else ("E3", "H"), load, n == 1, sc))
                grid.append((("one",), (n,), (p,), ((0,),), ("H",), load, n == 1, sc))
            for a, b in (("tandem", "tandem"), ("tandem", "loop"), ("loop", "loop")):
                for o1 in ((0, 1), (1, 0)):
                    for o2 in ((0, 1), (1, 0)):
                        grid.append(((a, b), (1, 2), (p, "NP"), (o1, o2), (("H", "M"), ("E3",))[a == b], load, False, sc))
            nets = [("fork", "skip", "last"), ("skip", "skip", "fork"), ("last", "fork", "fork")]
            for net in nets:
                for o in (perms if thorough else perms[2:5]):
                    grid.append((net, (2, 1, 1), (p, "NP", "PR"), (o, perms[3], (0, 1, 2)), ("H", "M"), load, False, sc))
            grid.append((("skip", "skip"), (1, 1, 1), (p,) * 3, ((0, 1),) * 3, ("E3", "H"), load, False, sc))
        grid.append((("rare", "tandem"), (1, 1), ("NP", "PR"), ((0, 1), (1, 0)), ("E3", "H"), load, False, sc))
    for nodes, fine in ((1, True), (2, True), (3, False)):
        for first in rows(nodes + 1, fine):
            grid.append(("balance", tuple(first), nodes, fine))
    return th.run("C33", one, grid, thorough,
                  ["nodes are treated as independent (the decomposition the calculator documents); per-node results "
                   "of multichannel nodes are those checked in C30"])


def replay(rep):
    return th.replay_one(one, rep)
