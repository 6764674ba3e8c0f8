"""C18: calculators give the same answers whatever was asked before.  The object of a calculator is the
state of a transition system whose moves are its queries; all states reachable by queries are explored, and
all orders in which the lives of two calculators can be interleaved.  For the modules of functions every
sequence of calls of a given length is explored.  The reference is the answer of a fresh process."""
import copy
import importlib
import itertools
import os
import pickle
import types

import numpy as np

from .. import seam
from . import thcommon as th


def norm(x):
    """A value that can be compared and pickled."""
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, np.ndarray):
        return norm(x.tolist())
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, (bool, type(None), str)):
        return x
    try:
        return complex(x)
    except (TypeError, ValueError):
        return norm(vars(x)) if hasattr(x, "__dict__") else repr(type(x))


def same(a, b, rel=1e-9):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, rel) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], rel) for k in a)
    if isinstance(a, complex) and isinstance(b, complex):
        return a == b or abs(a - b) <= rel * abs(a) + 1e-12 + (rel > 1e-8) * 1e-5 or (a != a and b != b)
    return a == b


def frozen(o):
    """State of an object, as a hashable value."""
    def f(x):
        if isinstance(x, (list, tuple)):
            return tuple(f(y) for y in x)
        if isinstance(x, np.ndarray):
            return (x.shape, x.tobytes()) if x.dtype != object else f(x.tolist())
        if isinstance(x, dict):
            return tuple(sorted((repr(k), f(v)) for k, v in x.items()))
        if isinstance(x, (int, float, complex, str, bool, type(None), np.number)):
            return repr(x)
        if hasattr(x, "__dict__"):
            return (type(x).__name__, f(vars(x)))
        return repr(type(x))
    return f(vars(o))


def outcome(f, limit=100):
    try:
        with th.time_limit(limit), seam.quiet():
            return norm(f())
    except Exception as e:
        return "raises " + type(e).__name__


def fresh(f):
    """The same, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as out:
                pickle.dump(f(), out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as src:
        data = src.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def short(x):
    s = repr(x)
    return s if len(s) < 90 else s[:90] + "..."


# calculators: module, class, two sets of arguments, options, run?, queries
G1 = [1.0, 1.36, 2.3392, 4.865536]
G2 = [0.5, 0.32, 0.272, 0.299]
W1 = [2.0, 5.4, 18.9, 81.6]
D1 = [0.7, 0.95, 1.94, 5.4]
T = ("get_p", "get_w", "get_v")
CLASSES = {
    "MGnCalc": ("mgn_tt", [(2, 1.2, G1), (3, 3.1, G2)], dict(N=40), True, T),
    "MGnCalc/r": ("mgn_tt", [(2, 1.9, G1, 3), (1, 1.1, G2, 2)], dict(N=40), True, T + ("get_w_buffer",)),
    "Mh2h2Warm": ("m_h2_h2warm", [(1.1, G1, W1, 2), (0.9, G2, D1, 1)], dict(N=40), True, T + ("get_w_by_queue",)),
    "Mh2h2Warm/first": ("m_h2_h2warm", [(1.1, G1, W1, 2), (0.9, G2, D1, 1)], dict(N=40, is_only_first=True), True, T),
    "MMn_H2warm_H2cold": ("mmn_with_h2_cold_and_h2_warmup", [(1.1, 1.0, W1, D1, 2), (0.4, 1.3, D1, W1, 1)], dict(N=40), True,
                          T + ("get_cold_prob", "get_warmup_prob")),
    "MGnH2ServingColdWarmDelay": ("mgn_with_h2_delay_cold_warm", [(1.1, G1, W1, D1, D1, 2), (0.9, G2, D1, W1, G1, 1)], dict(N=30), True,
                                  T + ("get_cold_prob", "get_warmup_prob", "get_cold_delay_prob", "get_idle_prob")),
    "MMn_PRTY_PNZ_Cox_approx": ("mmn_prty_pnz_approx", [(2, 1.3, 1.0, 0.7, 0.6), (3, 0.6, 1.0, 0.5, 0.9)], dict(N=40), True,
                                ("get_p", "get_second_class_v1", "get_busy_coev", "get_pnz_markov")),
    "Mmn3_pnz_cox": ("mmn3_pnz_cox_approx", [(1.3, 1.4, 1.5, 0.5, 0.5, 0.5), (0.5, 1.0, 2.0, 0.2, 0.3, 0.4)], dict(N=25), True,
                     ("get_p", "get_low_class_v1")),
    "m_ph_n_prty": ("m_ph_n_prty", [(1.3, 1.7, 1.1, 0.3, 0.7, 0.6, 2), (0.6, 2.0, 0.9, 0.25, 0.3, 0.4, 1)], dict(N=40, verbose=False), True,
                    ("get_p", "get_low_class_v1")),
    "M_D_n": ("m_d_n_calc", [(1.2, 1.0, 2), (2.0, 0.4, 1)], dict(p_num=40), False, ("calc_p",)),
    "Ek_D_n": ("ek_d_n_calc", [(2.4, 2, 1.0, 2), (4.0, 3, 0.5, 1)], dict(p_num=40), False, ("calc_p",)),
    "Engset": ("engset_model", [(0.3, 1.0, 5), (2.0, 0.7, 3)], {}, False,
               ("get_p", "get_N", "get_Q", "get_kg", "get_lamD", "get_w1", "get_v1", "get_w", "get_v")),
    "BatchMM1": ("batch_mm1", [(0.3, 1.0, [0.5, 0.25, 0.25]), (0.5, 2.0, [0.2, 0.8])], dict(p_num=300), False,
                 ("get_p", "get_N", "get_Q", "get_w1", "get_v1", "calc_l", "calc_l_moments", "calc_L")),
}


def klass(name):
    return getattr(importlib.import_module("most_queue.theory." + CLASSES[name][0]), name.split("/")[0])


def deep(x):
    return copy.deepcopy(x)


class Life:
    """One calculator: construction, run, queries."""

    def __init__(self, name, which):
        self.cls = klass(name)
        _, args, opts, self.runs, self.queries = CLASSES[name]
        self.args = deep(list(args[which]))
        self.orig = deep(self.args)
        self.opts = opts
        self.obj = None

    def steps(self):
        return ["construct"] + ["run"] * self.runs + ["query"]

    def do(self, step):
        """The answers of the step."""
        if step == "construct":
            self.obj = self.cls(*self.args, **self.opts)
            return {}
        if step == "run":
            self.obj.run()
            return {}
        return {q: outcome(getattr(self.obj, q)) for q in self.queries if hasattr(self.obj, q)}

    def ready(self):
        with seam.quiet():
            self.do("construct")
            if self.runs:
                self.do("run")
        return self

    def intact(self):
        return same(norm(self.args), norm(self.orig))


def reference(name, which):
    """Every query is the first one of a fresh process."""
    def f():
        a = Life(name, which).ready()
        out = {}
        for q in a.queries:
            if hasattr(a.obj, q):
                out[q] = outcome(getattr(deep(a.obj), q))
        return out
    return fresh(f)


def queries(acc, cfg, c, name, which, again):
    ref = reference(name, which)
    a = Life(name, which).ready()
    start = a.obj
    seen = {frozen(start): ()}
    todo = [(start, ())]
    acts = [q for q in a.queries if hasattr(start, q)]
    while todo:
        obj, path = todo.pop()
        for q in acts:
            o = deep(obj)
            got = outcome(getattr(o, q))
            acc.add("comparisons")
            if not same(got, ref[q]):
                c.fail("order-" + q, "%s.%s() after %s gives %s, at first %s" % (name, q, list(path) or "nothing", short(got), short(ref[q])))
            acc.add("transitions")
            k = frozen(o)
            if k not in seen and len(seen) < 400 and c.bad < 4:
                seen[k] = path + (q,)
                todo.append((o, path + (q,)))
    acc.add("states", len(seen))
    # computed once more, from the state the queries left: the same up to the accuracy of the iterations
    if again and a.runs:
        for k in range(len(acts)):
            o = deep(start)
            path = acts[:k + 1] + ["run"]
            for q in path[:-1]:
                outcome(getattr(o, q))
            with seam.quiet():
                o.run()
            for q in acts:
                got = outcome(getattr(deep(o), q))
                acc.add("comparisons")
                if not same(got, ref[q], 1e-4):
                    c.fail("again-" + q, "%s.%s() after %s gives %s, at first %s" % (name, q, path, short(got), short(ref[q])))
    if not a.intact():
        c.fail("arguments", "%s changes its arguments: %s became %s" % (name, short(a.orig), short(a.args)))
    # one object asked for everything, in every rotation, sharing its arguments
    for k in range(len(a.queries)):
        b = Life(name, which).ready()
        for q in a.queries[k:] + a.queries[:k]:
            got = outcome(getattr(b.obj, q))
            acc.add("comparisons")
            if not same(got, ref[q]):
                c.fail("order-" + q, "%s.%s() in the order %s gives %s, at first %s" % (name, q, a.queries[k:] + a.queries[:k], short(got), short(ref[q])))
        if not b.intact():
            c.fail("arguments", "%s changes its arguments: %s became %s" % (name, short(b.orig), short(b.args)))


def two_lives(acc, cfg, c, x, y):
    """All interleavings of two calculators."""
    refs = [reference(*x), reference(*y)]
    n = [len(Life(*z).steps()) for z in (x, y)]
    for pick in itertools.combinations(range(sum(n)), n[0]):
        lives = [Life(*x), Life(*y)]
        if x == y:                               # the very same argument objects
            lives[1].args = lives[0].args
        pos = [0, 0]
        order = []
        for i in range(sum(n)):
            who = 0 if i in pick else 1
            step = lives[who].steps()[pos[who]]
            pos[who] += 1
            order.append("AB"[who] + ":" + step)
            with seam.quiet():
                ans = lives[who].do(step)
            acc.add("transitions")
            for q, got in ans.items():
                acc.add("comparisons")
                if not same(got, refs[who][q]):
                    c.fail("interleaved-" + q, "%s.%s() in the schedule %s gives %s, alone %s" % ((x, y)[who], q, order, short(got), short(refs[who][q])))
        acc.add("states")
        for z, l in zip((x, y), lives):
            if not l.intact():
                c.fail("arguments", "%s changes its arguments: %s became %s" % (z, short(l.orig), short(l.args)))


# functions: module, name, two sets of arguments
NET = [
       np.array([[1.0, 0.0, 0.0], [0.0, 0.7, 0.3], [0.2, 0.0, 0.8]]),
       np.array([[0.6, 0.4, 0.0], [0.0, 0.5, 0.5], [0.0, 0.0, 1.0]])]
A1 = [1.6, 3.584, 10.7520]
A2 = [0.9, 1.0, 1.45]
PRL, PRB = [0.2, 0.3], [[1.0, 1.6, 3.9, 12.9], [1.2, 2.4, 7.3, 29.5]]
PRL2, PRB2 = [0.1, 0.1, 0.2], [[1.0, 1.6, 3.9, 12.9], [1.2, 2.4, 7.3, 29.5], [0.5, 0.5, 0.75, 1.5]]


def table():
    t = []

    def add(mod, names, *argsets):
        for nm in names.split():
            for k, a in enumerate(argsets):
                t.append((mod, nm, k, a))
    add("theory.gi_m_1_calc", "get_pi get_v get_w get_p get_w_param", (A1, 0.9), (A2, 1.6))
    add("theory.gi_m_n_calc", "get_pi get_v get_w get_p get_w_param", (A1, 0.5, 2), (A2, 0.6, 3))
    add("theory.mg1_calc", "get_w get_v", (0.6, G1), (1.1, G2))
    add("theory.mg1_calc", "get_p", (0.6, G1, 30), (1.1, G2, 20, "Pa"), (1.1, [0.5, 0.27], 10, "Uniform"))
    add("theory.mg1_warm_calc", "get_v", (0.6, G1, W1), (1.1, G2, D1))
    add("theory.impatience_calc", "get_p0 get_p get_N get_Q get_w1 get_v1", (0.8, 1.0, 0.3), (2.0, 1.1, 0.9))
    add("theory.mmnr_calc:MMnr_calc", "getPI getQ get_qs get_w get_v get_p", (1.4, 0.9, 2, 3), (2.0, 0.8, 3, 5))
    add("theory.priority_calc", "get_w1_pr get_w1_np calc_pr1 get_w_mg1_bp get_v_mg1_bp get_v_np get_w_np ppnz_calc climov_w_pr_calc", (PRL, PRB), (PRL2, PRB2))
    add("theory.priority_calc", "get_w_prty_invar get_v_prty_invar", (PRL, PRB, 1, "PR"), ([0.5, 0.5], PRB, 2, "NP"))
    add("theory.priority_calc", "get_w_MxGn_no_pr get_v_MxGn_no_pr", (PRL, PRB, 1), ([0.5, 0.5], PRB, 2))
    add("theory.network_calc", "balance_equation", (0.3, NET[0]), (0.3, NET[1]))
    add("theory.network_calc", "network_prty_calc",
        (NET, [[PRB[0], PRB[1]], [PRB[1], PRB2[2]]], [1, 1], [0.15, 0.1], ["NP", "PR"], [[0, 1], [1, 0]]),
        (NET, [[PRB[0], PRB[1]], [PRB[1], PRB2[2]]], [2, 1], [0.1, 0.2], ["PR", "NP"], [[1, 0], [0, 1]]))
    add("theory.fj_calc", "getMaxMoments", (2, G1), (4, G2))
    add("theory.fj_calc", "getMaxMomentsDelta", (2, G1, 3, 0.2), (4, G2, 3, [0.3, 0.1, 0.05]))
    add("theory.fj_calc", "get_v1_fj2", (0.4, 1.0), (0.8, 1.0))
    add("theory.fj_calc", "get_v1_fj_varma get_v1_fj_nelson_tantawi get_v1_fj_varki_merchant get_v1_fj_invar", (0.4, 1.0, 3), (0.8, 1.0, 2))
    add("theory.fj_calc", "get_v1_fj_nelson_nk get_v1_varma_nk", (0.4, 1.0, 4, 2), (0.7, 1.0, 3, 3))
    add("theory.fj_calc", "get_v_fj_max get_v_fj_invar_tt", (0.4, G1, 3), (0.8, G2, 2))
    add("theory.fj_calc", "get_1ambda_max", (G1, 3), (G2, 2))
    add("theory.utils.q_poisson_arrival_calc", "get_q_Gamma", (0.6, 1.5, 2.0, 20), (1.1, 0.6, 0.4, 30))
    add("theory.utils.q_poisson_arrival_calc", "get_q_uniform", (0.6, 1.5, 0.5, 20), (1.1, 0.6, 0.4, 30))
    add("theory.utils.q_poisson_arrival_calc", "get_q_Pareto", (0.6, 2.5, 0.5, 20), (1.1, 3.5, 0.4, 30))
    add("theory.utils.student_stat", "get_conf_intervals", (0.95, 12, 3.0, 0.4), (0.99, 3, 1.0, 0.2))
    add("theory.utils.diff5dots", "diff5dots", ([1.0, 1.2, 1.1, 0.7, 0.2], 0.1), ([0.0, 0.1, 0.4, 0.9, 1.6], 0.2))
    add("general_utils.conv", "get_moments", (G1, W1, 4), (G2, G1, 3))
    add("general_utils.conv", "get_self_conv_moments", (G1, 3, 3), (G2, 2, 4))
    add("general_utils.conv", "get_moments_minus", (W1, G1, 3), (G1, G2, 3))
    R = "rand_distribution:"
    add(R + "H2_dist", "get_params get_params_clx", (W1,), (G1,))
    add(R + "H2_dist", "get_params_by_mean_and_coev", (1.0, 1.3), (2.0, 0.8, True))
    add(R + "H2_dist", "calc_theory_moments", (0.3, 1.0, 2.0, 3), (0.6, 0.4, 3.0, 4))
    add(R + "H2_dist", "get_tail get_cdf get_pdf", ([0.3, 1.0, 2.0], 0.7), ([0.6, 0.4, 3.0], 1.7))
    add(R + "H2_dist", "get_residual_params", ([0.3, 1.0, 2.0],), ([0.6, 0.4, 3.0],))
    add(R + "Cox_dist", "get_params", (W1[:3],), (G1[:3],))
    add(R + "Cox_dist", "calc_theory_moments", (0.3, 1.0, 2.0), (0.6, 0.4, 3.0))
    add(R + "Cox_dist", "get_params_by_mean_and_coev", (1.0, 1.3), (2.0, 0.8))
    add(R + "Uniform_dist", "get_params", ([1.0, 1.2],), ([0.5, 0.26],))
    add(R + "Uniform_dist", "calc_theory_moments", (1.0, 0.5, 3), (2.0, 1.5, 4))
    add(R + "Pareto_dist", "get_params get_a_k", ([1.0, 1.2],), ([0.5, 0.4],))
    add(R + "Pareto_dist", "calc_theory_moments", (4.5, 0.5, 3), (5.5, 1.5, 4))
    add(R + "Pareto_dist", "get_tail get_cdf", ([4.5, 0.5], 0.7), ([5.5, 1.5], 2.0))
    add(R + "Erlang_dist", "get_params", ([1.0, 1.3],), ([0.5, 0.3],))
    add(R + "Erlang_dist", "calc_theory_moments", (3, 0.5, 3), (2, 1.5, 4))
    add(R + "Erlang_dist", "get_tail get_cdf", ([3, 0.5], 0.7), ([2, 1.5], 2.0))
    add(R + "Exp_dist", "calc_theory_moments", (0.5, 3), (1.5, 4))
    add(R + "Exp_dist", "get_params", ([0.5],), ([1.5, 4.0],))
    add(R + "Gamma", "get_params", (G1[:2],), (G1,))
    add(R + "Gamma", "get_mu_alpha", (G1,), (G2,))
    add(R + "Gamma", "calc_theory_moments", (0.5, 3.0, 3), (1.5, 0.7, 4))
    add(R + "Gamma", "get_cdf get_pdf get_pls", (0.5, 3.0, 0.3), (1.5, 0.7, 1.4))
    return t


def func(mod, name):
    mod, _, cls = mod.partition(":")
    m = importlib.import_module("most_queue." + mod)
    return getattr(getattr(m, cls) if cls else m, name, None)


_REF = {}


def call(acc, c, i, tab, history, args=None):
    mod, name, k, orig = tab[i]
    f = func(mod, name)
    if f is None:
        return
    mine = deep(orig)
    if args is not None:
        mine = args
    got = outcome(lambda: f(*mine))
    acc.add("comparisons")
    acc.add("transitions")
    if i not in _REF:
        _REF[i] = fresh(lambda: outcome(lambda: f(*deep(orig))))
    if not same(got, _REF[i]):
        c.fail("history-%s.%s" % (mod, name), "%s.%s%s after %s gives %s, in a fresh process %s" % (
            mod, name, short(orig), history, short(got), short(_REF[i])))
    if not same(norm(mine), norm(orig)):
        c.fail("arguments-%s.%s" % (mod, name), "%s.%s changes its arguments: %s became %s" % (mod, name, short(orig), short(mine)))


def names(tab, idx):
    return [tab[i][0].split(".")[-1] + "." + tab[i][1] for i in idx]


def sequences(acc, cfg, c, group, depth):
    """All sequences of calls of the functions of one module."""
    tab = table()
    idx = [i for i, t in enumerate(tab) if t[0] == group]
    for i in idx:                                 # references first, before this process calls anything
        call_ref(i, tab)
    for seq in itertools.product(idx, repeat=depth):
        acc.add("states")
        for j, i in enumerate(seq):
            call(acc, c, i, tab, names(tab, seq[:j]))
        if c.bad > 5:
            return
    # the same argument objects are given to every function of the module that takes them
    for k in (0, 1):
        by = {}
        for i in idx:
            if tab[i][2] == k:
                by.setdefault(repr(tab[i][3]), []).append(i)
        for s in by.values():
            for order in itertools.permutations(s) if len(s) <= 5 else (s, s[::-1]):
                args = deep(tab[s[0]][3])
                for j, i in enumerate(order):
                    call(acc, c, i, tab, names(tab, order[:j]), args)
                acc.add("states")


def call_ref(i, tab):
    mod, name, _, orig = tab[i]
    f = func(mod, name)
    if f is not None and i not in _REF:
        _REF[i] = fresh(lambda: outcome(lambda: f(*deep(orig))))


def across(acc, cfg, c, first):
    """Every ordered pair of functions of different modules."""
    tab = table()
    todo = [i for i, t in enumerate(tab) if t[0] == first and t[2] == 0]
    for i in range(len(tab)):
        call_ref(i, tab)
    for i in todo:
        for j, t in enumerate(tab):
            if t[0] != first and t[2] == 1:
                call(acc, c, i, tab, ["..."])
                call(acc, c, j, tab, names(tab, [i]))
                acc.add("states")


def longer(x, more):
    """The same argument with further moments of the laws it describes."""
    if isinstance(x, list) and any(x == m for m in [G1, G2, W1, D1] + PRB + PRB2):
        return x + [x[-1] * 7.3 * (k + 1) for k in range(more)]
    if isinstance(x, (list, tuple)):
        return type(x)(longer(y, more) for y in x)
    return x


def prefix(short_, long_, rel=1e-9):
    """The answers agree as far as the shorter one goes."""
    if isinstance(short_, list) and isinstance(long_, list):
        return len(long_) >= len(short_) and all(prefix(x, y, rel) for x, y in zip(short_, long_))
    if isinstance(short_, dict) and isinstance(long_, dict):
        return all(k in long_ and prefix(v, long_[k], rel) for k, v in short_.items())
    return same(short_, long_, rel)


# functions that fit a law to all the moments they are given
USES_ALL = {"get_params", "get_self_conv_moments"}


def extra(acc, cfg, c):
    """Moments beyond those a formula needs do not change its answers."""
    tab = table()
    for i, (mod, name, k, args) in enumerate(tab):
        f = func(mod, name)
        if f is None or name in USES_ALL or mod.startswith("theory.gi_m"):
            continue
        a = outcome(lambda: f(*deep(args)))
        for more in (1, 2):
            long_ = longer(args, more)
            if repr(long_) == repr(args):
                break
            acc.add("states")
            acc.add("comparisons")
            b = outcome(lambda: f(*deep(long_)))
            if not prefix(a, b):
                c.fail("extra-%s.%s" % (mod, name), "%s.%s%s gives %s, with %d further moments %s" % (mod, name, short(args), short(a), more, short(b)))
    for name in CLASSES:
        for which in (0, 1):
            a = Life(name, which).ready()
            for more in (1, 2):
                b = Life(name, which)
                b.args = longer(b.args, more)
                if b.args == a.args:
                    break
                b.ready()
                acc.add("states")
                for q in a.queries:
                    if hasattr(a.obj, q):
                        acc.add("comparisons")
                        x, y = outcome(getattr(deep(a.obj), q)), outcome(getattr(deep(b.obj), q))
                        if not prefix(x, y):
                            c.fail("extra-" + q, "%s.%s() gives %s, with %d further moments %s" % (name, q, short(x), more, short(y)))


def neighbours(x):
    """All arguments that differ from x in one place only, and some that share a mean, a ratio or a product."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return
    if isinstance(x, int):
        yield x + 1
    elif isinstance(x, float):
        yield x * 1.03
    elif isinstance(x, np.ndarray):
        for y in neighbours(x.tolist()):
            yield np.array(y)
    elif isinstance(x, (list, tuple)):
        if x and all(isinstance(v, float) for v in x) and abs(sum(x) - 1) < 1e-9 and min(x) >= 0 and len(x) > 1:
            k = x.index(max(x))                  # probabilities: a part moves elsewhere
            for j in range(len(x)):
                if j != k:
                    y = list(x)
                    y[k], y[j] = y[k] - 0.05, y[j] + 0.05
                    yield type(x)(y)
            for j in range(1, len(x) - 1):       # the same mean, another spread
                if x[j] > 0.02:
                    y = list(x)
                    y[j - 1], y[j], y[j + 1] = y[j - 1] + 0.01, y[j] - 0.02, y[j + 1] + 0.01
                    yield type(x)(y)
            return
        for j, v in enumerate(x):
            for w in neighbours(v):
                yield type(x)(x[:j]) + type(x)([w]) + type(x)(x[j + 1:])
        if isinstance(x, tuple):                 # the same ratio or product of two arguments
            num = [j for j, v in enumerate(x) if isinstance(v, float)]
            for i, j in itertools.combinations(num, 2):
                for g in (1.04, 1 / 1.04):
                    yield tuple(v * 1.04 if k == i else v * g if k == j else v for k, v in enumerate(x))


def apart(x):
    """A copy in which no two parts are the same object."""
    if isinstance(x, (list, tuple)):
        return type(x)(apart(y) for y in x)
    return x.copy() if isinstance(x, np.ndarray) else x


def rewrite(old, new):
    """The same mutable object with other contents."""
    if isinstance(old, list):
        for j, v in enumerate(new):
            if isinstance(v, (list, np.ndarray)):
                rewrite(old[j], v)
            else:
                old[j] = v
    elif isinstance(old, np.ndarray):
        old[...] = new


def near_calls(acc, cfg, c, group):
    """Calls whose arguments differ in one place, after each other: the answer depends on all of them."""
    tab = [t for t in table() if t[0] == group and func(t[0], t[1])]
    for mod, name, k, args in tab:
        f = func(mod, name)
        near = [args] + list(neighbours(args))
        refs = [fresh(lambda: outcome(lambda: f(*deep(a)))) for a in near]
        acc.add("states", len(near))

        def check(i, got, how):
            acc.add("comparisons")
            acc.add("transitions")
            if not same(got, refs[i]):
                c.fail("near-%s.%s" % (mod, name), "%s.%s%s %s gives %s, in a fresh process %s" % (mod, name, short(near[i]), how, short(got), short(refs[i])))
        for i in range(len(near)):
            check(i, outcome(lambda: f(*deep(near[i]))), "after calls with arguments that differ in one place")
            check(0, outcome(lambda: f(*deep(near[0]))), "after calls with arguments that differ in one place")
        # the caller's own lists, with contents that changed between the calls
        for i in range(1, len(near)):
            mine = list(apart(args))
            for j, a in enumerate(args):
                if repr(a) != repr(near[i][j]) and isinstance(a, (list, np.ndarray)):
                    check(0, outcome(lambda: f(*mine)), "with the caller's lists")
                    rewrite(mine[j], apart(near[i][j]))
                    check(i, outcome(lambda: f(*mine)), "after the caller changed the list it had given")


def near_lives(acc, cfg, c, name, which):
    """Calculators whose arguments or options differ in one place, after each other."""
    _, argsets, opts, runs, qs = CLASSES[name]
    base = Life(name, which)
    near = [(tuple(base.args), opts)] + [(a, opts) for a in neighbours(tuple(base.args))]
    for o, v in opts.items():
        if isinstance(v, bool):
            near.append((tuple(base.args), {**opts, o: not v}))
        elif isinstance(v, int):
            near.append((tuple(base.args), {**opts, o: v + 5}))

    def life(args, opts, limit=100):
        def f():
            with seam.quiet():
                obj = base.cls(*deep(list(args)), **opts)
                if runs:
                    obj.run()
            return [outcome(getattr(obj, q)) for q in qs if hasattr(obj, q)]
        return outcome(f, limit)
    refs = [fresh(lambda: life(*x, 3)) for x in near]
    ok = [i for i, r in enumerate(refs) if r != "raises CaseTimeout"]     # the iterations need not converge there
    near, refs = [near[i] for i in ok], [refs[i] for i in ok]
    for i in range(len(near)):
        for k in (i, 0):
            got = life(*near[k])
            acc.add("comparisons", len(qs))
            acc.add("transitions")
            if not same(got, refs[k]):
                c.fail("near-" + name, "%s%s after calculators whose arguments differ in one place answers %s, in a fresh process %s" % (name, short(near[k]), short(got), short(refs[k])))
    acc.add("states", len(near))


def one(acc, cfg):
    kind = cfg[0]
    c = th.Cmp(acc, cfg, "")
    if kind == "queries":
        queries(acc, cfg, c, *cfg[1:])
    elif kind == "two":
        two_lives(acc, cfg, c, *cfg[1:])
    elif kind == "extra":
        extra(acc, cfg, c)
    elif kind == "near":
        (near_lives if cfg[1] in CLASSES else near_calls)(acc, cfg, c, *cfg[1:])
    elif kind == "calls":
        sequences(acc, cfg, c, *cfg[1:])
    else:
        across(acc, cfg, c, cfg[1])
    c.done({"case": str(cfg)})


def main(thorough):
    seam.prepare_imports()
    grid = []
    for nm in CLASSES:
        for k in (0, 1):
            grid.append(("queries", nm, k, True))
    for x, y in itertools.combinations_with_replacement(CLASSES, 2):
        if x == y:
            grid += [("two", (x, 0), (x, 0)), ("two", (x, 0), (x, 1))]
        elif thorough or x.split("/")[0] == y.split("/")[0]:
            grid.append(("two", (x, 0), (y, 1)))
    mods = sorted({t[0] for t in table()})
    slow = ("theory.priority_calc", "theory.network_calc", "theory.gi_m_n_calc")
    grid.append(("extra",))
    for m in mods:
        grid.append(("calls", m, 2 if m in slow else 3 if thorough else 2))
        grid.append(("across", m))
        grid.append(("near", m))
    for nm in CLASSES:
        for k in (0, 1):
            grid.append(("near", nm, k))
    return th.run("C18", one, grid, thorough, ["the answer of a fresh process is right: that is the subject of the other properties"], recycle=True)


def replay(rep):
    return th.replay_one(one, rep)
