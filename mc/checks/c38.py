"""C38: printed reports and tables show the numbers they are about.  Reports: every history of draws up to a
bound, every moment, every kind of simulator.  Tables: every combination of lists from a finite set."""
import contextlib
import io
import itertools
import json
import os
import re
import subprocess
import sys
import tempfile
import time

from .. import seam
from ..report import Acc, finish, pmap
from . import c19

NUM = re.compile(r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")
ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")


def after(text, label):
    """The numbers printed after a label, up to the next word."""
    i = text.find(label)
    if i < 0:
        return None
    rest = text[i + len(label):]
    m = re.search(r"[A-DF-Za-df-z]", rest)       # an exponent is no word
    return [float(x) for x in NUM.findall(rest[:m.start()] if m else rest)]


def close(got, exp):
    return got is not None and len(got) >= len(exp) and all(
        abs(g - e) <= 6e-4 * max(1.0, abs(e)) for g, e in zip(got, exp))


def labels(sim, short, k=None):
    """label -> numbers of one block of the report."""
    at = (lambda x: x[k]) if k is not None else (lambda x: x)
    o = {"Sojourn moments:": at(sim.v)[:3]}
    if hasattr(sim, "w") and not hasattr(sim, "is_SJ"):
        o["Wait moments:"] = at(sim.w)[:3]
    if not short:
        p = list(at(sim.get_p()))
        o["Stationary prob:"] = p[:10]
        o["Arrived:"] = [at(sim.arrived)]
        o["Served:"] = [at(sim.served)]
        o["In System:"] = [at(sim.in_sys)]
        if not hasattr(sim, "is_SJ"):
            o["Taken:"] = [at(sim.taked)]
            o["PPNZ moments:"] = at(sim.ppnz)[:3]
        if sim.buffer is not None and not hasattr(sim, "is_SJ"):
            o["Dropped:"] = [at(sim.dropped)]
    return o


def report(acc, name, sim, key):
    for short in (False, True):
        acc.add("traces")
        try:
            text = ANSI.sub("", sim.__str__(short))
        except Exception as e:
            acc.violation("%s:raises" % name, "%s: printing raises %s: %s" % (name, type(e).__name__, e), key)
            return
        blocks = [(text, None)]
        if isinstance(sim.served, list):
            parts = re.split(r"Class \d+\n", text)
            blocks = [(parts[k + 1] if k + 1 < len(parts) else "", k) for k in range(len(sim.served))]
        for block, k in blocks:
            for label, exp in labels(sim, short, k).items():
                acc.add("numbers", len(exp))
                got = after(block, label)
                if not close(got, exp):
                    acc.violation("%s:%s" % (name, label), "%s, %s report%s: %r shows %s, the simulation has %s" % (
                        name, "short" if short else "long", "" if k is None else ", class %d" % (k + 1), label,
                        None if got is None else got[:len(exp)], exp), key)
        if not short or isinstance(sim.served, list):
            busy = sum(1 for s in sim.servers if not s.is_free)
            if text.count("Serving") != busy:
                acc.violation("%s:servers" % name, "%s: %d servers are busy, the report shows %d" % (name, busy, text.count("Serving")), key)


def reports(acc, t):
    _, name, nbits, depth = t
    kind = c19.kinds()[name]
    for h in range(1 << nbits):
        bits = tuple((h >> i) & 1 for i in range(nbits))
        seam.set_script(c19.Tree(bits))
        sim = c19.build(kind)
        acc.add("schedules")
        for i in range(depth):
            sim.run_one_step()
            acc.add("transitions")
            if sim.ttek > 0:
                report(acc, name, sim, {"cfg": ["report", name, nbits, depth]})
        if acc.viol:
            break
    seam.set_script(None)


VALUES = (0.0, 1.23456, 98765.4, 3.14159e-7, complex(2.71828, 1e-9))


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f()
    return ANSI.sub("", out.getvalue()).replace("\r", "\n").split("\n")


def rows(lines):
    """Cells of the rows of numbers."""
    out = []
    for l in lines:
        cells = [c.strip() for c in l.split("|")]
        if len(cells) > 1:
            try:
                out.append([complex(c) if "j" in c else float(c) for c in cells if c])
            except ValueError:
                continue
    return out


def agree(got, exp, digits):
    if len(got) != len(exp):
        return False
    for g, e in zip(got, exp):
        if len(g) != len(e) or any(abs(x - y) > 0.51 * 10 ** (1 - digits) * abs(y) + 1e-300 for x, y in zip(g, e)):
            return False
    return True


def tables(acc, t):
    from most_queue.general_utils import tables as T
    _, kind, n, m = t
    R = lambda x: x.real if isinstance(x, complex) else x
    key = {"cfg": list(t)}

    def check(f, exp, digits, what):
        acc.add("traces")
        acc.add("numbers", sum(len(x) for x in exp))
        try:
            got = rows(printed(f))
        except Exception as e:
            acc.violation("table:%s:raises" % kind, "%s raises %s: %s" % (what, type(e).__name__, e), key)
            return
        if not agree(got, exp, digits):
            acc.violation("table:%s" % kind, "%s shows %s, must show %s" % (what, got, exp), key)
    if kind == "times":
        for s in itertools.product(VALUES, repeat=n):
            for c in itertools.product(VALUES, repeat=m):
                exp = [[j + 1, R(c[j]), R(s[j])] for j in range(min(n, m))]
                check(lambda: T.times_print(list(s), list(c), len(s) % 2), exp, 5, "times_print(%s, %s)" % (s, c))
        if n == m == 1:
            for s, c in itertools.product(VALUES, repeat=2):
                check(lambda: T.times_print(s, c), [[1, R(c), R(s)]], 5, "times_print(%s, %s)" % (s, c))
    elif kind == "probs":
        for size in (1, 2, 10):
            s = [0.5 / (j + 1) + 0.001234 for j in range(n)]
            c = [0.4 / (j + 2) + 0.004321 for j in range(m)]
            exp = [[j, c[j], s[j]] for j in range(min(n, m, size))]
            check(lambda: T.probs_print(s, c, size), exp, 5, "probs_print(%d sim, %d calc, %d)" % (n, m, size))
            if size == 10:
                check(lambda: T.probs_print(s, c), exp, 5, "probs_print(%d sim, %d calc)" % (n, m))
    else:
        s = [[1.5 + 7 * k + 0.31 * j for j in range(m)] for k in range(n)]
        c = [[0.11 + 90 * k + 3.7 * j for j in range(m)] for k in range(n)]
        for w in (True, False):
            acc.add("traces")
            acc.add("numbers", 2 * n * m)
            try:
                lines = printed(lambda: T.times_print_with_classes(s, c, w))
            except Exception as e:
                acc.violation("table:classes:raises", "times_print_with_classes raises %s: %s" % (type(e).__name__, e), key)
                continue
            got = {}
            k = {"ИМ": 0, "Р": 0}
            for l in lines:
                cells = [x.strip() for x in l.split("|")]
                tag = [x for x in cells if x in k]
                if tag:
                    got[tag[0], k[tag[0]]] = [float(x) for x in cells if NUM.fullmatch(x)]
                    k[tag[0]] += 1
            exp = {("ИМ", i): s[i] for i in range(n)}
            exp.update({("Р", i): c[i] for i in range(n)})
            if got.keys() != exp.keys() or not all(agree([got[x]], [exp[x]], 3) for x in exp):
                acc.violation("table:classes", "times_print_with_classes shows %s, must show %s" % (got, exp), key)


PHASES = ("warm-up state", "cooling state", "cooling delay state")


PLOT = """
import json, sys
stats, par = eval(sys.stdin.read())
from most_queue.general_utils import vacations_paper_utils as U
from matplotlib import pyplot as plt
out = []
for mode, what, num in par:
    plt.close("all")
    U.make_plot(stats, num, what, mode)
    out.append([[[complex(v).real for v in l.get_xdata()], [complex(v).real for v in l.get_ydata()]] for l in plt.gcf().axes[0].lines])
print()
print(json.dumps(out))
"""


def stat_of(i):
    """An experiment record (numbers tell the fields apart)."""
    x = lambda k: round(0.1 + 0.0371 * k + 0.013 * i, 4)
    return {"n": 2 + i, "ro": 0.3 + 0.1 * i, "coev_service": 0.81 + i, "coev_warm": 0.62 + i, "coev_cold": 0.43 + i,
            "coev_cold_delay": 0.24 + i, "tt_num_of_iter": 17 + i, "sim_warm_prob": x(1), "tt_warm_prob": x(2), "sim_cold_prob": x(3),
            "tt_cold_prob": x(4), "sim_cold_delay_prob": x(5), "tt_cold_delay_prob": x(6), "tt_time": 1.5 + i, "sim_time": 2.75 + i,
            "p_tt": [0.5 / (j + 1 + i) for j in range(11 + 7 * i)], "p_sim": [0.3 / (j + 2 + i) for j in range(11 + 9 * i)],
            "w_tt": [1.25 + i, complex(3.5, 1e-9) if i % 2 else 3.5, 9.25], "w_sim": [1.1, 3.3 + i, complex(8.8, 0.0) if i % 2 else 8.8],
            "b_d": [4.5 + i, 40.0, 500.0], "coev": 0.9 + i}


def experiments(acc, t):
    """Tables, files and plots of the vacation experiments."""
    from most_queue.general_utils import vacations_paper_utils as U
    key = {"cfg": list(t)}
    _, kind, n = t
    stats = [stat_of(i) for i in range(n)]
    R = lambda x: x.real if isinstance(x, complex) else x
    bad = lambda what, text: acc.violation("experiment:" + what, text, key)
    acc.add("traces")
    if kind == "table":
        lines = printed(lambda: U.print_table(stats))
        exp = []
        for s in stats:
            exp += [[j, s["p_tt"][j], s["p_sim"][j]] for j in range(11)] + [[j + 1, R(s["w_tt"][j]), R(s["w_sim"][j])] for j in range(3)]
        got = rows(lines)
        if not agree([g[:3] for g in got], exp, 3):
            bad("table", "print_table shows %s, must show %s" % (got, exp))
        acc.add("numbers", 3 * len(exp))
        text = "\n".join(lines)
        for i, s in enumerate(stats):
            block = text.split("Comparison of calculation")[1 + i]
            for lab, val in [("Utilization factor:", [s["ro"]]), ("M/H2/", [s["n"]]), ("algorithm:", [s["tt_num_of_iter"]]),
                             ("Service time coefficient of variation", [s["coev_service"]]), ("Warm-up time coefficient of variation", [s["coev_warm"]]),
                             ("Cooling time coefficient of variation", [s["coev_cold"]]), ("Cooling delay coefficient of variation", [s["coev_cold_delay"]]),
                             ("Running time of the Takahashi-Takami algorithm:", [s["tt_time"]]), ("Simulation time:", [s["sim_time"]])] + \
                    [("being in a " + a, [s["sim_%s_prob" % b], s["tt_%s_prob" % b]]) for a, b in zip(PHASES, ("warm", "cold", "cold_delay"))]:
                at = block.find(lab)
                nums = [float(x) for x in NUM.findall(block[at + len(lab):at + len(lab) + 60])] if at >= 0 else []
                acc.add("numbers", len(val))
                if len(nums) < len(val) or any(abs(a - b) > 6e-3 for a, b in zip(nums, val)):
                    bad("table", "print_table: %s %s, must be %s" % (lab, nums[:len(val)], val))
    elif kind == "file":
        for s in stats:
            for f in ("w_tt", "w_sim"):
                s[f] = [R(x) for x in s[f]]
        with tempfile.TemporaryDirectory() as d:
            U.dump_stat(stats, os.path.join(d, "x.json"))
            if U.load_stat(os.path.join(d, "x.json")) != stats:
                bad("file", "load_stat does not return what dump_stat was given")
    elif kind == "plot":                          # the real plotting library, without a display
        par = list(itertools.product(("error", "abs"), ("ro", "n", "delay_mean", "coev"), range(3)))
        with tempfile.TemporaryDirectory() as d:
            env = {k: v for k, v in os.environ.items() if k not in ("DISPLAY", "MPLBACKEND", "PYTHONPATH")}
            env.update(MPLCONFIGDIR=d, PYTHONPATH=seam.REPO, PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run([sys.executable, "-c", PLOT], input=repr((stats, par)), capture_output=True, text=True, env=env, cwd=d,
                               timeout=200)
        if r.returncode:
            return bad("plot", "make_plot without a display fails: " + r.stderr[-300:])
        for (mode, what, num), got in zip(par, json.loads(r.stdout.split("\n")[-2])):
            acc.add("traces")
            xs = [s["b_d"][0] if what == "delay_mean" else s[what] for s in stats]
            S, C = [R(s["w_sim"][num]) for s in stats], [R(s["w_tt"][num]) for s in stats]
            want = [[100 * (a - b) / b for a, b in zip(S, C)]] if mode == "error" else [S, C]
            acc.add("numbers", sum(len(w) for w in want))
            if len(got) != len(want) or any(len(g[0]) != len(xs) or max(abs(a - b) for a, b in zip(g[0] + g[1], xs + w)) > 1e-6
                                            for g, w in zip(got, want)):
                bad("plot", "make_plot(%s, %s, moment %d) draws %s, must draw %s over %s" % (mode, what, num, got, want, xs))
    else:
        for m, c in itertools.product((0.01, 1.0, 7.0, 300.0), (0.2, 0.7, 1.0, 1.6)):
            acc.add("traces")
            g = U.calc_moments_by_mean_and_coev(m, c)
            e = [m, m * m * (1 + c * c), m ** 3 * (1 + c * c) * (1 + 2 * c * c)]
            if any(abs(a - b) > 1e-9 * b for a, b in zip(g, e)):
                bad("moments", "calc_moments_by_mean_and_coev(%g, %g) = %s, must be %s" % (m, c, g, e))


# Runs a script with stand-ins for its simulators, shows no window and keeps what it prints and draws.
SCRIPT = """
import ast, contextlib, io, json, os, runpy, sys
import matplotlib
matplotlib.use("Agg")
matplotlib.use = lambda *a, **k: None
import matplotlib.pyplot as plt
drawn = []
def keep(*a, **k):
    drawn.append([[l.get_label(), [complex(v).real for v in l.get_xdata()], [complex(v).real for v in l.get_ydata()]] for l in plt.gcf().axes[0].lines])
plt.show = plt.savefig = keep
import most_queue.rand_distribution as R
import most_queue.sim.fj_sim as F
import most_queue.sim.flow_sum_sim as S
class Flows:
    def __init__(self, a, *args, **kw):
        self.flows_ = [[i + 0.5, i + 2.5, i + 3.5, i + 4.5] for i in range(len(a) - 1)]
        self.coevs = [0.1 * i + 0.03 for i in range(len(a) - 1)]
        self.a1_sum = [f[0] for f in self.flows_]
        self.a2_sum = [f[1] for f in self.flows_]
        self.result_flow = self.flows_[-1]
    def sum_flows(self):
        pass
class Join:
    def __init__(self, n, k, *a, **kw):
        assert n == k
        self.n = n
    def set_sources(self, l, kind):
        self.l = l
    def set_servers(self, mu, kind):
        self.mu = mu
    def run(self, n):
        self.v = [1.0 + self.n / 7.0 + self.l + self.mu, 5.0, 9.0]
F.ForkJoinSim, S.FlowSumSim = Join, Flows
class Turn:
    def __init__(self, *vals):
        self.vals, self.i = vals, 0
    def __call__(self, *a, **k):
        self.i += 1
        return self.vals[self.i % len(self.vals)]
name = sys.argv[1]
if name == "approx":
    R.Gamma.generate_static = staticmethod(Turn(1.0, 2.0))
    R.H2_dist.generate_static = staticmethod(Turn(3.0, 5.0))
out = io.StringIO()
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
    runpy.run_path(sys.argv[2], run_name="__main__")
print()
print(json.dumps([out.getvalue(), drawn]))
"""
SCRIPTS = {"approx": "general_utils/approx_cdf_make.py", "flows": "misc/flow_sum.py", "fork": "misc/compare_fj_calc.py"}


def scripts(acc, t):
    """The scripts that compare calculation and simulation print and draw the numbers of both."""
    name = t[1]
    key = {"cfg": list(t)}
    bad = lambda text: acc.violation("script:" + name, "%s: %s" % (SCRIPTS[name], text), key)
    acc.add("traces")
    with tempfile.TemporaryDirectory() as d:
        env = {k: v for k, v in os.environ.items() if k not in ("DISPLAY", "MPLBACKEND", "PYTHONPATH")}
        env.update(MPLCONFIGDIR=d, PYTHONPATH=seam.REPO, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-c", SCRIPT, name, os.path.join(seam.REPO, "most_queue", SCRIPTS[name])], capture_output=True,
                           text=True, env=env, cwd=d, timeout=250)
    if r.returncode:
        return bad("fails: " + r.stderr[-300:])
    text, drawn = json.loads(r.stdout.strip().split("\n")[-1])
    got = rows(text.split("\n"))
    line = lambda lab: next((l[1:] for f in drawn for l in f if l[0] == lab), None)

    def curve(lab, xs, ys, rel=1e-9):
        acc.add("numbers", len(ys))
        l = line(lab)
        if l is None or len(l[0]) != len(xs) or any(abs(a - b) > rel * (abs(b) + 1e-9) for a, b in zip(l[0] + l[1], list(xs) + list(ys))):
            bad("the line %r is %s, must be %s over %s" % (lab, l, list(ys)[:5], list(xs)[:5]))
    if name == "approx":
        from most_queue.rand_distribution import H2_dist, Gamma
        m = [3.0, 9 * 2.44]
        sd = 3.6
        m.append(4 * sd ** 3 + 3 * m[1] * m[0] - 2 * m[0] ** 3)
        exp = [[k + 1, m[k], (1 + 2 ** (k + 1)) / 2, (3 ** (k + 1) + 5 ** (k + 1)) / 2] for k in range(3)]
        acc.add("numbers", 9)
        if not agree(got, exp, 3):
            bad("shows %s, must show %s" % (got, exp))
        xs = [sd * i / 9999 for i in range(10000)]
        h = H2_dist.get_params(m)
        mu, al = Gamma.get_mu_alpha(m)
        curve("H2 approx", xs, [H2_dist.get_pdf(h, x) for x in xs])
        curve("Gamma approx", xs, [Gamma.get_pdf(mu, al, x) for x in xs])
    elif name == "flows":
        import copy
        from most_queue.rand_distribution import Gamma
        from most_queue.theory.utils.flow_sum import SummatorNumeric
        a = [list(Gamma.calc_theory_moments(*Gamma.get_mu_alpha_by_mean_and_coev(1, 0.74), 4)) for _ in range(10)]
        num = SummatorNumeric(copy.deepcopy(a))
        num.sum_flows()
        sim = [[i + 0.5, i + 2.5, i + 3.5, i + 4.5] for i in range(9)]
        cs = [0.1 * i + 0.03 for i in range(9)]
        exp = []
        for i in range(9):
            exp += [sim[i] + [cs[i]], [complex(x).real for x in num.flows_[i]] + [num.coevs[i]]]
        acc.add("numbers", 5 * len(exp))
        lines = [[float(x) for x in l.split("|")[1:]] for l in text.split("\n") if l.count("|") == 5 and l.split("|")[1].strip()[:1].isdigit()]
        if len(lines) != len(exp) or any(abs(x - y) > 6e-4 for g, e in zip(lines, exp) for x, y in zip(g, e)):
            bad("shows %s, must show %s" % (lines[:4], exp[:4]))
        ns = list(range(2, 11))
        err = lambda x, y: 100 * (complex(x).real - y) / y
        sim_l = [l for f in drawn for l in f]
        acc.add("numbers", 9 * len(sim_l))
        want = [[s[0] for s in sim], [complex(f[0]).real for f in num.flows_], [err(f[0], s[0]) for f, s in zip(num.flows_, sim)],
                [err(f[1], s[1]) for f, s in zip(num.flows_, sim)], [err(x, y) for x, y in zip(num.coevs, cs)]]
        if [l[1] for l in sim_l] != [ns] * 5 or any(abs(x - y) > 1e-6 * (1 + abs(y)) for l, w in zip(sim_l, want) for x, y in zip(l[2], w)):
            bad("draws %s, must draw %s" % (sim_l[:2], want[:2]))
    else:
        from most_queue.theory import fj_calc as fj
        ns = list(range(2, 15))
        sim = [1.0 + n / 7.0 + 0.8 + 1.0 for n in ns]
        calc = {k: [getattr(fj, "get_v1_fj_" + f)(0.8, 1.0, n) for n in ns] for k, f in
                (("Varki", "varki_merchant"), ("Varma", "varma"), ("Nelson", "nelson_tantawi"))}
        exp = [[s, a, b, c] for s, a, b, c in zip(sim, calc["Varki"], calc["Varma"], calc["Nelson"])]
        acc.add("numbers", 4 * len(exp))
        if len(got) != len(exp) or any(len(g) != 4 or any(abs(x - y) > 6e-4 for x, y in zip(g, e)) for g, e in zip(got, exp)):
            bad("shows %s, must show %s" % (got[:3], exp[:3]))
        if len(drawn) != 2 or len(drawn[0]) != 4 or len(drawn[1]) != 3:
            return bad("draws %d figures" % len(drawn))
        curve("ИМ", ns, sim)
        for k, v in calc.items():
            curve(k, ns, v)
            drawn_err = next((l[1:] for l in drawn[1] if l[0] == k), None)
            w = [100 * (x - s) / s for x, s in zip(v, sim)]
            if drawn_err is None or drawn_err[0] != ns or any(abs(x - y) > 1e-6 for x, y in zip(drawn_err[1], w)):
                bad("the errors of %s are drawn as %s, must be %s" % (k, drawn_err, w))


def graphs(acc, t):
    """The graph of a network has exactly the transitions of its routing matrix."""
    import numpy as np
    from most_queue.theory import network_viewer as V
    nodes = t[1]
    row = list(itertools.product((0, 0.4, 1.0), repeat=nodes + 1))
    for k, flat in enumerate(itertools.product(row, repeat=2)):
        M = np.zeros((nodes + 1, nodes + 1))
        M[k % (nodes + 1)] = flat[0]
        M[(k + 1) % (nodes + 1)] = flat[1]
        exp = {(str(i), str(j + 1)): float(M[i, j]) for i in range(nodes + 1) for j in range(nodes + 1) if M[i, j]}
        for eng in ("networkx", "graphviz"):
            acc.add("traces")
            acc.add("numbers", len(exp))
            G = V.create_DG(np.matrix(M), engine=eng)
            if eng == "networkx":
                got = {(str(a), str(b)): float(w) for a, b, w in G.edges.data("weight")}
            else:
                got = {m.group(1, 2): float(m.group(3)) for m in re.finditer(r'(\d+) -> (\d+) \[label=\"?([-\d.e]+)', G.source)}
            if got != exp:
                acc.violation("graph:" + eng, "create_DG(%s, %s) has the transitions %s, must have %s" % (M.tolist(), eng, got, exp), {"cfg": list(t)})
                return


def task(t):
    acc = Acc()
    if t[0] in ("experiment", "graph", "script"):
        try:
            {"experiment": experiments, "graph": graphs, "script": scripts}[t[0]](acc, t)
        except Exception as e:
            acc.violation("%s:raises" % t[0], "%s raises %s: %s" % (t, type(e).__name__, e), {"cfg": list(t)})
        return acc
    if t[0] == "report":
        with seam.quiet():
            reports(acc, t)
    else:
        tables(acc, t)
    return acc


def main(thorough):
    t0 = time.time()
    seam.prepare_imports()
    seam.install_fake_rng()
    nbits, depth = (8, 20) if thorough else (5, 14)
    tasks = [("report", n, nbits, depth) for n in c19.kinds() if n != "network"]
    tasks += [("table", "times", n, m) for n in range(1, 4) for m in range(1, 4 if thorough else 3)]
    tasks += [("table", "probs", n, m) for n in (1, 3, 9, 10, 11, 30) for m in (1, 3, 9, 10, 11, 30)]
    tasks += [("table", "classes", n, m) for n in (1, 2, 3, 5) for m in (1, 2, 3, 4)]
    tasks += [("experiment", k, n) for k in ("table", "file", "plot") for n in (1, 2, 3)] + [("experiment", "moments", 1)]
    tasks += [("graph", n) for n in (1, 2)] + [("script", n) for n in SCRIPTS]
    acc = pmap(task, tasks)
    cov = {"schedules": acc.n.get("schedules", 0), "transitions": acc.n.get("transitions", 0), "states": acc.n.get("traces", 0),
           "traces_validated_against_impl": acc.n.get("traces", 0), "numbers_compared": acc.n.get("numbers", 0),
           "max_depth": depth, "exhaustive": True}
    return finish("C38", "model_checking", acc, t0, cov, ["at least one event has happened (there are no time averages before)"])


def replay(rep):
    seam.prepare_imports()
    seam.install_fake_rng()
    acc = task(tuple(rep["cfg"]))
    for v in acc.viol:
        print(v[1])
    return 1 if acc.viol else 0
