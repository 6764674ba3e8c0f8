"""C37: Student intervals.  Every sample size of a range, every confidence level; the oracle is the
quantile itself, found by bisection of the exact distribution function."""
import math

from . import thcommon as th

ROWS = list(range(5, 21)) + [25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100, 120, 10 ** 9]


def t_cdf(t, df):
    """Distribution function for t >= 0 (finite sums of sines and cosines)."""
    if df > 10 ** 6:
        return 0.5 * (1 + math.erf(t / math.sqrt(2)))
    a = math.atan(t / math.sqrt(df))
    c, s = math.cos(a), math.sin(a)
    if df % 2:
        term, tot = c, c if df > 1 else 0.0
        for k in range(3, df - 1, 2):
            term *= c * c * (k - 1) / k
            tot += term
        return 0.5 + (a + s * tot) / math.pi
    term, tot = 1.0, 1.0
    for k in range(2, df - 1, 2):
        term *= c * c * (k - 1) / k
        tot += term
    return 0.5 + s * tot / 2


def quantile(gamma, df):
    lo, hi = 0.0, 700.0
    for _ in range(200):
        m = (lo + hi) / 2
        if 2 * t_cdf(m, df) - 1 < gamma:
            lo = m
        else:
            hi = m
    return lo


def one(acc, cfg):
    from most_queue.theory.utils import student_stat as st
    _, gamma, top = cfg
    c = th.Cmp(acc, cfg, "")
    row = {n: quantile(gamma, n - 1) for n in ROWS}
    last = None
    for n in range(5, top):
        acc.add("states")
        acc.add("transitions")
        t = c.call("get_ty", lambda: st.get_ty(gamma, n))
        if t is None:
            break
        dig = 0.0101 if n < 20 else 0.0061        # two digits, then three
        # the value of a table: between those of the neighbouring tabulated sizes, two digits
        lo = max(x for x in ROWS if x <= n)
        hi = min(x for x in ROWS if x >= n)
        acc.add("comparisons")
        if not row[hi] - dig <= t <= row[lo] + dig:
            c.fail("quantile", "t(%g, n=%d) = %s, the quantiles for %d and %d observations are %.4f and %.4f" % (gamma, n, t, lo, hi, row[lo], row[hi]))
        # the nearest tabulated size decides
        near = min((x for x in (lo, hi) if x <= 120), key=lambda x: abs(x - n))
        exact = quantile(gamma, n - 1)
        if n <= 120 and abs(t - exact) > abs(row[near] - exact) + dig:
            c.fail("nearest", "t(%g, n=%d) = %s, exact %.4f, nearest tabulated %d: %.4f" % (gamma, n, t, exact, near, row[near]))
        if last is not None and t > last + 1e-12:
            c.fail("monotone", "t(%g, n=%d) = %s is above %s of a smaller sample" % (gamma, n, t, last))
        last = t
        for mean, std in ((0.0, 1.0), (20.2, 0.8), (-3.0, 1e-3), (1e4, 300.0), (5.0, 0.0)):
            iv = c.call("get_conf_intervals", lambda: st.get_conf_intervals(gamma, n, mean, std))
            if iv is not None:
                half = t * std / math.sqrt(n)
                if len(iv) != 2:
                    c.fail("interval", "%r" % (iv,))
                    continue
                c.num("interval left", iv[0], mean - half, 1e-12, 1e-12)
                c.num("interval right", iv[1], mean + half, 1e-12, 1e-12)
        if c.bad > 20:
            break
    c.done({"gamma": gamma, "sizes": [5, top], "rows": {n: round(x, 4) for n, x in row.items()}})


def main(thorough):
    grid = [("t", g, 400 if not thorough else 1500) for g in (0.95, 0.99, 0.999)]
    return th.run("C37", one, grid, thorough, ["the utility is a table: the quantile of the nearest tabulated sample size, to its printed digits"])


def replay(rep):
    return th.replay_one(one, rep)
