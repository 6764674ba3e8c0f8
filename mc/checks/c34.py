"""C34: moments of sums of independent times.  All sequences of additions and subtractions of small
discrete laws up to a depth are run on the moment calculators; the model state is the exact law of the
sum, kept with rational probabilities."""
from fractions import Fraction as F
import itertools

from . import thcommon as th

LAWS = {
    "const": {3: F(1)},
    "zero": {0: F(1)},
    "coin": {0: F(1, 2), 2: F(1, 2)},
    "skew": {1: F(9, 10), 11: F(1, 10)},
    "three": {1: F(1, 6), 2: F(1, 3), 7: F(1, 2)},
    "signed": {-4: F(1, 4), 1: F(3, 4)},
}


def conv(a, b):
    out = {}
    for x, p in a.items():
        for y, q in b.items():
            out[x + y] = out.get(x + y, 0) + p * q
    return out


def moments(a, scale=1, num=3):
    return [sum(p * F(x) ** k for x, p in a.items()) * F(scale) ** k for k in range(1, num + 1)]


def law_of(ms):
    """The exact law of a multiset of terms."""
    a = {0: F(1)}
    for m in ms:
        a = conv(a, LAWS[m])
    return a


def one(acc, cfg):
    from most_queue.general_utils import conv as cv
    from most_queue.theory.utils.diff5dots import diff5dots
    kind = cfg[0]
    c = th.Cmp(acc, cfg, kind + "-")
    if kind == "seq":
        _, depth, num, scale, first = cfg
        names = sorted(LAWS)
        M = {n: [float(x) for x in moments(LAWS[n], F(scale))] for n in names}
        # depth first over all operation sequences; the state is the multiset of terms in the sum
        seen = {}
        stack = [((first,), M[first], 0)]
        while stack:
            ms, got, d = stack.pop()
            acc.add("states")
            if ms not in seen:
                seen[ms] = [float(x) for x in moments(law_of(ms), F(scale), num)]
            exp = seen[ms]
            if len(got) != (3 if d == 0 else num):
                c.fail("length", "%d moments for num=%d after %s" % (len(got), num, ms))
                break
            big = 12.0 * (len(ms) + depth)           # no partial sum was larger
            if not all(c.num("m[%d]" % k, got[k], exp[k], 1e-10, 1e-11 * (float(scale) * big) ** (k + 1)) for k in range(num)):
                break
            if d == depth:
                continue
            for n in names:
                before = list(got), list(M[n])
                r = c.call("get_moments", lambda: cv.get_moments(got, M[n], num))
                acc.add("transitions")
                if r is not None:
                    stack.append((tuple(sorted(ms + (n,))), list(r), d + 1))
                r = c.call("get_moments", lambda: cv.get_moments(M[n], got, num))
                acc.add("transitions")
                if r is not None and d + 1 == depth:
                    stack.append((tuple(sorted(ms + (n,))), list(r), d + 1))
                if n in ms and len(ms) > 1:
                    rest = list(ms)
                    rest.remove(n)
                    r = c.call("get_moments_minus", lambda: cv.get_moments_minus(got, M[n], num))
                    acc.add("transitions")
                    if r is not None:
                        stack.append((tuple(rest), list(r), d + 1))
                if before != (list(got), list(M[n])):
                    c.fail("arguments", "the arguments were changed")
            if c.bad > 5:
                break
        c.done({"terms": first, "depth": depth, "scale": scale})
    if kind == "self":
        _, name, scale = cfg
        for times in range(0, 8):
            a = law_of((name,) * times)
            for num in (1, 2, 3, 4, 5):
                r = c.call("get_self_conv_moments", lambda: cv.get_self_conv_moments(
                    [float(x) for x in moments(LAWS[name], F(scale))], times, num))
                acc.add("states")
                acc.add("transitions")
                if r is not None:
                    if len(r) != min(num, 3):
                        c.fail("self-length", "%d moments for num=%d" % (len(r), num))
                    c.seq("self", r, [float(x) for x in moments(a, F(scale), min(num, 3))], 1e-11, 1e-12 * float(80 * scale) ** 3)
        c.done()
    if kind == "diff":
        _, n, h, x0 = cfg
        # all polynomials of degree below the number of points with coefficients -2..2
        for co in itertools.product((-2, 0, 1, 3), repeat=n):
            f = [sum(a * (x0 + i * h) ** k for k, a in enumerate(co)) for i in range(n)]
            acc.add("states")
            acc.add("transitions")
            d = c.call("diff5dots", lambda: diff5dots([float(x) for x in f], float(h)))
            if d is None:
                break
            x = x0
            exp = [sum(k * a * x ** (k - 1) for k, a in enumerate(co) if k),
                   sum(k * (k - 1) * a * x ** (k - 2) for k, a in enumerate(co) if k > 1),
                   sum(k * (k - 1) * (k - 2) * a * x ** (k - 3) for k, a in enumerate(co) if k > 2) if n > 3 else 0]
            s = 1.0 + float(max(abs(y) for y in f))
            for k in range(3):
                c.num("f%s" % ("'" * (k + 1)), d[k], float(exp[k]), 1e-9, 1e-13 * s / float(h) ** (k + 1) + 1e-12)
        c.done()
        bad = c.call("diff5dots", lambda: diff5dots([1.0] * 6, 0.5))
        if bad is not None and list(bad) != [0, 0, 0]:
            c.fail("length", "six points: %s" % (bad,))


def main(thorough):
    grid = [("seq", 3 if not thorough else 4, num, s, n) for num in (1, 2, 3) for s in (F(1), F(1, 1000), F(1000)) for n in sorted(LAWS)]
    grid = [(k, d, num, str(s), n) for k, d, num, s, n in grid]
    grid += [("self", n, s) for n in sorted(LAWS) for s in ("1", "1/1000", "500")]
    grid += [("diff", n, h, x) for n in (3, 4, 5) for h in ("1/2", "1/128", "8") for x in (("0", "-2") if n == 5 and not thorough else ("0", "1", "-2"))]
    return th.run("C34", lambda acc, cfg: one(acc, tuple(F(x) if isinstance(x, str) and x[-1].isdigit() else x for x in cfg)), grid, thorough,
                  ["laws with finitely many integer values; numeric derivatives on polynomials they must reproduce"])


def replay(rep):
    rep = dict(rep, cfg=[F(x) if isinstance(x, str) and x[-1].isdigit() else x for x in rep["cfg"]])
    return th.replay_one(one, rep)
