"""C29: M/G/1 whose first job of a busy period has its own service law, against the exact chain."""
from .. import queues as qq
from ..ctmc import conv_moments
from . import thcommon as th
from .c28 import FirstSpecial


def law(mean, r, scale=1.0):
    """Erlang law: a Gamma law with integer shape, so that two moments determine it."""
    m, x = [], mean * scale
    f = 1.0
    for k in range(1, 5):
        f *= x * (r + k - 1) / r
        m.append(f)
    return m


def one(acc, cfg):
    from most_queue.theory import mg1_warm_calc
    rho, r, mw, rw, scales = cfg
    top = 40
    while True:
        q = FirstSpecial(rho, qq.erlang(r, float(r)), 1, qq.erlang(rw, rw / mw), top=top)
        if q.p[-1] * top ** 3 < 1e-12 or top > 900:
            break
        top *= 2
    w, p0 = q.waits(), q.p[0]
    b, bw = law(1.0, r), law(mw, rw)
    v = [w[0] + (1 - p0) * b[0] + p0 * bw[0],
         w[1] + 2 * w[0] * b[0] + (1 - p0) * b[1] + p0 * bw[1],
         w[2] + 3 * w[1] * b[0] + 3 * w[0] * b[1] + (1 - p0) * b[2] + p0 * bw[2]]
    th.explored(acc, q.g, q.a)
    for scale in scales:
        for num in (2, 3, 4):
            c = th.Cmp(acc, cfg, "M/G/1 warm-")
            got = c.call("get_v", lambda: mg1_warm_calc.get_v(rho / scale, law(1.0, r, scale)[:num], law(mw, rw, scale)[:num]))
            if got is not None:
                for k in range(3):
                    c.num("v[%d]" % k, got[k], v[k] * scale ** (k + 1), 1e-6, 0.0)
            c.done({"rho": rho, "r": r, "warm mean": mw, "v": v})


def main(thorough):
    rs = (1, 2, 4) if not thorough else (1, 2, 3, 4, 6, 9)
    rhos = (0.2, 0.5, 0.8) if not thorough else (0.05, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9)
    means = (0.3, 1.7, 5.0) if not thorough else (0.1, 0.3, 1.0, 1.7, 5.0, 12.0)
    grid = [(x, r, m, w, (1.0, 1e-3, 1e3)) for x in rhos for r in rs for m in means for w in rs]
    return th.run("C29", one, grid, thorough, ["service and warm-up laws are Gamma laws of integer shape"])


def replay(rep):
    return th.replay_one(one, rep)
