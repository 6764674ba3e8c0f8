"""
The seam between the model checker and the code under test.

* `/repo` is imported from its current working tree, never from stale byte code.
* Every source of nondeterminism of the simulators is a random-number draw.  All
  draws go through `np.random.default_rng(...)` generators or through the global
  `np.random.*` functions; both are replaced here by objects that ask the current
  `Script` for the value.  Streams are told apart by the distribution parameters
  (every stream of a configuration has its own mean), never by draw order between
  streams.
* wall-clock sleeps and progress bars are neutralised.
"""
import io
import math
import os
import sys
import tempfile
import types

REPO = os.environ.get("MQ_REPO", "/repo")

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "mq-verif-no-pycache-%d" % os.getpid())
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")

import numpy as np  # noqa: E402

REAL_DEFAULT_RNG = np.random.default_rng
REAL = {k: getattr(np.random, k) for k in
        ("rand", "random", "random_sample", "gamma", "normal", "uniform", "exponential", "seed")}


class SeamError(Exception):
    """The code asked for a draw the harness does not own."""


class Script:
    """Answers to random draws.  `streams[label]` is the list of answers, in the
    order in which that stream is asked.  Draws past the end are answered by
    values far beyond the horizon."""

    BIG = 1.0e7

    def __init__(self, streams=None):
        self.streams = streams or {}
        self.pos = {}
        self.over = {}
        self.unknown = []

    def draw(self, label):
        seq = self.streams.get(label)
        if seq is None:
            raise SeamError("draw from unknown stream %r" % (label,))
        i = self.pos.get(label, 0)
        self.pos[label] = i + 1
        if i < len(seq):
            return seq[i]
        k = self.over.get(label, 0)
        self.over[label] = k + 1
        return self.overflow(label, i)

    def overflow(self, label, i):
        return self.BIG * (1 + 0.001 * ((i * 7 + 3) % 101)) + 13.7 * i


class _State:
    script = None


STATE = _State()


def set_script(script):
    STATE.script = script


def _script():
    if STATE.script is None:
        raise SeamError("random draw outside a scripted run")
    return STATE.script


class FakeGenerator:
    """Stand-in for numpy.random.Generator."""

    def __init__(self, *_a, **_k):
        pass

    def normal(self, loc=0.0, scale=1.0, size=None):
        return _script().draw(("N", round(float(loc), 9)))

    def random(self, size=None):
        return _script().draw("u")

    rand = random
    random_sample = random

    def gamma(self, shape, scale=1.0, size=None):
        return _script().draw(("G", round(float(shape), 6), round(float(scale), 6)))

    def uniform(self, low=0.0, high=1.0, size=None):
        return _script().draw(("U", round(float(low), 9), round(float(high), 9)))

    def exponential(self, scale=1.0, size=None):
        return _script().draw(("E", round(float(scale), 9)))

    def __bool__(self):
        return True


class GlobalFake(FakeGenerator):
    """The module level np.random functions: uniform draws are told apart."""

    def random(self, size=None):
        return _script().draw("gu")

    rand = random
    random_sample = random


def install_fake_rng():
    g = GlobalFake()
    np.random.default_rng = lambda *a, **k: FakeGenerator()
    np.random.rand = lambda *a: g.random()
    np.random.random = lambda *a: g.random()
    np.random.random_sample = lambda *a: g.random()
    np.random.gamma = g.gamma
    np.random.normal = g.normal
    np.random.uniform = g.uniform
    np.random.exponential = g.exponential


def install_real_rng():
    np.random.default_rng = REAL_DEFAULT_RNG
    for k, v in REAL.items():
        setattr(np.random, k, v)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class quiet:
    """Silence prints / progress bars of the code under test."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = _Null()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


def prepare_imports():
    """Make `most_queue` importable from the working tree of /repo."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # matplotlib wants a display at import time in theory/utils/flow_sum.py; the
    # drawing is never used by any check.
    if "matplotlib" not in sys.modules:
        mpl = types.ModuleType("matplotlib")
        mpl.use = lambda *a, **k: None
        plt = types.ModuleType("matplotlib.pyplot")

        def _noop(*a, **k):
            return None
        for f in ("plot", "show", "legend", "savefig", "figure", "subplots", "xlabel", "ylabel",
                  "title", "grid", "close", "text", "rcParams"):
            setattr(plt, f, _noop)
        mpl.pyplot = plt
        mpl.rcParams = {}
        sys.modules["matplotlib"] = mpl
        sys.modules["matplotlib.pyplot"] = plt
    import time
    time.sleep = lambda *_a: None
    # tqdm progress bars: a transparent iterator
    try:
        import tqdm as _tq

        class _Bar:
            def __init__(self, it=None, **k):
                self.it = it

            def __iter__(self):
                return iter(self.it if self.it is not None else ())

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def update(self, *a):
                pass

            def set_description(self, *a, **k):
                pass

            def close(self):
                pass
        _tq.tqdm = _Bar
    except ImportError:
        pass
    import warnings
    warnings.simplefilter("ignore")
    # third-party modules that use random generators themselves come first
    for mod in ("scipy.stats", "scipy.special", "scipy.integrate", "scipy.misc", "networkx"):
        try:
            __import__(mod)
        except ImportError:
            pass
    m = __import__("most_queue")
    f = getattr(m, "__file__", None) or list(m.__path__)[0]
    if not os.path.realpath(f).startswith(os.path.realpath(REPO)):
        raise SeamError("most_queue imported from %s, not from %s" % (f, REPO))


def close(a, b, rtol=1e-9, atol=1e-9):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
