"""setup: nothing is compiled; check that the interpreter and the code can be loaded."""
from .. import seam


def main(thorough):
    seam.prepare_imports()
    import numpy, scipy, networkx  # noqa
    import most_queue.sim.qs_sim  # noqa
    print("setup ok", numpy.__version__, scipy.__version__)
    return 0
