"""Imports the code under test from /repo (never a stale .pyc) and installs the static seams."""
import os
import sys
import tempfile

sys.dont_write_bytecode = True
REPO = os.environ.get("PYBBN_SIM_REPO", "/repo")  # another tree only while developing the checks


def load():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy  # noqa
    import networkx  # noqa
    import scipy.stats  # noqa
    import pandas  # noqa
    from . import simset, trace
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "nonexistent-pycache-of-pybbn-sim")
    with trace.sim_locks():
        import pybbn
        assert pybbn.__file__.startswith(REPO + "/"), pybbn.__file__
        import importlib
        import pkgutil
        for m in pkgutil.walk_packages(pybbn.__path__, "pybbn."):
            importlib.import_module(m.name)
    sys.pycache_prefix = None
    simset.install()
