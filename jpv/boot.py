"""Process set-up shared by every entry point: import paths and the code under test."""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# JPV_REPO only serves sensitivity experiments on scratch copies; checks use /repo.
REPO = os.environ.get("JPV_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    sys.dont_write_bytecode = True
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)


def import_jsonpickle():
    """Import the package from source, never from a cached .pyc that may be stale."""
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/jpv-no-pyc"
    try:
        import jsonpickle
        import jsonpickle.ext  # noqa: F401
        import jsonpickle.handlers  # noqa: F401
        import jsonpickle.pickler  # noqa: F401
        import jsonpickle.unpickler  # noqa: F401
    finally:
        sys.pycache_prefix = old
    where = os.path.realpath(jsonpickle.__file__)
    want = os.path.realpath(os.path.join(REPO, "jsonpickle"))
    if not where.startswith(want + os.sep):
        raise RuntimeError(f"jsonpickle was imported from {where}, not from {want}")
    return jsonpickle


def import_ext(name):
    """Import one of jsonpickle.ext's modules from source."""
    import importlib

    importlib.import_module({"gmpy": "gmpy2"}.get(name, name))
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent/jpv-no-pyc"
    try:
        return importlib.import_module(f"jsonpickle.ext.{name}")
    finally:
        sys.pycache_prefix = old
