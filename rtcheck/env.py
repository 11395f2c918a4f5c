"""Interpreter set-up: where rt1_model and Hypothesis come from."""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def base_env(scratch):
    """Environment of every process that imports rt1_model."""
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        RTCHECK_SCRATCH=scratch,
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


def setup():
    """Make rt1_model (from REPO) and Hypothesis importable."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    # appended at the end: the packages of the repository's own environment
    # (numpy, sympy, ...) take precedence
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    # third-party packages may use their bytecode caches, rt1_model is always compiled
    # from its current source
    for name in ("numpy", "scipy.special", "sympy", "symengine", "hypothesis"):
        importlib.import_module(name)
    sys.pycache_prefix = os.path.join(os.environ.get("RTCHECK_SCRATCH", "/tmp"), "pyc")
    m = importlib.import_module("rt1_model")
    f = os.path.realpath(m.__file__)
    assert f.startswith(os.path.realpath(src) + os.sep), f
    return m
