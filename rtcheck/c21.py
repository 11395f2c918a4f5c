"""C21: the package works identically without its optional dependencies."""
import atexit
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from . import c10, gen
from .core import Sub
from .sut import Sut, Violation, check

RULE = (
    "random models (with array parameters, definitions, Jacobians, copies) evaluated in interpreters in "
    "which symengine and/or matplotlib are not importable, compared with the full installation; "
    "non-trivial: the distributions or definitions contain symbols, or an array is used"
)

VARIANTS = {"symengine": "sympy", "matplotlib": "symengine", "symengine,matplotlib": "sympy", "": "symengine"}


@st.composite
def cases(draw):
    c = gen.light(dict(draw(c10.cases(nmax=2)), backend="sympy"))
    del c["backend"]
    c["variant"] = draw(
        st.sampled_from(["symengine", "matplotlib", "symengine,matplotlib", "symengine,matplotlib", "symengine"])
    )
    c["copy"] = draw(st.sampled_from([None, "pickle", "deepcopy", "copy"]))
    c["fixed_calls"] = draw(st.booleans())
    if c["dB"]:
        c["intQ"] = False
    return c


def compute(case):
    """results with the installation of the current interpreter (in its default configuration)"""
    import copy

    from . import c08

    params = c10.params_of(case)
    R = c08.make({k: v for k, v in case.items() if k != "backend"})
    out = c10.values(R, case, params)
    if case["copy"]:
        import cloudpickle

        f = {
            "pickle": lambda x: cloudpickle.loads(cloudpickle.dumps(x)), "deepcopy": copy.deepcopy,
            "copy": copy.copy,
        }[case["copy"]]
        for k, v in c10.values(f(R), case, params).items():
            out[f"{k} ({case['copy']})"] = v
    return out


# (one server per set of blocked packages, started on demand)
_servers = {}


def server(variant):
    if variant not in _servers:
        env = dict(os.environ)
        env.pop("RTCHECK_CHILD", None)
        p = subprocess.Popen(
            [sys.executable, os.path.join(os.path.dirname(__file__), "optserver.py"), variant],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env,
        )
        atexit.register(p.kill)
        line = p.stdout.readline()
        if not line:
            raise RuntimeError("the server process ended unexpectedly")
        _servers[variant] = (p, json.loads(line))
    return _servers[variant]


def ask(variant, case):
    p, info = server(variant)
    what = f"without {variant}"
    if info["error"]:
        raise Violation(f"{what}: import failed: {info['error']}")
    if info["blocked"]:
        raise RuntimeError(f"{info['blocked']} is not blocked")
    check(
        info["backend"] == VARIANTS[variant], f"{what}: the backend is {info['backend']} instead of {VARIANTS[variant]}"
    )
    p.stdin.write(json.dumps(case) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        _servers.pop(variant)
        raise RuntimeError("the server process ended unexpectedly")
    ret = json.loads(line)
    if "error" in ret:
        raise Violation(f"{what}: {ret['error']}")
    return {k: np.array(v["v"]).reshape(v["s"]) for k, v in ret["res"].items()}


def check_case(case):
    from rt1_model import set_lambda_backend

    if case["dB"] and not c10.positive(case):
        case = dict(case, dB=False)
    got = ask(case["variant"], case)
    with Sut("full installation"):
        set_lambda_backend("symengine")
        want = compute(case)
    c10.compare(got, want, f"without {case['variant']} differs from the full installation")
    return bool(case["arr"]) or any(isinstance(v, str) for v in case["defs"].values()) or bool(
        set(case["params"]) - {"tau", "omega", "NormBRDF", "bsf"}
    )


SUBS = [Sub("installations", cases(), check_case, 240)]
