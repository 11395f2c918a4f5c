"""
Evaluates cases in an interpreter in which optional dependencies are not importable.

usage: optserver.py <comma separated names of blocked packages>
(reads one case per line from stdin and writes one JSON document per line to stdout)
"""
import importlib.abc
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

BLOCK = [i for i in sys.argv[1].split(",") if i]


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in BLOCK:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def enc(res):
    import numpy as np

    return {k: {"s": list(np.shape(v)), "v": [float(i) for i in np.ravel(v)]} for k, v in res.items()}


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.meta_path.insert(0, Finder())
    from rtcheck import env

    sys.path.insert(0, os.path.join(env.REPO, "src"))
    sys.path.append(env.VT_SITE)
    import hypothesis  # noqa: F401
    import numpy  # noqa: F401
    import scipy.special  # noqa: F401
    import sympy  # noqa: F401

    sys.pycache_prefix = os.path.join(os.environ.get("RTCHECK_SCRATCH", "/tmp"), "pyc")
    info = {"error": None}
    try:
        import rt1_model

        info["backend"] = rt1_model.get_lambda_backend()
        info["file"] = rt1_model.__file__
        info["blocked"] = [i for i in BLOCK if i in sys.modules]
        info["analyze"] = hasattr(rt1_model.RT1, "analyze")
        info["polarplot"] = hasattr(rt1_model.volume.Isotropic(), "polarplot")
    except BaseException:
        info["error"] = traceback.format_exc()[-1500:]
    out.write(json.dumps(info) + "\n")
    out.flush()
    if info["error"]:
        return

    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    from rtcheck import c21

    for line in sys.stdin:
        case = json.loads(line)
        try:
            with np.errstate(all="ignore"):
                ret = {"res": enc(c21.compute(case))}
        except BaseException:
            ret = {"error": traceback.format_exc()[-1500:]}
        out.write(json.dumps(ret) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
