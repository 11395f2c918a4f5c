"""C14: pickled and copied models behave like the original and leave it intact."""
import base64
import copy
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from . import c08, gen, ref
from .core import Sub
from .sut import ANG, Sut, backend, build_dist, check, close, set_geo

RULE = (
    "random models in random states (never evaluated, evaluated, differentiated, coefficients "
    "provided) that are dumped/copied, compared and then changed independently; non-trivial: the "
    "model has been evaluated before and has symbolic parameters or definitions"
)


@st.composite
def cases(draw, process=False):
    v, s, params = draw(gen.pair(nmax=2, nmin=1, hi=0.85))
    names = sorted({*params, "x", "k"})
    defs, more = draw(c08.definitions(names)) if draw(st.booleans()) else (
        {}, draw(gen.core_params(tau_hi=3.0, positive=True))
    )
    g = draw(gen.geometry(hi=80.0))
    return {
        "V": v, "S": s, "params": {**params, **more}, "defs": defs, "geo": g,
        "geo2": draw(gen.geometry(modes=(g["mode"],), fixed=False, hi=80.0)),
        "geo3": draw(gen.geometry(hi=80.0)),
        "new": {k: draw(gen.fl(0.05, 0.85)) for k in [*params, *more]},
        "sig0": draw(st.booleans()), "dB": False, "I0": draw(gen.inc_int),
        "intQ": draw(st.integers(0, 4)) > 0, "backend": draw(gen.backends(5)),
        "before": draw(st.lists(st.sampled_from(["calc", "jacobian", "surface"]), max_size=2)),
        "give": draw(st.sampled_from([None, None, None, "fnevals", "fn"])),
        "how": "process" if process else draw(
            st.sampled_from(["cloudpickle", "cloudpickle", "deepcopy", "deepcopy", "copy", "double"])
        ),
        "arr": draw(st.booleans()),
        "twice": draw(st.booleans()),
        "touch": draw(st.sampled_from(["copy", "original"])),
        "widget": draw(st.integers(0, 5)) == 0,
    }


def make(case, geo=None, params=None, **kw):
    from rt1_model import RT1

    backend(case["backend"])
    R = RT1(
        V=build_dist(case["V"], "V"), SRF=build_dist(case["S"], "S"), sig0=case["sig0"], dB=case["dB"],
        int_Q=case["intQ"], I0=case["I0"], **kw,
    )
    for k, d in case["defs"].items():
        setattr(R, k, d)
    set_geo(R, geo or case["geo"])
    p = dict(params or case["params"])
    if case["arr"] and p and params is None:
        k = sorted(p)[0]
        p[k] = np.array([p[k], 0.5 * p[k]])
    R.update_params(**p)
    return R


def values(R, case, with_calc=True):
    out = {"calc": np.array(R.calc()), "surface": np.array(R.surface()), "volume": np.array(R.volume())}
    keys = sorted(case["params"])
    for k, j in zip(keys, R.jacobian(keys)):
        out[f"jacobian {k}"] = np.array(j)
    for k in ("tau", "omega", "NormBRDF", "bsf"):
        out[k] = np.array(getattr(R, k))
    return out


def settings(R):
    ret = {k: np.array(getattr(R, k)) for k in ("t_0", "t_ex", "p_0", "p_ex")}
    ret.update({f"parameter {k}": np.array(v) for k, v in R.param_dict.items()})
    ret.update({k: np.array(getattr(R, k)) for k in ("sig0", "dB", "int_Q", "I0")})
    ret["methods"] = np.array(sorted(i for i in dir(R) if not i.startswith("_")))
    return ret


def equal(got, want, what):
    check(got.keys() == want.keys(), f"{what}: {sorted(set(got) ^ set(want))} differ")
    for k, w in want.items():
        g = got[k]
        if w.dtype.kind in "bU":
            check(g.shape == w.shape and (g == w).all(), f"{what}: {k} is {g} instead of {w}"[:500])
        else:
            sc = np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 0.0
            close(g, w, f"{what}: {k}", rtol=1e-9, atol=1e-11 * sc)


def replicate(R, how):
    import cloudpickle

    if how == "cloudpickle":
        return cloudpickle.loads(cloudpickle.dumps(R))
    if how == "double":
        return cloudpickle.loads(cloudpickle.dumps(copy.deepcopy(R)))
    return {"deepcopy": copy.deepcopy, "copy": copy.copy}[how](R)


def start(case):
    with Sut("model"):
        kw = {}
        if case["give"] and case["intQ"]:
            d = make(case)
            kw = {"fnevals_input": d._fnevals} if case["give"] == "fnevals" else {"fn_input": d._fn}
        R = make(case, **kw)
        for m in case["before"]:
            if m == "jacobian":
                R.jacobian(sorted(case["params"]))
            else:
                getattr(R, m)()
    with Sut("independent model"):
        want = values(make(case), case)
    return R, want


def check_copy(case):
    R, want = start(case)
    s0 = settings(R)
    how = case["how"]
    with Sut(f"{how} of the model"):
        C = replicate(R, how)
        if case["twice"]:
            C = replicate(C, how)
    equal(settings(R), s0, f"original after {how}")
    equal(settings(C), s0, f"{how}")
    for nm, r in (("copy", C), ("original", R)):
        with Sut(f"evaluation of the {nm} ({how})"):
            got = values(r, case)
        equal(got, want, f"{nm} ({how})")
        for m in ("analyze", "analyze3d"):
            check(callable(getattr(r, m, None)), f"the {nm} ({how}) has no method {m}")
    # angle changes (also for shallow copies)
    keys = [k for k in (("t0", "p0") if case["geo"]["mode"] == "mono" else ("t0", "tex", "p0", "pex"))
            if k not in case["geo"]["fix"]]
    A, B = (C, R) if case["touch"] == "copy" else (R, C)
    nmA, nmB = ("copy", "original") if case["touch"] == "copy" else ("original", "copy")
    g2 = {**case["geo2"], "fix": case["geo"]["fix"], **{k: case["geo"][k] for k in case["geo"]["fix"]}}
    with Sut(f"changed angles of the {nmA} ({how})"):
        if keys:
            A.set_geometry(**{ANG[k]: g2[k] for k in keys})
        got = values(A, case)
        w2 = values(make(case, geo=g2), case)
    equal(got, w2, f"{nmA} ({how}) after a change of the angles")
    with Sut("evaluation"):
        equal(values(B, case), want, f"{nmB} ({how}) after a change of the angles of the {nmA}")
    # parameters and geometry
    with Sut(f"changed parameters of the {nmA} ({how})"):
        A.update_params(**case["new"])
        got = values(A, case)
        w3 = values(make(case, geo=g2, params=case["new"]), case)
    equal(got, w3, f"{nmA} ({how}) after a change of the parameters")
    if how != "copy":
        with Sut("evaluation"):
            equal(values(B, case), want, f"{nmB} ({how}) after a change of the parameters of the {nmA}")
        # (provided coefficients are only valid for the initial geometry)
        g3 = g2 if case["give"] else case["geo3"]
        with Sut(f"changed definitions of the {nmA} ({how})"):
            set_geo(A, g3)
            A.tau, A.omega, A.sig0 = "0.5*k + 0.1", 0.3, not case["sig0"]
            A.update_params(k=0.4)
            got = np.array(A.calc())
            F = make(case, geo=g3, params=case["new"])
            F.tau, F.omega, F.sig0 = "0.5*k + 0.1", 0.3, not case["sig0"]
            F.update_params(k=0.4)
            w4 = np.array(F.calc())
        close(got, w4, f"{nmA} ({how}) after a change of geometry and definitions", rtol=1e-9, atol=1e-12 * np.max(np.abs(w4)))
        if case["widget"] and not case["arr"]:
            import matplotlib.pyplot as plt

            with Sut(f"analyze() of the {nmA}"):
                A.analyze(k=(0.1, 0.5))
                plt.close("all")
        with Sut("evaluation"):
            equal(values(B, case), want, f"{nmB} ({how}) after changes of the {nmA}")
        equal(settings(B), s0, f"settings of the {nmB} ({how}) after changes of the {nmA}")
    return bool(case["before"]) and (len(case["params"]) > 4 or bool(case["defs"]))


CHILD = """
import base64, json, sys
sys.path.insert(0, sys.argv[1])
from rtcheck import env
env.setup()
import cloudpickle, numpy as np
doc = json.load(sys.stdin)
from rt1_model import set_lambda_backend
set_lambda_backend(doc["backend"])
R = cloudpickle.loads(base64.b64decode(doc["dump"]))
out = {"calc": np.array(R.calc()).tolist(), "angles": [np.ravel(getattr(R, k)).tolist() for k in ("t_0", "t_ex", "p_0", "p_ex")]}
out["analyze"] = callable(getattr(R, "analyze", None))
out["surface"], out["volume"] = np.array(R.surface()).tolist(), np.array(R.volume()).tolist()
out["jac"] = [np.array(j).tolist() for j in R.jacobian(doc["keys"])]
R.update_params(**doc["new"])
out["new"] = np.array(R.calc()).tolist()
print("RESULT" + json.dumps(out))
"""


def check_process(case):
    import cloudpickle

    from .env import VERIF

    R, want = start(case)
    with Sut("cloudpickle of the model"):
        dump = cloudpickle.dumps(R)
        w3 = np.array(make(case, params=case["new"]).calc())
    p = subprocess.run(
        [sys.executable, "-c", CHILD, VERIF],
        input=json.dumps(
            {"dump": base64.b64encode(dump).decode(), "new": case["new"], "backend": case["backend"],
             "keys": sorted(case["params"])}
        ),
        capture_output=True, text=True, env=os.environ,
    )
    res = [i[6:] for i in p.stdout.splitlines() if i.startswith("RESULT")]
    check(p.returncode == 0 and res, f"the dump cannot be used by another process: {p.stderr[-600:]}")
    res = json.loads(res[0])
    for k, j in zip(sorted(case["params"]), res["jac"]):
        w = want[f"jacobian {k}"]
        close(np.array(j), w, f"jacobian {k} in another process", rtol=1e-9, atol=1e-11 * np.max(np.abs(w)))
    for k, v in (("calc", want["calc"]), ("surface", want["surface"]), ("volume", want["volume"]), ("new", w3)):
        close(np.array(res[k]), v, f"{k} in another process", rtol=1e-9, atol=1e-11 * np.max(np.abs(v)))
    for k, v in zip(("t_0", "t_ex", "p_0", "p_ex"), res["angles"]):
        close(np.array(v), np.ravel(getattr(R, k)), f"{k} in another process", rtol=0)
    check(res["analyze"], "the restored model has no analyze method in another process")
    return bool(case["before"]) and (len(case["params"]) > 4 or bool(case["defs"]))


@st.composite
def dist_cases(draw):
    side = draw(st.sampled_from("VS"))
    spec, params = draw(gen.dist_spec(side, nmax=3, hi=0.85))
    return {
        "side": side, "spec": spec, "params": params, "used": draw(st.booleans()),
        "how": draw(st.sampled_from(["cloudpickle", "deepcopy", "copy", "double"])),
        "ang": [draw(gen.zenith()), draw(gen.zenith()), draw(gen.azimuth()), draw(gen.azimuth())],
        "backend": draw(gen.backends(2)),
    }


def check_dist(case):
    backend(case["backend"])
    with Sut("distribution"):
        D = build_dist(case["spec"], case["side"])
        p = case["params"]
        if case["used"]:
            D.calc(*case["ang"], param_dict=p)
        C = replicate(D, case["how"])
        res = [np.array(i.calc(*case["ang"], param_dict=p)) for i in (C, D)]
        ex = [i.legendre_expansion(*case["ang"]).doit().evalf(subs=p) for i in (C, D)]
    want = ref.dist(case["spec"], case["side"], *map(np.array, case["ang"]), p)
    sc = ref.dist_abs(case["spec"], case["side"], *map(np.array, case["ang"]), p)
    for n, r in zip(("copy", "original"), res):
        close(r, want, f"calc() of the {n} ({case['how']})", rtol=1e-9, atol=1e-11 * (1 + sc), shape=False)
    close(float(ex[0]), float(ex[1]), f"Legendre expansion of the copy ({case['how']})", rtol=1e-9, atol=1e-12)
    check(C.ncoefs == D.ncoefs, "ncoefs of the copy differs")
    return case["used"] and bool(p)


SUBS = [
    Sub("copies", cases().map(gen.light), check_copy, 96),
    Sub("process", cases(process=True).map(gen.light), check_process, 16, 120),
    Sub("distributions", dist_cases(), check_dist, 96),
]
