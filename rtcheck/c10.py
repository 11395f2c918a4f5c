"""C10: both symbolic backends give the same numbers."""
import numpy as np
from hypothesis import strategies as st

from . import c08, gen, ref
from .core import Sub
from .sut import Sut, backend, build, build_dist, check, close

RULE = (
    "random models, angles and parameters (scalars and arrays) evaluated with the sympy and the "
    "symengine backend, with backend switches before and after construction and evaluation; "
    "non-trivial: the distributions or definitions contain symbols, or an array is used"
)


@st.composite
def cases(draw, nmax=3, hi=0.85):
    v, s, params = draw(gen.pair(nmax=nmax, hi=hi))
    names = sorted({*params, "x", "k"})
    defs, more = draw(c08.definitions(names)) if draw(st.booleans()) else (
        {}, draw(gen.core_params(tau_hi=5.0))
    )
    params = {**params, **more}
    n, m = draw(st.sampled_from([(1, 1), (1, 3), (3, 1), (2, 2), (1, 2)]))
    arr = {}
    for k in sorted(params):
        if m > 1 and draw(st.integers(0, 2)) == 0:
            arr[k] = draw(st.lists(gen.fl(0.05, 0.8), min_size=m, max_size=m))
    g = draw(gen.geometry(hi=85.0))
    g["fix"] = [k for k in g["fix"] if k != "t0"]
    return {
        "V": v, "S": s, "params": params, "defs": defs, "arr": arr, "geo": g,
        "t0s": draw(st.lists(gen.zenith(hi=85.0), min_size=n, max_size=n)),
        "sig0": draw(st.booleans()), "dB": draw(st.integers(0, 3)) == 0, "I0": draw(gen.inc_int),
        "intQ": draw(st.integers(0, 3)) > 0,
        # backend during construction, first evaluation and second evaluation
        "order": draw(st.lists(st.sampled_from(["sympy", "symengine"]), min_size=3, max_size=3)),
        "keys": draw(st.permutations(sorted(params))),
    }


def values(R, case, params):
    out = {}
    with np.errstate(all="ignore"):
        out["calc"] = np.array(R.calc(**params))
        out["surface"] = np.array(R.surface())
        out["volume"] = np.array(R.volume())
        if case["intQ"]:
            out["interaction"] = np.array(R.interaction())
        for k, j in zip(case["keys"], R.jacobian(list(case["keys"]))):
            out[f"jacobian {k}"] = np.array(j)
        a = (R.t_0, R.t_ex, R.p_0, R.p_ex)
        need = {k: v for k, v in R.param_dict.items()}
        out["V.calc"] = np.array(R.V.calc(*a, param_dict=need))
        out["SRF.calc"] = np.array(R.SRF.calc(*a, param_dict=need))
    return out


def compare(got, want, what, scale=1.0):
    check(got.keys() == want.keys(), f"{what}: different results available")
    for k, w in want.items():
        tol = 1e-9
        fin = w[np.isfinite(w)]
        at = 1e-9 * np.max(np.abs(fin)) if fin.size else 0
        if k in ("calc",) and w.ndim > 1:
            at = 0
            for row, g in zip(w, got[k]):
                f = row[np.isfinite(row)]
                close(g, row, f"{k} {what}", rtol=tol, atol=1e-9 * np.max(np.abs(f)) if f.size else 0)
            continue
        close(got[k], w, f"{k} {what}", rtol=tol, atol=at + 1e-13)


def params_of(case):
    ret = dict(case["params"])
    for k, v in case["arr"].items():
        ret[k] = np.array(v)[:, None]
    return ret


def positive(case):
    """dB output requires positive contributions"""
    params = params_of(case)
    with np.errstate(all="ignore"):
        s, v = c08.total(case, params, parts=True)
    return bool(np.all(s + v > 1e-6) and np.all(s > 1e-6) and np.all(v > 1e-6))


def check_backends(case):
    from rt1_model import get_lambda_backend

    params = params_of(case)
    if case["dB"] and not positive(case):
        case = dict(case, dB=False)
    res = {}
    for b in ("symengine", "sympy"):
        with Sut(f"{b} model"):
            backend(b)
            check(get_lambda_backend() == b, f"backend {b} is not reported")
            R = c08.make(case)
            res[b] = values(R, case, params)
    if case["dB"] and case["intQ"]:
        # the interaction may be negative (truncated series)
        for r in res.values():
            r.pop("interaction")
            tot = r.pop("calc")
            r["calc_sv"] = tot[1:3]
    compare(res["sympy"], res["symengine"], "with sympy differs from symengine")
    # change of the backend during the lifetime of a model
    o = case["order"]
    with Sut(f"model with backend changes {o}"):
        backend(o[0])
        R = c08.make(case)
        backend(o[1])
        first = values(R, case, params)
        backend(o[2])
        second = values(R, case, params)
        g = case["geo"]
        if g["mode"] == "mono":
            R.set_monostatic()
            R.set_geometry(t_0=np.array(case["t0s"]), p_0=g["p0"])
        else:
            R.set_bistatic()
            R.set_geometry(t_0=np.array(case["t0s"]), p_0=g["p0"], t_ex=g["tex"], p_ex=g["pex"])
        third = values(R, case, params)
        check(get_lambda_backend() == o[2], "the reported backend changed without request")
    for r in (first, second, third):
        if case["dB"] and case["intQ"]:
            r.pop("interaction")
            r["calc_sv"] = r.pop("calc")[1:3]
    compare(first, res["symengine"], f"with backend changes {o[:2]}")
    compare(second, res["symengine"], f"with backend changes {o}")
    compare(third, res["symengine"], f"after re-declaring the geometry, backends {o}")
    return bool(case["arr"]) or len(case["params"]) > 4 or bool(case["defs"])


@st.composite
def dist_cases(draw):
    side = draw(st.sampled_from("VS"))
    spec, params = draw(gen.dist_spec(side, nmax=5, hi=0.85))
    sh = draw(st.sampled_from([[], [3], [2, 1], [1, 2]]))
    n = int(np.prod(sh)) if sh else 1
    par = {}
    for k in sorted(params):
        par[k] = draw(st.lists(gen.fl(-0.85, 0.85, 0.0), min_size=2, max_size=2)) if draw(
            st.integers(0, 2)
        ) == 0 else params[k]
    extra = draw(st.booleans())
    return {
        "side": side, "spec": spec, "par": par, "extra": extra, "sh": sh,
        "ang": [
            draw(st.lists(e, min_size=n, max_size=n))
            for e in (gen.zenith(), gen.zenith(), gen.azimuth(), gen.azimuth())
        ],
    }


def check_dist(case):
    sh = tuple(case["sh"])
    ang = [np.array(a).reshape(sh) if sh else a[0] for a in case["ang"]]
    par = {k: np.array(v)[:, None, None] if isinstance(v, list) else v for k, v in case["par"].items()}
    if case["extra"]:
        par = {"other": 0.3, **par}
    res = {}
    for b in ("symengine", "sympy"):
        backend(b)
        with Sut(f"{b} calc()"):
            D = build_dist(case["spec"], case["side"])
            res[b] = np.array(D.calc(*ang, param_dict=par))
    m = np.max(np.abs(res["symengine"]))
    close(res["sympy"], res["symengine"], "calc() with sympy", rtol=1e-9, atol=1e-12 * (1 + m))
    return bool(sh) or bool(case["par"])


NAMES = ["sympy", "symengine"]
BAD = ["", "Sympy", "SYMENGINE", "numpy", "sympy ", "sym", "numba", "None", "lambdify", "symengine2"]


@st.composite
def name_cases(draw):
    ops = draw(
        st.lists(
            st.one_of(
                st.sampled_from(NAMES), st.sampled_from(BAD),
                st.text(st.characters(codec="ascii"), max_size=10),
                st.sampled_from([None, 0, 1, True]),
            ),
            min_size=2, max_size=8,
        )
    )
    return {"ops": ops, "t0": draw(gen.zenith(hi=80.0)), "t": draw(gen.t_asym(0.8))}


def check_names(case):
    from rt1_model import RT1, get_lambda_backend, set_lambda_backend, surface, volume

    cur = "symengine"
    backend(cur)
    want, bad, good = None, 0, 0
    for op in case["ops"]:
        if op in NAMES and isinstance(op, str):
            with Sut(f"set_lambda_backend({op!r})"):
                set_lambda_backend(op)
            cur = op
            good += 1
        else:
            bad += 1
            try:
                set_lambda_backend(op)
            except Exception:
                pass
            else:
                check(False, f"backend {op!r} is accepted")
        check(get_lambda_backend() == cur, f"backend is {get_lambda_backend()!r} instead of {cur!r}")
        with Sut(f"evaluation with {cur}"):
            R = RT1(
                V=volume.HenyeyGreenstein(t="x", ncoefs=2), SRF=surface.Isotropic(), dB=False
            )
            R.set_geometry(t_0=case["t0"], p_0=0.0)
            got = R.calc(tau=0.3, omega=0.2, NormBRDF=0.4, x=case["t"])
        want = got if want is None else want
        close(got, want, f"calc() after {op!r}", rtol=1e-9)
    return bad > 0 and good > 0


SUBS = [
    Sub("models", cases(nmax=2), check_backends, 96),
    Sub("distributions", dist_cases(), check_dist, 240),
    Sub("selection", name_cases(), check_names, 64),
]
