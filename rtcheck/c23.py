"""C23: least-squares retrievals with the model's Jacobian recover the simulated parameters."""
import numpy as np
from hypothesis import strategies as st

from . import c08, gen, ref
from .core import Sub
from .sut import Sut, check

RULE = (
    "random retrieval problems (models, definitions, units, static and dynamic parameters, auxiliary "
    "inputs, geometries) solved with scipy.optimize.least_squares; non-trivial: the same optimization "
    "with the reference model and its derivatives converges to the simulated parameters (other "
    "problems are not identifiable and are not judged)"
)


@st.composite
def cases(draw):
    v, s, params = draw(gen.pair(nmax=1, hi=0.7))
    dist = sorted(params)
    names = sorted({*params, "x", "k"})
    defs, more = {}, draw(gen.core_params(tau_hi=1.5))
    for k in more:
        more[k] = draw(gen.fl(0.15, 0.8))
    if draw(st.booleans()):
        defs, more = draw(c08.definitions(names))
    # (symbols of definitions must be positive)
    dist = [k for k in dist if not any(ref.symbols(d, [k]) for d in defs.values())]
    params = {**params, **more}
    for k in sorted(params):
        if k not in dist:
            params[k] = abs(params[k]) + 0.1 if params[k] < 0.1 else params[k]
    nobs, ninc = draw(st.integers(1, 4)), draw(st.integers(3, 6))
    nmax = draw(st.integers(1, 4))
    # prefer parameters with an influence that is easily identified
    order = ["tau", "omega", "NormBRDF", "bsf"]
    free = [k for k in order if k in params and k not in defs]
    rest = [k for k in sorted(params) if k not in free]
    pool = draw(st.permutations(free))[:3] + draw(st.permutations(rest))[:2]
    keys = draw(st.permutations(pool))[:nmax]
    if not keys:
        keys = sorted(params)[:1]
    dyn = [k for k in keys if draw(st.booleans())]
    lim, start = {}, {}
    for k in keys:
        lim[k] = [-0.9, 0.9] if k in dist else [0.02, 0.95]
        n = nobs if k in dyn else 1
        lo, hi = (-0.7, 0.7) if k in dist else (0.15, 0.85)
        val = [draw(gen.fl(lo, hi)) for _ in range(n)]
        params[k] = val
        start[k] = [round(i + draw(gen.fl(-0.1, 0.1)), 6) for i in val]
    aux = [k for k in sorted(params) if k not in keys and draw(st.integers(0, 2)) == 0]
    for k in aux:
        lo, hi = (-0.7, 0.7) if k in dist else (0.1, 0.85)
        kind = draw(st.sampled_from(["column", "row", "matrix"]))
        a = nobs if kind != "row" else 1
        b = ninc if kind != "column" else 1
        params[k] = [[draw(gen.fl(lo, hi)) for _ in range(b)] for _ in range(a)]
    same = draw(st.integers(0, 3)) == 0
    t0s = []
    for _ in range(1 if same else nobs):
        a, b = draw(st.floats(15, 30)), draw(st.floats(45, 70))
        t0s.append([round(np.deg2rad(i), 6) for i in np.linspace(a, b, ninc)])
    return {
        "V": v, "S": s, "params": params, "defs": defs, "keys": keys, "dyn": dyn, "lim": lim,
        "start": start, "t0s": t0s, "nobs": nobs, "aux": aux,
        "geo": draw(gen.geometry(hi=70.0, fixed=False)),
        "sig0": draw(st.booleans()), "dB": draw(st.booleans()), "I0": draw(gen.inc_int),
        "intQ": False, "backend": draw(gen.backends(5)),
        "via_calc": draw(st.booleans()),
    }


def values(case):
    ret = {}
    for k, v in case["params"].items():
        if k in case["keys"]:
            v = np.array(v)[:, None] if k in case["dyn"] else v[0]
        elif isinstance(v, list):
            v = np.array(v)
        ret[k] = v
    return ret


def parse(case, x):
    ret, i = {}, 0
    for k in case["keys"]:
        if k in case["dyn"]:
            ret[k] = x[i : i + case["nobs"]][:, None]
            i += case["nobs"]
        else:
            ret[k] = x[i]
            i += 1
    return ret


def fit(case, fun, jac, xtol=1e-11, max_nfev=25, shift=0.0):
    from scipy.optimize import least_squares

    x0, lo, hi = [], [], []
    for k in case["keys"]:
        l, h = case["lim"][k]
        x0 += [min(max(v, l + 0.01), h - 0.01) + shift for v in case["start"][k]]
        lo += [l] * len(case["start"][k])
        hi += [h] * len(case["start"][k])
    # (scipy's solver for sparse matrices does not support problems with a single parameter)
    dense = (lambda x: jac(x).toarray()) if len(x0) == 1 else jac
    return least_squares(
        fun, x0, bounds=(lo, hi), jac=dense, xtol=xtol, ftol=xtol, gtol=xtol, max_nfev=max_nfev
    )


def check_fit(case):
    from scipy.sparse import csr_matrix

    true = values(case)
    shape = np.broadcast_shapes(np.shape(case["t0s"]), *[np.shape(v) for v in true.values()])
    x_true = np.array([v for k in case["keys"] for v in case["params"][k]])
    if x_true.size > shape[0] * shape[1]:
        return False

    with np.errstate(all="ignore"):
        s, v = c08.total(case, true, parts=True)
        pos = (s + v > 1e-2 * (np.abs(s) + np.abs(v)) + 1e-6).all()
        if not pos:
            if case["dB"]:
                return False
        meas = np.broadcast_to(c08.total(case, true), shape)

    # the optimization with the reference model
    def rfun(x):
        p = {**true, **parse(case, x)}
        return (np.broadcast_to(c08.total(case, p), shape) - meas).ravel()

    def rjac(x):
        cols = []
        for i in range(x.size):
            xx = x.astype(complex)
            xx[i] += 1j * c08.H
            cols.append(np.imag(rfun(xx)) / c08.H)
        return csr_matrix(np.array(cols).T)

    ok = True
    with np.errstate(all="ignore"):
        try:
            ref_res = fit(case, rfun, rjac)
            sv = np.linalg.svd(rjac(x_true).toarray(), compute_uv=False)
        except (ValueError, np.linalg.LinAlgError):
            return False
    if not (np.isfinite(sv).all() and sv[-1] > 1e-4 * sv[0] > 0):
        ok = False
    if not ref_res.success or np.max(np.abs(ref_res.x - x_true)) > 1e-6:
        ok = False

    with Sut("retrieval"):
        R = c08.make(case)
        R.update_params(**true)
        sim = np.asarray(R.calc()[0])
        check(sim.shape == shape, f"shape {sim.shape} instead of {shape}")

        def fun(x):
            p = parse(case, x)
            if case["via_calc"]:
                return (R.calc(**p)[0] - sim).ravel()
            R.update_params(**p)
            return (R.calc()[0] - sim).ravel()

        def jac(x):
            R.update_params(**parse(case, x))
            return R.jacobian(list(case["keys"]), format="scipy_least_squares")

        if not ok:
            return False
        res = fit(case, fun, jac, max_nfev=120)
    err = np.max(np.abs(res.x - x_true))
    if err >= 1e-4 or res.nfev > 3 * ref_res.nfev + 5:
        # only conclusive if the path of the optimization is not sensitive to rounding errors
        for shift in (1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5):
            with np.errstate(all="ignore"):
                r = fit(case, rfun, rjac, shift=shift)
            if not r.success or np.max(np.abs(r.x - x_true)) > 1e-6:
                return False
    check(
        err < 1e-4,
        f"retrieved {res.x.tolist()} instead of {x_true.tolist()} for {case['keys']} "
        f"({res.nfev} evaluations, the reference needs {ref_res.nfev})",
    )
    check(
        res.nfev <= 3 * ref_res.nfev + 5,
        f"{res.nfev} evaluations required (the reference needs {ref_res.nfev})",
    )
    return True


SUBS = [Sub("synthetic", cases(), check_fit, 240)]
