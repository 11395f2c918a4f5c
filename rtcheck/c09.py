"""C09: layout of the scipy.optimize.least_squares Jacobian."""
import numpy as np
from hypothesis import strategies as st

from . import c08, gen, ref
from .core import Sub
from .sut import Sut, check, close

RULE = (
    "random models with static (scalar) and dynamic (one value per observation) parameters and "
    "permuted parameter lists, compared with a dense matrix assembled column by column from "
    "complex-step derivatives; non-trivial: at least one static and one dynamic parameter with "
    "non-zero columns and more than one observation and incidence angle"
)


@st.composite
def cases(draw):
    v, s, params = draw(gen.pair(nmax=1, hi=0.85))
    names = sorted({*params, "x", "k"})
    defs, more = ({}, draw(gen.core_params(tau_hi=3.0)))
    if draw(st.booleans()):
        defs, more = draw(c08.definitions(names))
    params = {**params, **more}
    nobs, ninc = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    dyn = [k for k in sorted(params) if draw(st.booleans())]
    if nobs > 1 and params and not dyn and draw(st.booleans()):
        dyn = [sorted(params)[0]]
    numdef = draw(st.integers(0, 2)) == 0
    free = [k for k in ("tau", "omega", "NormBRDF", "bsf") if k in params]
    if numdef and free and draw(st.booleans()):
        dyn = [draw(st.sampled_from(free))]
    for k in dyn:
        el = gen.fl(0.05, 0.85)
        params[k] = draw(st.lists(el, min_size=nobs, max_size=nobs))
    keys = draw(st.permutations(sorted(params))) or []
    if keys and draw(st.booleans()):
        keys = keys[: draw(st.integers(1, len(keys)))]
    if numdef and len(keys) > 1:
        keys = [k for k in keys if k not in dyn or k not in free] or keys
    # known (unfitted) auxiliary inputs with a value for each measurement
    aux = [k for k in sorted(params) if k not in keys and draw(st.integers(0, 4)) == 0]
    for k in aux:
        a, b = draw(st.sampled_from([(nobs, ninc), (nobs, ninc), (1, ninc)]))
        params[k] = [[draw(gen.fl(0.05, 0.85)) for _ in range(b)] for _ in range(a)]
    full = draw(st.booleans()) or not dyn
    rows = nobs if full else 1
    t0s = draw(
        st.lists(
            st.lists(gen.zenith(hi=80.0), min_size=ninc, max_size=ninc), min_size=rows, max_size=rows
        )
    )
    return {
        "V": v, "S": s, "params": params, "defs": defs, "keys": keys, "t0s": t0s, "nobs": nobs,
        "geo": {**draw(gen.geometry(hi=80.0, fixed=False))},
        "sig0": draw(st.booleans()), "dB": draw(st.integers(0, 2)) == 0, "I0": draw(gen.inc_int),
        "intQ": False, "backend": draw(gen.backends(3)),
        "static": draw(st.sampled_from(["scalar", *STATIC])),
        # parameters that are not fitted are defined by numbers / numeric arrays
        "numdef": numdef,
    }


STATIC = {
    "scalar": lambda v: v,
    "list": lambda v: [v],
    "array": lambda v: np.array(v),
    "row": lambda v: np.array([v]),
    "matrix": lambda v: np.array([[v]]),
}


def arrays(case):
    """parameter values as they are passed to the model"""
    style = STATIC[case.get("static", "scalar")]
    return {
        k: style(v) if not isinstance(v, list) else np.array(v) if np.ndim(v) > 1 else np.array(v)[:, None]
        for k, v in case["params"].items()
    }


def check_layout(case):
    case = dict(case)
    if not case["keys"]:
        return False
    raw = case["params"]
    case["params"] = arrays(case)
    nobs, ninc = case["nobs"], len(case["t0s"][0])
    shape = np.broadcast_shapes(np.shape(case["t0s"]), *[np.shape(np.atleast_2d(v)) for v in case["params"].values()])
    nobs = shape[0]
    with np.errstate(all="ignore"):
        s, v = c08.total(case, case["params"], parts=True)
        if case["dB"] and not (s + v > 1e-3 * (np.abs(s) + np.abs(v)) + 1e-12).all():
            case["dB"] = False
        mag = np.abs(s) + np.abs(v)
    tot = np.broadcast_to(s + v, shape)
    mag = np.broadcast_to(mag, shape).ravel()
    if case["dB"]:
        sc = 10 * mag / tot.ravel()
    elif case["sig0"]:
        f = 4 * np.pi * np.cos(np.array(case["t0s"])) / case["I0"]
        sc = mag * np.broadcast_to(f, shape).ravel()
    else:
        sc = mag
    with Sut("jacobian"):
        R = c08.make(case)
        p = dict(case["params"])
        if case.get("numdef"):
            for k in ("tau", "omega", "NormBRDF", "bsf"):
                if k in p and k not in case["keys"] and k not in " ".join(map(str, case["defs"].values())):
                    v = p.pop(k)
                    setattr(R, k, np.array(v) if isinstance(v, list) else v)
        R.update_params(**p)
        J = R.jacobian(list(case["keys"]), format="scipy_least_squares")
        check(hasattr(J, "toarray"), f"the result is not a sparse matrix but {type(J)}")
        D = J.toarray()
    cols, owner, nz = [], [], {}
    for k in case["keys"]:
        p = case["params"][k]
        for i in range(np.size(p)):
            pp = dict(case["params"])
            a = np.array(p, dtype=complex)
            if a.ndim:
                a[i] += 1j * c08.H
            else:
                a = a + 1j * c08.H
            pp[k] = a
            col = np.broadcast_to(np.imag(c08.total(case, pp)) / c08.H, shape).ravel()
            cols.append(col)
            owner.append((k, i))
            nz[k] = nz.get(k, False) or bool((np.abs(col) > 1e-9).any())
    W = np.array(cols).T
    check(D.shape == W.shape, f"shape {D.shape} instead of {W.shape} for {case['keys']}")
    skip = c08.kinks(case)
    for c, (k, i) in enumerate(owner):
        if k in skip:
            continue
        close(
            D[:, c], W[:, c], f"column {c} (parameter {k}, value {i})",
            rtol=1e-7, atol=1e-8 * (sc + np.abs(W[:, c])) + 1e-12,
        )
        if isinstance(raw[k], list) and nobs > 1:
            other = np.ones(nobs, dtype=bool)
            other[i] = False
            check(
                not D[:, c].reshape(nobs, ninc)[other].any(),
                f"column {c} (parameter {k}, observation {i}) is non-zero for other observations",
            )
    kinds = {isinstance(raw[k], list) and nobs > 1 for k in case["keys"] if nz[k]}
    return len(kinds) == 2 and ninc > 1


@st.composite
def format_cases(draw):
    c = draw(cases())
    c["format"] = draw(
        st.one_of(
            st.sampled_from(
                ["", "List", "LIST", "scipy", "dense", "csr", "lists", "scipy_least_square",
                 "scipy_leastsquares", "SCIPY_LEAST_SQUARES", "array", "sparse"]
            ),
            st.text(st.characters(codec="ascii", exclude_categories=["Cc"]), max_size=12),
        )
    )
    return c


def check_format(case):
    if case["format"] in ("list", "scipy_least_squares") or not case["keys"]:
        return False
    case = dict(case, params=arrays(case))
    with Sut("model"):
        R = c08.make(case)
        R.update_params(**case["params"])
        ok = R.jacobian(list(case["keys"]))
    try:
        R.jacobian(list(case["keys"]), format=case["format"])
    except TypeError:
        pass
    except Exception as ex:
        check(False, f"unknown format raises {type(ex).__name__} instead of TypeError")
    else:
        check(False, f"unknown format {case['format']!r} is accepted")
    with Sut("jacobian after rejected format"):
        again = R.jacobian(list(case["keys"]))
    for a, b in zip(ok, again):
        close(b, a, "jacobian after a rejected format", rtol=0)
    return True


SUBS = [
    Sub("layout", cases(), check_layout, 320),
    Sub("formats", format_cases(), check_format, 64),
]
