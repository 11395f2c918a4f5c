"""C13: reusing precomputed interaction coefficients does not change results."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import ANG, Sut, backend, build_dist, close, set_geo

RULE = (
    "random donor models (distributions, geometry, parameter order, additional parameters, backend, "
    "evaluated before or not) whose coefficients are handed to receivers with other parameter "
    "orders, values, backends and additional parameters; non-trivial: the coefficients contain at "
    "least one symbolic parameter or both models differ in their parameter names"
)

EXTRA = ["extra", "A_1", "z", "dummy", "theta", "c0"]


@st.composite
def side(draw, names, sympy=8):
    ex = draw(st.lists(st.sampled_from(EXTRA), max_size=2, unique=True))
    names = [*names, "tau", "omega", "NormBRDF", "bsf", *ex]
    order = draw(st.permutations(names))
    return {
        "order": order,
        "vals": {
            **draw(gen.core_params(tau_hi=5.0, positive=True)),
            **{n: draw(gen.fl(-0.85, 0.85)) for n in names if n not in ("tau", "omega", "NormBRDF", "bsf")},
        },
        "backend": draw(gen.backends(sympy)),
        "calls": draw(st.sampled_from(["update", "calc", "split"])),
    }


@st.composite
def cases(draw):
    v, s, params = draw(gen.pair(nmax=3, nmin=1, hi=0.85))
    names = sorted(params)
    c = {
        "V": v, "S": s, "names": names,
        "geo": draw(gen.geometry(hi=85.0)),
        "donor": draw(side(names)),
        "receivers": [draw(side(names)) for _ in range(draw(st.integers(1, 2)))],
        "how": draw(st.sampled_from(["fn", "fnevals", "both", "fn_attr", "fnevals_attr"])),
        "first": draw(st.booleans()),  # evaluate the donor before its coefficients are used
        "dynamic_donor": draw(st.integers(0, 3)) == 0,
        "chain": draw(st.booleans()),
        "array": draw(st.booleans()),
    }
    if any(x["backend"] == "sympy" for x in [c["donor"], *c["receivers"]]):
        c["backend"] = "sympy"
    return c


def make(case, s, geo, **kw):
    from rt1_model import RT1

    backend(s["backend"])
    R = RT1(V=build_dist(case["V"], "V"), SRF=build_dist(case["S"], "S"), sig0=False, dB=False, **kw)
    set_geo(R, geo)
    return R


def feed(R, s, vals=None):
    """provide the parameters in the requested order"""
    vals = vals or s["vals"]
    p = {k: vals[k] for k in s["order"]}
    if s["calls"] == "calc":
        return np.array(R.calc(**p))
    if s["calls"] == "split":
        for k, v in p.items():
            R.update_params(**{k: v})
    else:
        R.update_params(**p)
    return np.array(R.calc())


def arrays(case, vals):
    """replace one distribution parameter by an array"""
    if case["array"] and case["names"]:
        vals = dict(vals)
        n = case["names"][0]
        vals[n] = np.array([vals[n], -vals[n], 0.1])
    return vals


def check_reuse(case):
    g = case["geo"]
    d = case["donor"]
    with Sut("donor"):
        D = make(case, d, dict(g, fix=[]) if case["dynamic_donor"] else g)
        if case["first"]:
            feed(D, d)
        how = case["how"]
        give = {}
        if "fnevals" in how or how == "both":
            give["fnevals_input"] = D._fnevals
        if how in ("fn", "both", "fn_attr"):
            give["fn_input"] = D._fn
    for i, s in enumerate(case["receivers"]):
        vals = arrays(case, s["vals"])
        with Sut(f"independent model {i}"):
            own = make(case, s, g)
            want = feed(own, s, vals)
        with Sut(f"receiver {i} of {sorted(give)}"):
            if how.endswith("_attr"):
                R = make(case, s, g)
                for k, v in give.items():
                    setattr(R, k, v)
            else:
                R = make(case, s, g, **give)
            got = feed(R, s, vals)
            inter = np.array(R.interaction())
        sc = np.max(np.abs(want))
        for n, a, b in zip(("total", "surface", "volume", "interaction"), got, want):
            close(a, b, f"{n} of receiver {i} of {sorted(give)}", rtol=1e-8, atol=1e-10 * sc)
        close(inter, want[3], f"interaction() of receiver {i}", rtol=1e-8, atol=1e-10 * sc)
        # other parameter values and angles
        vals2 = {k: (0.8 * v if k in case["names"] else v) for k, v in s["vals"].items()}
        keys = [k for k in (("t0", "p0") if g["mode"] == "mono" else ("t0", "tex", "p0", "pex")) if k not in g["fix"]]
        a2 = {ANG[k]: np.array([g[k] * 0.5 + 0.1, g[k] * 0.8]) for k in keys}
        with Sut("re-evaluation"):
            out = []
            for r in (R, own):
                if a2 and not case["array"]:
                    r.set_geometry(**a2)
                out.append(np.array(r.calc(**vals2)))
        close(out[0], out[1], f"re-evaluation of receiver {i}", rtol=1e-8, atol=1e-10 * np.max(np.abs(out[1])))
        if case["chain"]:
            give = {"fnevals_input": R._fnevals} if "fnevals_input" in give else {"fn_input": R._fn}
    with Sut("donor after reuse"):
        a = feed(D, d)
        own = make(case, d, g)
        b = feed(own, d)
    close(a, b, "donor after its coefficients have been reused", rtol=1e-8, atol=1e-10 * np.max(np.abs(b)))
    return bool(case["names"]) and (ref.ncoefs(case["V"]) > 1 or ref.ncoefs(case["S"]) > 1) or any(
        set(s["order"]) != set(d["order"]) for s in case["receivers"]
    )


SUBS = [
    Sub("reuse", cases().map(gen.light), check_reuse, 120),
]
