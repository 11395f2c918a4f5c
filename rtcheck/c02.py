"""C02: the interaction contribution equals the documented scattering integral."""
import math

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, build, close, scalar

RULE = (
    "random (V, SRF, ncoefs, a, linear combination, geometry incl. fixed angles, parameters); "
    "non-trivial: tau, omega, NormBRDF > 0, bsf < 1 and both series contain an angle-dependent term"
)


@st.composite
def cases(draw, nmax=3, lc=True, modes=("mono", "bi"), hi=85.0, kinds=None, nmin=1, sympy=8):
    v, s, params = draw(gen.pair(nmax=nmax, lc=lc, nmin=nmin))
    return {
        "V": v, "S": s, "params": params,
        "geo": draw(gen.geometry(modes=modes, hi=hi)),
        "core": draw(gen.core_params(tau_hi=20.0)),
        "I0": draw(gen.inc_int),
        "backend": draw(gen.backends(sympy)),
        "sig0": draw(st.booleans()), "dB": False,
    }


def nontrivial(case):
    c = case["core"]
    return (
        c["tau"] > 0 and c["omega"] > 0 and c["NormBRDF"] > 0 and c["bsf"] < 1
        and ref.ncoefs(case["V"]) > 1 and ref.ncoefs(case["S"]) > 1
    )


def want(case, core=None, series=None):
    core = core or case["core"]
    val, scale = ref.interaction(
        case["V"], case["S"], gen.angles(case["geo"]), core["tau"], core["omega"],
        core["NormBRDF"], core["bsf"], case["I0"], case["params"], series=series,
    )
    f = 4 * np.pi * math.cos(case["geo"]["t0"]) / case["I0"] if case["sig0"] else 1.0
    # absolute floor: rounding errors of the exponential integrals for thin layers
    floor = 1e-11 * core["omega"] * core["NormBRDF"] * case["I0"] * (1 - core["bsf"])
    return val * f, (1e-6 * scale + floor) * f


def check_methods(case):
    w, tol = want(case)
    p = {**case["params"], **case["core"]}
    with Sut("model"):
        R = build(case)
        got = scalar(R.interaction(**p))
        rows = R.calc(**p)
    close(got, w, "interaction()", rtol=0, atol=tol, shape=False)
    close(scalar(rows[3]), w, "calc() interaction row", rtol=0, atol=tol, shape=False)
    return nontrivial(case)


@st.composite
def reuse_cases(draw):
    """one model evaluated for several geometries and parameters"""
    c = draw(cases(nmax=4, nmin=2, sympy=20))
    c["geo"]["fix"] = []
    n = draw(st.integers(2, 4))
    c["evals"] = [
        {
            "geo": draw(gen.geometry(modes=(c["geo"]["mode"],), fixed=False, hi=88.0)),
            "core": draw(gen.core_params(tau_hi=20.0)),
            "params": {k: draw(gen.fl(-0.85, 0.85)) for k in c["params"]},
        }
        for _ in range(n)
    ]
    return c


def check_reuse(case):
    with Sut("model"):
        R = build(case)
    for i, e in enumerate(case["evals"]):
        c = dict(case, **e)
        w, tol = want(c)
        with Sut(f"evaluation {i}"):
            g = e["geo"]
            kw = dict(t_0=g["t0"], p_0=g["p0"])
            if g["mode"] == "bi":
                kw.update(t_ex=g["tex"], p_ex=g["pex"])
            R.set_geometry(**kw)
            got = scalar(R.interaction(**{**e["params"], **e["core"]}))
        close(got, w, f"interaction() of evaluation {i}", rtol=0, atol=tol, shape=False)
    return any(nontrivial(dict(case, **e)) for e in case["evals"])


@st.composite
def edge_cases(draw):
    """nadir, near-nadir and grazing angles, thin and thick layers"""
    c = draw(cases(nmax=3, lc=False, nmin=2, sympy=20))
    z = st.one_of(
        st.sampled_from([0.0, 1e-8, 1e-6, 1e-4, 1e-3]),
        st.floats(-8, -1).map(lambda x: float(f"{10**x:.4g}")),
        st.floats(-3, -1).map(lambda x: math.pi / 2 - float(f"{10**x:.4g}")),
        gen.zenith(),
    )
    c["geo"]["fix"] = []
    c["geo"]["t0"] = draw(z)
    if c["geo"]["mode"] == "bi":
        c["geo"]["tex"] = draw(z)
    c["core"]["tau"] = draw(
        st.one_of(gen.logfl(1e-7, 1e-2), gen.logfl(1e-2, 10), gen.logfl(5, 300), st.just(0.0))
    )
    return c


@st.composite
def grid_cases(draw):
    """one model evaluated for many combinations of (special) angles and optical depths"""
    c = draw(cases(nmax=3, nmin=2, lc=False, sympy=40, modes=("bi", "bi", "mono")))
    c["geo"]["fix"] = []
    nadir = st.floats(-8, -1).map(lambda x: float(f"{10**x:.4g}"))
    graze = st.floats(-3, -0.5).map(lambda x: math.pi / 2 - float(f"{10**x:.4g}"))
    z = st.one_of(gen.zenith(), graze, nadir)
    tau = gen.logfl(0.03, 15)
    pt = st.one_of(
        st.tuples(graze, gen.zenith(0, 60), tau), st.tuples(gen.zenith(0, 60), graze, tau),
        st.tuples(z, z, st.one_of(gen.logfl(1e-9, 1e-2), tau, gen.logfl(1e-9, 1e-2), gen.logfl(10, 300), st.just(0.0))),
    )
    c["pts"] = draw(st.lists(pt, min_size=12, max_size=40))
    return c


def check_grid(case):
    geo, core = case["geo"], case["core"]
    t0, tex, tau = np.array(case["pts"]).T
    with Sut("model"):
        R = build(case)
        kw = dict(t_0=t0) if geo["mode"] == "mono" else dict(t_0=t0, t_ex=tex)
        R.set_geometry(**kw)
        got = np.ravel(R.interaction(**{**case["params"], **core, "tau": tau}))
    V, S = (ref.Truncated(case[k], k, case["params"]) for k in "VS")
    for i, (t, e, d) in enumerate(case["pts"]):
        g = dict(geo, t0=t, **({"tex": e} if geo["mode"] == "bi" else {}))
        w, tol = want(dict(case, geo=g), dict(core, tau=d), (V, S))
        close(got[i], w, f"interaction() for t_0={t}, t_ex={e}, tau={d}", rtol=0, atol=tol, shape=False)
    return nontrivial(case)


@st.composite
def high_cases(draw):
    """higher expansion orders"""
    def one(side, name):
        k = draw(st.sampled_from(["HG", "HGR"] if side == "V" else ["HG", "HGN", "Cos"]))
        d = {"k": k, "n": draw(st.integers(4, 8))}
        if k == "Cos":
            d["i"] = draw(st.integers(1, 8))
        else:
            d["t"] = draw(gen.t_asym(0.8))
        return d

    return {
        "V": one("V", "x"), "S": one("S", "u"), "params": {},
        "geo": draw(gen.geometry(hi=85.0, modes=("mono", "mono", "bi"))),
        "core": draw(gen.core_params(positive=True)),
        "I0": 1.0, "backend": "symengine", "sig0": False, "dB": False,
    }


# (the costs of the symbolic expansion are limited by fixing the azimuths)
ORDERS = [(7, 9), (9, 7), (8, 8), (10, 10), (11, 9), (9, 10), (12, 6), (6, 12), (1, 20), (20, 1),
          (2, 16), (17, 2), (3, 14), (15, 3)]


@st.composite
def extreme_cases(draw):
    """very high expansion orders"""
    nv, ns = draw(st.sampled_from(ORDERS))
    v = {"k": draw(st.sampled_from(["HG", "HGR"])), "t": draw(gen.fl(0.3, 0.7)), "n": nv}
    s = {"k": draw(st.sampled_from(["HG", "HG", "HGN", "Cos"])), "t": draw(gen.fl(0.3, 0.7)), "n": ns}
    if s["k"] == "Cos":
        del s["t"]
        s["i"] = draw(st.integers(3, 8))
    if nv == 1:
        v = {"k": "Iso"}
    if ns == 1:
        s = {"k": "Iso"}
    g = {"mode": "mono", "t0": draw(gen.zenith(5.0, 80.0)), "p0": 0.0, "fix": ["p0"]}
    if nv + ns < 15 or min(nv, ns) == 1:
        g["p0"] = draw(gen.azimuth())
    return {
        "V": v, "S": s, "params": {}, "geo": g, "core": draw(gen.core_params(positive=True)),
        "I0": 1.0, "backend": "symengine", "sig0": False, "dB": False,
    }


SUBS = [
    Sub("integral", cases(nmin=2).map(gen.light), check_methods, 256),
    Sub("low_orders", cases(nmax=2).map(gen.light), check_methods, 64),
    Sub("reuse", reuse_cases().map(gen.light), check_reuse, 64),
    Sub("edges", edge_cases().map(gen.light), check_methods, 96),
    Sub("grid", grid_cases().map(gen.light), check_grid, 64),
    Sub("high_orders", high_cases().map(gen.light), check_methods, 32),
    Sub("extreme_orders", extreme_cases(), check_methods, 16, 160),
]
