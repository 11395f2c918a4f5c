"""C16: physical limits and bounds hold for every valid input."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, build, check, close

RULE = (
    "valid inputs including the boundary of the domain (nadir, grazing, tau=0 scalar / partially "
    "zero arrays, tiny and huge tau, omega/bsf/NormBRDF in {0, 1}); non-trivial: a boundary value "
    "occurs, or (scaling and monotonicity) all contributions are non-zero"
)

TAU = st.one_of(
    gen.fl(0.0, 3.0, 0.0, 0.0), gen.logfl(1e-14, 1e-3), gen.logfl(1.0, 1e6),
    st.sampled_from([0.0, 1e-300, 1e-8, 100.0, 299.0, 300.0, 301.0, 700.0, 1000.0, 1e5]),
)
ZEN = st.one_of(
    gen.zenith(hi=89.9), gen.zenith(hi=89.9), gen.logfl(1e-12, 1e-3), st.sampled_from([0.0, 0.0, 1.57, 1.5])
)
UNIT = st.one_of(gen.fl(0.0, 1.0), st.sampled_from([0.0, 1.0]))
EXACT = {"V": ["Iso", "Ray"], "S": ["Iso"]}


@st.composite
def nonneg_dist(draw, side, exact=False, nmax=3):
    """distributions that are non-negative (with exact expansions)"""
    if exact:
        kinds = EXACT[side]
    else:
        kinds = gen.KINDS[side]
    n = draw(st.integers(1, nmax))

    def single():
        spec = {"k": draw(st.sampled_from(kinds))}
        if spec["k"] not in ("Iso", "Ray"):
            spec["n"] = n
        if spec["k"] == "Cos":
            spec["i"] = draw(st.integers(1, 6))
        if spec["k"] in ("HG", "HGN", "HGR"):
            spec["t"] = draw(st.one_of(gen.t_asym(0.9), st.just("t")))
        if draw(st.integers(0, 3)) == 0:
            spec["a"] = draw(gen.avec()) or [1.0, 1.0, 1.0]
        return spec

    if draw(st.integers(0, 2)) == 0:
        cs = [[draw(gen.fl(0.0, 2.0, 0.0, 1.0)), single()] for _ in range(draw(st.integers(1, 2)))]
        if any(s["k"] == "Ray" for _, s in cs):
            for _, s in cs:
                if "n" in s:
                    s["n"] = max(3, s["n"])
        return {"k": "LC", "c": cs}
    return single()


@st.composite
def base(draw, exact=False, interior=False):
    mode = draw(st.sampled_from(["mono", "bi"]))
    z = gen.zenith(hi=80.0) if interior else ZEN
    g = {"mode": mode, "t0": draw(z), "p0": draw(gen.azimuth()), "fix": []}
    if mode == "bi":
        same = draw(st.integers(0, 3)) == 0
        g["tex"] = g["t0"] if same else draw(z)
        g["pex"] = draw(gen.azimuth())
    c = {
        "V": draw(nonneg_dist("V", exact)), "S": draw(nonneg_dist("S", exact)), "geo": g,
        "params": {"t": draw(gen.t_asym(0.85))}, "sig0": draw(st.booleans()), "dB": False,
        "I0": draw(gen.inc_int), "intQ": True, "backend": draw(gen.backends(6)),
    }
    if interior:
        c["core"] = {
            "tau": draw(gen.logfl(0.01, 2.0)), "omega": draw(gen.fl(0.05, 0.5)),
            "NormBRDF": draw(gen.fl(0.05, 1.0)), "bsf": draw(gen.fl(0.0, 0.5, 0.0)),
        }
    else:
        c["core"] = {
            "tau": draw(TAU), "omega": draw(UNIT),
            "NormBRDF": draw(st.one_of(UNIT, gen.fl(0, 5))), "bsf": draw(UNIT),
        }
    return c


def scale(case):
    """natural magnitude of the contributions"""
    g = case["geo"]
    return case["I0"] * np.cos(g["t0"]) * (4 * np.pi * np.cos(g["t0"]) / case["I0"] if case["sig0"] else 1.0)


@st.composite
def bound_cases(draw, exact=False):
    c = draw(base(exact))
    c["how"] = draw(st.sampled_from(["param", "param", "array", "number"]))
    c["taus"] = draw(st.lists(TAU, min_size=1, max_size=4))
    return c


def boundary(case):
    k = case["core"]
    g = case["geo"]
    return (
        k["tau"] == 0 or k["tau"] > 100 or k["tau"] < 1e-6 or k["omega"] in (0, 1) or k["bsf"] in (0, 1)
        or k["NormBRDF"] == 0 or g["t0"] < 1e-3 or g["t0"] > 1.5 or g.get("tex", 1) < 1e-3
    )


def evaluate(case):
    """calc() and the optical depths of its columns"""
    core = dict(case["core"])
    taus = np.array([core["tau"]])
    if case["how"] == "number":
        case = dict(case, defs={k: v for k, v in core.items()})
        core = {}
    elif case["how"] == "array":
        taus = np.array([core["tau"], *case["taus"]])
        core["tau"] = taus
    with Sut("calc()"):
        R = build(case)
        rows = np.array(R.calc(**case["params"], **core))
    check(rows.ndim == 2 and rows.shape[0] == 4, f"shape of calc() is {rows.shape}")
    if case["how"] == "array":
        check(rows.shape[1] == len(taus), f"shape of calc() is {rows.shape} for {len(taus)} values of tau")
    return rows, taus


def check_bounds(case, exact=False):
    rows, taus = evaluate(case)
    k, sc = case["core"], scale(case)
    names = ("total", "surface", "volume", "interaction")
    for i, tau in enumerate(taus):
        col = dict(zip(names, rows[:, i]))
        at = f"for tau={tau!r}: {col}"
        check(np.isfinite(rows[:, i]).all(), f"non-finite contribution {at}")
        check(col["surface"] >= 0, f"negative surface {at}")
        check(col["volume"] >= 0, f"negative volume {at}")
        zero_vol = tau == 0 or k["omega"] == 0 or k["bsf"] == 1
        if zero_vol:
            check(col["volume"] == 0, f"volume does not vanish {at}")
        if zero_vol or k["NormBRDF"] == 0:
            check(abs(col["interaction"]) <= 1e-14 * sc, f"interaction does not vanish {at}")
        if k["NormBRDF"] == 0:
            check(col["surface"] == 0, f"surface does not vanish {at}")
        g = gen.angles(case["geo"])
        f = 4 * np.pi * np.cos(g[0]) / case["I0"] if case["sig0"] else 1.0
        if tau == 0 or k["bsf"] == 1:
            bare = ref.surface(case["S"], *g, 0.0, 0.0, k["NormBRDF"], 1.0, case["I0"], case["params"]) * f
            close(col["surface"], bare, f"bare surface {at}", rtol=1e-9, atol=1e-13 * sc)
            close(col["total"], bare, f"total {at}", rtol=1e-9, atol=1e-13 * sc)
        if tau >= 700:
            bare = ref.surface(case["S"], *g, 0.0, 0.0, k["NormBRDF"], 1.0, case["I0"], case["params"]) * f * k["bsf"]
            close(col["surface"], bare, f"surface below a thick layer {at}", rtol=1e-9, atol=1e-200)
            check(abs(col["interaction"]) <= 1e-100 * sc, f"interaction of a thick layer {at}")
            sat = ref.volume(case["V"], *g, 1e8, k["omega"], 0.0, k["bsf"], case["I0"], case["params"]) * f
            close(col["volume"], sat, f"saturated volume {at}", rtol=1e-9, atol=1e-14 * sc)
        if exact:
            # (an absolute error of the order of eps times the magnitude of the terms is accepted)
            mag = k["omega"] * k["NormBRDF"] * sc * 10
            check(col["interaction"] >= -1e-12 * mag, f"negative interaction {at}")
    return boundary(case)


def check_exact(case):
    return check_bounds(case, True)


# ------------------------------------------------------------------ scaling
@st.composite
def scale_cases(draw):
    c = draw(base(interior=True))
    c["key"] = draw(st.sampled_from(["omega", "NormBRDF", "bsf"]))
    c["f"] = draw(gen.fl(0.0, 2.0, 0.5, 2.0))
    c["arr"] = draw(st.booleans())
    return c


def check_scaling(case):
    k, key, f = case["core"], case["key"], case["f"]
    new = dict(k)
    if key == "bsf":
        new["bsf"] = 1 - f * (1 - k["bsf"])
        f = (1 - new["bsf"]) / (1 - k["bsf"])
    else:
        new[key] = f * k[key]
    with Sut("calc()"):
        R = build(case)
        if case["arr"]:
            r = np.array(R.calc(**case["params"], **{**k, key: np.array([k[key], new[key]])}))
            a, b = r[:, 0], r[:, 1]
        else:
            a = np.array(R.calc(**case["params"], **k))[:, 0]
            b = np.array(R.calc(**{key: new[key]}))[:, 0]
    sc = scale(case)
    prop = {"omega": (2, 3), "NormBRDF": (1, 3), "bsf": (2, 3)}[key]
    fixed = {"omega": (1,), "NormBRDF": (2,), "bsf": ()}[key]
    for i in prop:
        close(b[i], f * a[i], f"contribution {i} for {key} x {f}", rtol=1e-10, atol=1e-14 * sc)
    for i in fixed:
        close(b[i], a[i], f"contribution {i} for {key} x {f}", rtol=1e-12, atol=0)
    close(b[0], b[1:].sum(), "total", rtol=1e-10, atol=1e-14 * sc)
    return bool((np.abs(a[1:]) > 1e-12 * sc).all()) and f not in (1,)


# ------------------------------------------------------------- monotonicity
@st.composite
def mono_cases(draw):
    c = draw(base(interior=True))
    c["taus"] = sorted(draw(st.lists(TAU, min_size=3, max_size=8)))
    c["core"]["bsf"] = draw(gen.fl(0.0, 1.0, 0.0))
    c["one"] = draw(st.booleans())
    c["intQ"] = draw(st.integers(0, 2)) == 0
    return c


def check_monotonic(case):
    t = case["taus"]
    with Sut("calc()"):
        R = build(case)
        R.update_params(**case["params"], **case["core"])
        if case["one"]:
            r = np.stack([np.array(R.calc(tau=i))[:, 0] for i in t], -1)
        else:
            r = np.array(R.calc(tau=np.array(t)))
    s, v = r[1], r[2]
    e = 1e-12
    check((np.diff(s) <= e * s[:-1]).all(), f"surface increases with tau: {s.tolist()} for {t}")
    check((np.diff(v) >= -e * v[1:]).all(), f"volume decreases with tau: {v.tolist()} for {t}")
    return len(set(t)) >= 3


SUBS = [
    Sub("bounds", bound_cases().map(gen.light), check_bounds, 400),
    Sub("exact", bound_cases(exact=True), check_exact, 320),
    Sub("scaling", scale_cases().map(gen.light), check_scaling, 200),
    Sub("monotonic", mono_cases().map(gen.light), check_monotonic, 200),
]
