"""C05: linear combinations are the weighted sums of their constituents."""
import itertools

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from . import gen, ref
from .c04 import ANGS, num
from .core import Sub
from .sut import Sut, backend, build, build_dist, check, close, scalar

RULE = (
    "random linear combinations of 1-7 constituents (mixed classes, a, ncoefs, weights, also nested); "
    "non-trivial: at least 2 constituents with non-zero weights"
)


@st.composite
def lincomb(draw, side, nmax=5, need_n=True, mmax=4, names=("x", "y")):
    params = {n: draw(gen.fl(-0.85, 0.85, 0.0, 0.5)) for n in names}
    m = draw(st.integers(1, mmax))
    apool = [draw(gen.avec()), draw(gen.avec())]
    if draw(st.booleans()):
        # vectors that differ in a single value only
        apool[0] = apool[0] or list(ref.DEFAULT_A[side])
        apool[1] = gen.near(draw, apool[0])
    elif draw(st.booleans()) and apool[0] is not None:
        apool[0] = list(apool[0])
        apool[0][draw(st.integers(0, 2))] = draw(st.sampled_from(gen.A_EXPR)).format(names[0])
    cs = []
    for _ in range(m):
        k = draw(st.sampled_from(gen.KINDS[side]))
        s = {"k": k}
        if k not in ("Iso", "Ray") and need_n:
            s["n"] = draw(st.integers(1, nmax))
        if k == "Cos":
            s["i"] = draw(st.integers(1, 6))
        if k in ("HG", "HGN", "HGR"):
            s["t"] = draw(
                st.one_of(gen.t_asym(0.85), st.sampled_from([*names, f"{names[0]}*{names[1]}"]))
            )
        av = draw(st.sampled_from([None, *apool]))
        if av is not None:
            s["a"] = av
        w = draw(
            st.one_of(
                gen.fl(-1, 2, 0.0, 1.0), gen.fl(0.1, 2),
                st.sampled_from([e.format(*names) for e in gen.W_EXPR]),
            )
        )
        cs.append([w, s])
    spec = {"k": "LC", "c": cs}
    text = str(cs)
    return spec, {k: v for k, v in params.items() if f"{k}" in ref.symbols(text, set(names))}


def nontrivial(spec, params):
    ws = [float(ref.ev(w, params)) for w, _ in spec["c"]]
    return sum(w != 0 for w in ws) >= 2


@st.composite
def point_cases(draw):
    side = draw(st.sampled_from("VS"))
    spec, params = draw(lincomb(side, need_n=draw(st.booleans()), mmax=draw(st.sampled_from([4, 4, 7]))))
    if draw(st.integers(0, 3)) == 0:
        # (a linear combination of linear combinations)
        inner = [draw(lincomb(side, mmax=2, need_n=False)) for _ in range(draw(st.integers(1, 2)))]
        ws = draw(st.lists(st.one_of(gen.fl(-1, 2), st.sampled_from(["0.3", "3/4", 2])), min_size=3, max_size=3))
        spec = {"k": "LC", "c": [[ws[0], spec], *([w, s] for w, (s, _) in zip(ws[1:], inner))]}
        for _, p in inner:
            params = {**p, **params}
    n = draw(st.integers(1, 3))
    return {
        "side": side, "spec": spec, "params": params, "backend": draw(gen.backends(4)),
        "angs": [
            draw(st.lists(gen.fl(0, np.pi / 2), min_size=n, max_size=n)),
            draw(st.lists(gen.fl(0, np.pi / 2), min_size=n, max_size=n)),
            draw(st.lists(gen.azimuth(), min_size=n, max_size=n)),
            draw(st.lists(gen.azimuth(), min_size=n, max_size=n)),
        ],
        "perm": draw(st.permutations(range(len(spec["c"])))),
    }


def check_point(case):
    backend(case["backend"])
    spec, side, params = case["spec"], case["side"], case["params"]
    angs = [np.array(i) for i in case["angs"]]
    with Sut("LinComb.calc"):
        D = build_dist(spec, side)
        got = D.calc(*angs, param_dict=params)
        D2 = build_dist({"k": "LC", "c": [spec["c"][i] for i in case["perm"]]}, side)
        got2 = D2.calc(*angs, param_dict=params)
        parts = [
            (ref.ev(w, params), build_dist(s, side).calc(*angs, param_dict=params))
            for w, s in spec["c"]
        ]
    scale = ref.dist_abs(spec, side, *angs, params)
    close(got, ref.dist(spec, side, *angs, params), "LinComb value", rtol=1e-8, atol=1e-10 * (scale + 1))
    close(got2, got, "permuted LinComb", rtol=1e-9, atol=1e-11 * (scale + 1))
    close(got, sum(w * p for w, p in parts), "sum of evaluated constituents", rtol=1e-9, atol=1e-11 * (scale + 1))
    return nontrivial(spec, params)


@st.composite
def exp_cases(draw):
    side = draw(st.sampled_from("VS"))
    mmax, nmax = draw(st.sampled_from([(4, 5), (4, 5), (6, 3), (2, 9)]))
    spec, params = draw(lincomb(side, nmax=nmax, mmax=mmax))
    return {
        "side": side, "spec": spec, "params": params,
        "angs": [
            [draw(gen.fl(0, np.pi)), draw(gen.fl(0, np.pi)), draw(gen.azimuth()), draw(gen.azimuth())]
            for _ in range(4)
        ],
    }


def choices(spec):
    """all admissible numbers of coefficients of the constituents"""
    mx = ref.ncoefs(spec)
    # constituents with exact expansions do not change with additional coefficients
    opts = [
        [ref.ncoefs(s)] if s["k"] in ("Iso", "Ray") else range(ref.ncoefs(s), mx + 1)
        for _, s in spec["c"]
    ]
    return itertools.product(*opts)


def check_expansion(case):
    spec, side, params = case["spec"], case["side"], case["params"]
    mx = ref.ncoefs(spec)
    with Sut("LinComb.legendre_expansion"):
        D = build_dist(spec, side)
        n = D.ncoefs
        expr = D.legendre_expansion(*ANGS).doit()
        got = np.array([num(expr, params, a) for a in case["angs"]])
    check(n == mx, f"ncoefs of LinComb is {n} instead of {mx}")
    # values of the individual terms
    terms = []
    for w, s in spec["c"]:
        w = float(ref.ev(w, params))
        c = ref.leg_coefs(s, side, mx, params)
        a = [float(i) for i in ref.get_a(s, side, params)]
        terms.append(
            {
                k: w * np.array([ref.legsum(c[:k], ref.cos_angle(*ang, a)) for ang in case["angs"]])
                for k in range(1, mx + 1)
            }
        )
    best = np.inf
    for ch in choices(spec):
        tot = sum(t[k] for t, k in zip(terms, ch))
        scale = 1 + sum(np.abs(t[k]) for t, k in zip(terms, ch))
        best = min(best, np.max(np.abs(tot - got) / scale))
    check(
        best < 1e-7,
        f"Legendre expansion of the linear combination {got.tolist()} is no sum of the "
        f"expansions of the constituents (smallest relative deviation {best:.3g})",
    )
    return nontrivial(spec, params)


@st.composite
def model_cases(draw):
    v, pv = draw(lincomb("V", nmax=3, mmax=3))
    s, ps = draw(lincomb("S", nmax=3, mmax=3, names=("u", "v")))
    which = draw(st.sampled_from(["V", "S", "both"]))
    if which == "V":
        s = s["c"][0][1]
    if which == "S":
        v = v["c"][0][1]
    params = {}
    for spec in (v, s):
        for k, val in {**pv, **ps}.items():
            if ref.symbols(str(spec), {k}):
                params[k] = val
    return {
        "V": v, "S": s, "params": params,
        "geo": draw(gen.geometry(hi=80.0)),
        "core": draw(gen.core_params(positive=True)),
        "backend": draw(gen.backends(16)), "I0": 1.0, "sig0": False, "dB": False,
    }


def parts_of(spec):
    return spec["c"] if spec["k"] == "LC" else [[1.0, spec]]


def check_model(case):
    params, core = case["params"], case["core"]
    ang = gen.angles(case["geo"])
    args = (core["tau"], core["omega"], core["NormBRDF"], core["bsf"], 1.0)
    with Sut("model"):
        R = build(case)
        rows = [scalar(i) for i in R.calc(**params, **core)]
    s = float(ref.surface(case["S"], *ang, *args, params))
    v = float(ref.volume(case["V"], *ang, *args, params))
    t0, te = ang[:2]
    ss = args[2] * (1 + float(ref.dist_abs(case["S"], "S", *ang, params)))
    vs = args[1] * (1 + float(ref.dist_abs(case["V"], "V", *ang, params)))
    close(rows[1], s, "surface of linear combination", rtol=1e-8, atol=1e-10 * ss)
    close(rows[2], v, "volume of linear combination", rtol=1e-8, atol=1e-10 * vs)

    # interaction: bilinear in the constituents
    V, S = parts_of(case["V"]), parts_of(case["S"])
    mV, mS = ref.ncoefs(case["V"]), ref.ncoefs(case["S"])
    table = {}
    scale = 0.0
    for i, (wv, sv) in enumerate(V):
        for j, (ws, s_) in enumerate(S):
            w = float(ref.ev(wv, params)) * float(ref.ev(ws, params))
            for nv in range(ref.ncoefs(sv), mV + 1):
                for ns in range(ref.ncoefs(s_), mS + 1):
                    val, sc = ref.interaction(
                        sv, s_, ang, *args, params, ncV=[nv], ncS=[ns]
                    )
                    table[i, j, nv, ns] = w * val
                    scale += abs(w) * sc
    lcV = {"k": "LC", "c": V}
    lcS = {"k": "LC", "c": S}
    best, val = np.inf, None
    for cv in choices(lcV):
        for cs in choices(lcS):
            tot = sum(
                table[i, j, a, b] for i, a in enumerate(cv) for j, b in enumerate(cs)
            )
            if abs(tot - rows[3]) < best:
                best, val = abs(tot - rows[3]), tot
    check(
        best <= 1e-6 * scale + 1e-11,
        f"interaction of linear combination {rows[3]} is not the weighted sum of the "
        f"contributions of its constituents (closest: {val})",
    )
    return len(V) * len(S) > 1


SUBS = [
    Sub("pointwise", point_cases(), check_point, 320, 5000),
    Sub("expansion", exp_cases(), check_expansion, 160, 2500),
    Sub("model", model_cases(), check_model, 96, 1500),
]
