"""C04: Legendre expansions are the truncated projections of the distributions."""
import numpy as np
import sympy as sp
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, build_dist, check, close

RULE = (
    "random distribution, parameters, order n / ncoefs and angles; non-trivial: the "
    "distribution depends on the scattering angle and ncoefs > 1"
)
ANGS = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]


@st.composite
def cases(draw, nmax=10, hi=0.9):
    side = draw(st.sampled_from("VS"))
    spec, params = draw(gen.dist_spec(side, nmax=nmax, lc=False, hi=hi))
    return {
        "side": side, "spec": spec, "params": params,
        "ang": [
            [draw(gen.fl(0, np.pi)), draw(gen.fl(0, np.pi)), draw(gen.azimuth()), draw(gen.azimuth())]
            for _ in range(3)
        ],
        "direct": draw(st.booleans()),
    }


def num(expr, params, ang=None):
    expr = sp.sympify(expr)
    sub = {s: params[str(s)] for s in expr.free_symbols if str(s) in params}
    if ang is not None:
        sub.update(dict(zip(ANGS, ang)))
    # substitute numbers one after the other to obtain exact values (0**0 = 1)
    return float(sp.N(expr.subs(sub)))


def check_coefs(case):
    spec, side, params = case["spec"], case["side"], case["params"]
    n = spec.get("n", 6)
    want = ref.leg_coefs(spec, side, n, params)
    with Sut("legendre_coefficients"):
        D = build_dist(spec, side)
        lc = D.legendre_coefficients
        lc = sp.sympify(lc)
        idx = {s: 0 for s in lc.free_symbols if str(s) not in params}
        got = [num(lc.subs({s: i for s in idx}).doit(), params) for i in range(n)]
    close(got, want, "Legendre coefficients", rtol=1e-7, atol=1e-10)
    return spec["k"] != "Iso" and n > 1


def check_expansion(case):
    spec, side, params = case["spec"], case["side"], case["params"]
    n = ref.ncoefs(spec)
    coefs = ref.leg_coefs(spec, side, n, params)
    a = [float(i) for i in ref.get_a(spec, side, params)]
    with Sut("legendre_expansion"):
        D = build_dist(spec, side)
        check(D.ncoefs == n, f"ncoefs is {D.ncoefs} instead of {n}")
        if not case["direct"]:
            expr = D.legendre_expansion(*ANGS).doit()
    for ang in case["ang"]:
        want = ref.legsum(coefs, ref.cos_angle(*ang, a))
        with Sut("legendre_expansion"):
            if case["direct"]:
                got = num(D.legendre_expansion(*ang).doit(), params)
            else:
                got = num(expr, params, ang)
        close(got, want, "Legendre expansion", rtol=1e-7, atol=1e-9)
        if spec["k"] in ("Iso", "Ray"):
            exact = ref.dist(spec, side, *ang, params)
            close(got, exact, "exact expansion", rtol=1e-9)
    return spec["k"] != "Iso" and n > 1


@st.composite
def conv_cases(draw):
    side = draw(st.sampled_from("VS"))
    kinds = ["HG", "HGR"] if side == "V" else ["HG", "HGN"]
    return {
        "side": side, "k": draw(st.sampled_from(kinds)),
        "t": draw(gen.fl(-0.6, 0.6, 0.5)), "a": draw(gen.avec()),
        "ang": [draw(gen.fl(0, 1.5)), draw(gen.fl(0, 1.5)), draw(gen.azimuth()), draw(gen.azimuth())],
        "ns": [draw(st.integers(1, 6)), draw(st.integers(10, 18))],
    }


def check_convergence(case):
    """|expansion - exact| <= sum of the remaining coefficients (|P_n| <= 1)"""
    t = case["t"]
    for n in case["ns"]:
        spec = {"k": case["k"], "t": t, "a": case["a"], "n": n}
        exact = float(ref.dist(spec, case["side"], *case["ang"], {}))
        rest = np.abs(ref.leg_coefs(spec, case["side"], n + 60, {})[n:]).sum()
        with Sut("legendre_expansion"):
            got = num(build_dist(spec, case["side"]).legendre_expansion(*case["ang"]).doit(), {})
        check(
            abs(got - exact) <= rest * (1 + 1e-6) + 1e-7,
            f"expansion with {n} coefficients: {got} exact value: {exact} bound: {rest}",
        )
    return t != 0


SUBS = [
    Sub("coefficients", cases(), check_coefs, 240, 3000),
    Sub("expansion", cases(nmax=7), check_expansion, 240, 3000),
    Sub("convergence", conv_cases(), check_convergence, 80, 1200),
]
