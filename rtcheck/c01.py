"""C01: surface and volume contributions obey the first-order closed forms."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, build, close

RULE = (
    "random (V, SRF, a, linear combination, geometry, parameters, I0, units); "
    "non-trivial: tau, omega, NormBRDF > 0, bsf < 1 and a distribution that depends on the angles"
)


@st.composite
def cases(draw, intq=False):
    kw = dict(nmax=2, hi=0.9) if intq else dict(nmax=4)
    v, s, params = draw(gen.pair(**kw))
    if not intq and draw(st.booleans()):
        # the number of coefficients is not required without interaction
        for spec in (v, s):
            for c in [x for _, x in spec["c"]] if spec["k"] == "LC" else [spec]:
                c.pop("n", None)
    g = draw(gen.geometry(hi=89.5))
    return {
        "V": v, "S": s, "params": params, "geo": g, "core": draw(gen.core_params()),
        "I0": draw(gen.inc_int), "intQ": intq, "backend": draw(gen.backends()),
        **draw(gen.flags),
    }


def nontrivial(case):
    c = case["core"]
    return (
        c["tau"] > 0 and c["omega"] > 0 and c["NormBRDF"] > 0 and c["bsf"] < 1
        and not (case["V"]["k"] == "Iso" and case["S"]["k"] == "Iso")
    )


def expected(case):
    ang = gen.angles(case["geo"])
    core = case["core"]
    args = (core["tau"], core["omega"], core["NormBRDF"], core["bsf"], case["I0"])
    p = case["params"]
    s = ref.surface(case["S"], *ang, *args, p)
    v = ref.volume(case["V"], *ang, *args, p)
    # scale of the rounding errors
    t0, te = ang[:2]
    m0, me = np.cos(t0), np.cos(te)
    ss = args[2] * args[4] * m0 * (1 + ref.dist_abs(case["S"], "S", *ang, p))
    vv = args[1] * args[4] * (1 + ref.dist_abs(case["V"], "V", *ang, p))
    return s, v, ss, vv


def compare(case, got, want, scale, what):
    t0 = case["geo"]["t0"]
    if case["dB"]:
        lin = ref.convert(want, t0, case["I0"], case["sig0"], False)
        sc = abs(ref.convert(scale, t0, case["I0"], case["sig0"], False))
        if abs(lin) < 1e-7 * sc and lin != 0:
            return
        got = np.asarray(got, dtype=float)
        close(got, ref.convert(want, t0, case["I0"], case["sig0"], True), what,
              rtol=1e-6, atol=1e-4 if abs(lin) < 1e-4 * sc else 1e-6, shape=False)
    else:
        f = 4 * np.pi * np.cos(t0) / case["I0"] if case["sig0"] else 1.0
        close(got, want * f, what, rtol=1e-8, atol=1e-11 * abs(scale * f), shape=False)


def check_methods(case):
    s, v, ss, vv = expected(case)
    p = {**case["params"], **case["core"]}
    with Sut("model"):
        R = build(case)
        got_s, got_v = R.surface(**p), R.volume(**p)
        rows = R.calc()
    compare(case, got_s, s, ss, "surface()")
    compare(case, got_v, v, vv, "volume()")
    compare(case, rows[1], s, ss, "calc() surface row")
    compare(case, rows[2], v, vv, "calc() volume row")
    return nontrivial(case)


@st.composite
def array_cases(draw):
    c = draw(cases())
    n = draw(st.integers(2, 5))
    c["t0s"] = draw(st.lists(gen.zenith(hi=89.5), min_size=n, max_size=n))
    c["geo"]["fix"] = [k for k in c["geo"]["fix"] if k != "t0"]
    if c["geo"]["mode"] == "bi":
        c["geo"]["fix"] = []
        c["texs"] = draw(st.lists(gen.zenith(hi=89.5), min_size=n, max_size=n))
        c["pexs"] = draw(st.lists(gen.azimuth(), min_size=n, max_size=n))
    c["taus"] = draw(st.lists(gen.tau_values(), min_size=n, max_size=n))
    return c


def check_arrays(case):
    g = case["geo"]
    n = len(case["t0s"])
    with Sut("model"):
        R = build(case)
        ang = {"t_0": np.array(case["t0s"])}
        if g["mode"] == "bi":
            ang.update(t_ex=np.array(case["texs"]), p_ex=np.array(case["pexs"]))
        R.set_geometry(**ang)
        p = {**case["params"], **case["core"], "tau": np.array(case["taus"])}
        rows = R.calc(**p)
    if np.shape(rows) != (3, n):
        close(np.shape(rows), (3, n), "shape of calc()")
    for i in range(n):
        c = dict(case, geo=dict(g, t0=case["t0s"][i]))
        if g["mode"] == "bi":
            c["geo"].update(tex=case["texs"][i], pex=case["pexs"][i])
        c["core"] = dict(case["core"], tau=case["taus"][i])
        s, v, ss, vv = expected(c)
        compare(c, rows[1][i], s, ss, f"surface[{i}]")
        compare(c, rows[2][i], v, vv, f"volume[{i}]")
    return nontrivial(case)


SUBS = [
    Sub("closed_form", cases(), check_methods, 320),
    Sub("arrays", array_cases(), check_arrays, 160),
    Sub("with_interaction", cases(intq=True), check_methods, 96),
]
