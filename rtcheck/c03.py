"""C03: scattering distributions evaluate to their closed forms."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, backend, build_dist, check, close

RULE = (
    "random distribution (class, t numeric or expression, a) and angles; non-trivial: the "
    "distribution depends on the scattering angle"
)


@st.composite
def specs(draw, hi=0.97, sides="VS", kinds=None, a=True):
    side = draw(st.sampled_from(sides))
    spec, params = draw(
        gen.dist_spec(side, nmax=3, lc=False, hi=hi, a=a, kinds=kinds and kinds[side])
    )
    if draw(st.booleans()):
        spec.pop("n", None)
    return {"side": side, "spec": spec, "params": params, "backend": draw(gen.backends(3))}


@st.composite
def eval_cases(draw):
    c = draw(specs())
    n = draw(st.integers(1, 4))
    angs = []
    for i in range(4):
        el = (
            gen.azimuth() if i > 1
            else gen.fl(0.0, np.pi if c["side"] == "V" else np.pi / 2, 0.0, 0.5)
        )
        if draw(st.booleans()):
            angs.append(draw(el))
        else:
            angs.append(draw(st.lists(el, min_size=n, max_size=n)))
    c["angs"] = angs
    for k in list(c["params"]):
        if draw(st.integers(0, 3)) == 0:
            c["params"][k] = draw(
                st.lists(gen.fl(-0.95, 0.95, 0.0), min_size=n, max_size=n)
            )
    c["extra"] = draw(st.booleans())
    return c


def dep(case):
    return case["spec"]["k"] != "Iso"


def arr(x):
    return np.array(x) if isinstance(x, list) else x


def check_eval(case):
    spec, side = case["spec"], case["side"]
    backend(case["backend"])
    angs = [arr(i) for i in case["angs"]]
    params = {k: arr(v) for k, v in case["params"].items()}
    with Sut("calc"):
        D = build_dist(spec, side)
        p = dict(params, zz=1.5) if case["extra"] else dict(params)
        got = D.calc(*angs, param_dict=p)
        rev = D.calc(angs[1], angs[0], angs[3], angs[2], param_dict=p)
    want = ref.dist(spec, side, *angs, params)
    close(got, want, f"{spec['k']} calc()", rtol=1e-8, atol=1e-13)
    close(rev, got, "exchange of incidence and exit direction", rtol=1e-9, atol=1e-13)
    return dep(case)


@st.composite
def angle_cases(draw):
    return {
        "side": draw(st.sampled_from("VS")),
        "a": draw(gen.avec()),
        "ang": [draw(gen.fl(0, np.pi)), draw(gen.fl(0, np.pi)), draw(gen.azimuth()), draw(gen.azimuth())],
        "k": draw(st.sampled_from(["Iso", "HG"])),
    }


def check_angle(case):
    spec = {"k": case["k"], "a": case["a"], "t": 0.3}
    a = case["a"] or ref.DEFAULT_A[case["side"]]
    want = ref.cos_angle(*case["ang"], a)
    with Sut("scattering angle"):
        D = build_dist(spec, case["side"])
        got = float(D.calc_scattering_angle(*case["ang"], a))
        expr = D.scattering_angle_symbolic
        import sympy as sp

        symb = float(
            expr.subs(
                dict(zip(map(sp.Symbol, ("theta_0", "theta_ex", "phi_0", "phi_ex")), case["ang"]))
            )
        )
    close(got, want, "calc_scattering_angle()", atol=1e-12)
    close(symb, want, "scattering_angle_symbolic", atol=1e-12)
    return any(a)


@st.composite
def norm_cases(draw):
    c = draw(specs(hi=0.8, sides="V", a=False))
    c["t0"] = draw(gen.fl(0.0, np.pi / 2, 0.0))
    c["p0"] = draw(gen.azimuth())
    return c


def check_norm(case):
    backend(case["backend"])
    x, w = np.polynomial.legendre.leggauss(120)
    ph = 2 * np.pi * np.arange(240) / 240
    with Sut("calc"):
        D = build_dist(case["spec"], "V")
        p = D.calc(case["t0"], np.arccos(x)[:, None], case["p0"], ph[None], param_dict=case["params"])
    p = np.broadcast_to(p, (120, 240))
    total = (p.sum(1) * 2 * np.pi / 240 * w).sum()
    close(total, 1.0, "integral of the phase function over the sphere", rtol=1e-6)
    check((np.asarray(p) >= 0).all(), "negative phase function")
    return dep(case)


@st.composite
def nadir_cases(draw):
    t = draw(
        st.one_of(
            gen.fl(-0.98, 0.98, 0.0),
            st.sampled_from([0, 1e-12, -1e-9, 1e-6, 1e-4, -1e-3, 0.98, -0.98]),
        )
    )
    a = draw(gen.avec())
    return {
        "t": t, "a": a, "symbolic": draw(st.booleans()), "p0": draw(gen.azimuth()),
        "pex": draw(gen.azimuth()), "backend": draw(gen.backends(3)),
    }


def check_nadir(case):
    backend(case["backend"])
    a0 = abs((case["a"] or [1.0])[0])
    x, w = np.polynomial.legendre.leggauss(800)
    mu, w = (x + 1) / 2, w / 2
    spec = {"k": "HGN", "t": "q" if case["symbolic"] else case["t"], "a": case["a"]}
    with Sut("calc"):
        D = build_dist(spec, "S")
        f = D.calc(0.0, np.arccos(mu), case["p0"], case["pex"], param_dict={"q": case["t"]})
    r = 2 * np.pi * (f * mu * w).sum()
    close(r, 1.0, "hemispherical reflectance at nadir", rtol=1e-7)
    return a0 > 0 and case["t"] != 0


SUBS = [
    Sub("evaluate", eval_cases(), check_eval, 640, 12000),
    Sub("angle", angle_cases(), check_angle, 160, 2000),
    Sub("normalization", norm_cases(), check_norm, 160, 2000),
    Sub("nadir", nadir_cases(), check_nadir, 160, 2000),
]
