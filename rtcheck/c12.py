"""C12: how the geometry is specified does not change the result."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import ANG, PI, Sut, build, check, close

RULE = (
    "random models, geometries and parameters related by a change of the geometry specification "
    "(monostatic/bistatic, fixed/dynamic angles, azimuth shifts and rotations, exchanged "
    "directions); non-trivial: the interaction contribution is non-zero and angle-dependent"
)

KEYS = ["t0", "tex", "p0", "pex"]


@st.composite
def model(draw, a=True, nmax=3, lc=True, iso_a=False):
    v, s, params = draw(
        gen.pair(nmax=nmax, nmin=draw(st.sampled_from([1, 2, 2, 2])), lc=lc, a=a and not iso_a, hi=0.85)
    )
    if iso_a:
        # a[1] == a[2]
        def add(spec):
            for x in [spec] if spec["k"] != "LC" else [c for _, c in spec["c"]]:
                if draw(st.booleans()):
                    a0, a1 = draw(gen.fl(-1, 1)), draw(gen.fl(-1, 1))
                    x["a"] = [a0, a1, a1]
        add(v), add(s)
    return {
        "V": v, "S": s, "params": params, "core": draw(gen.core_params(tau_hi=5.0, positive=draw(st.integers(0, 4)) > 0)),
        "sig0": draw(st.booleans()), "I0": draw(gen.inc_int), "backend": draw(gen.backends(20)),
        "jac": draw(st.booleans()),
    }


def results(case, geo, arr=lambda x: x, **kw):
    R = build(dict(case, geo=geo), **kw)
    return evaluate(R, case), R


def evaluate(R, case):
    p = {**case["params"], **case["core"]}
    out = dict(zip(("total", "surface", "volume", "interaction"), np.array(R.calc(**p))))
    if case["jac"]:
        keys = sorted(p)
        out.update({f"jacobian {k}": np.array(j) for k, j in zip(keys, R.jacobian(keys))})
    return out


def scales(case):
    """error scale of the contributions"""
    c = case["core"]
    f = 4 * PI if case["sig0"] else case["I0"]
    w = 1.0
    for spec in (case["V"], case["S"]):
        if spec["k"] == "LC":
            w *= 1 + sum(abs(float(ref.ev(x, case["params"]))) for x, _ in spec["c"])
    return 1e-11 * f * w * (1 + c["NormBRDF"]), f


def compare(case, got, want, what, rtol=1e-8, factor=None):
    at, f = scales(case)
    check(got.keys() == want.keys(), f"{what}: results {sorted(got)} and {sorted(want)}")
    for k, w in want.items():
        fac = 1.0 if factor is None else factor
        if factor is not None and k.startswith("jac"):
            continue
        close(
            got[k], w * fac, f"{k} {what}", rtol=rtol,
            atol=(at if "jac" not in k else 1e-9 * (1 + np.max(np.abs(w)) + f)), shape=False,
        )


def nontrivial(case):
    c = case["core"]
    return bool(
        c["tau"] > 0 and c["omega"] > 0 and c["NormBRDF"] > 0 and c["bsf"] < 1
        and ref.ncoefs(case["V"]) > 1 and ref.ncoefs(case["S"]) > 1
    )


# ------------------------------------------------------------- mono == bistatic
@st.composite
def mono_cases(draw):
    c = draw(model())
    n = draw(st.integers(1, 3))
    c["t0"] = draw(st.lists(gen.zenith(hi=85.0), min_size=n, max_size=n))
    c["p0"] = draw(gen.azimuth())
    c["fix"] = draw(st.booleans())
    c["fixb"] = sorted(draw(st.sets(st.sampled_from(["p0", "pex"]))))
    c["reuse"] = draw(st.booleans())
    return c


def check_mono(case):
    from math import pi

    t0 = np.array(case["t0"])
    with Sut("monostatic model"):
        R = build(dict(case, geo={"mode": "mono", "fix": [], "t0": t0, "p0": case["p0"]}))
        if case["fix"]:
            R.set_monostatic(p_0=case["p0"])
            R.set_geometry(t_0=t0)
        mono = evaluate(R, case)
    check(np.array_equal(np.ravel(R.t_ex), np.ravel(R.t_0)), "monostatic t_ex differs from t_0")
    close(R.p_ex, np.asarray(R.p_0) + pi, "monostatic p_ex")
    g = {"mode": "bi", "fix": case["fixb"], "t0": t0, "tex": t0, "p0": case["p0"], "pex": case["p0"] + pi}
    with Sut("bistatic model"):
        if case["reuse"]:
            from .sut import set_geo

            set_geo(R, g)
            bi = evaluate(R, case)
        else:
            bi, R = results(case, g)
    compare(case, bi, mono, "of the bistatic model differs from the monostatic one")
    return nontrivial(case)


# ------------------------------------------------------------- fixed == dynamic
@st.composite
def fixed_cases(draw):
    c = draw(model())
    g = draw(gen.geometry(modes=("bi", "bi", "mono"), fixed=False, hi=85.0))
    keys = KEYS if g["mode"] == "bi" else ["p0"]
    c["geo"] = g
    c["fixes"] = [
        sorted(draw(st.sets(st.sampled_from(keys), min_size=1))) for _ in range(draw(st.integers(1, 3)))
    ]
    c["np"] = draw(st.sampled_from(["float", "float64", "int"]))
    if c["np"] == "int":
        for k in ("p0", "pex"):
            if k in g:
                g[k] = float(round(g[k]))
    return c


def check_fixed(case):
    g = case["geo"]
    conv = {"float": float, "float64": np.float64, "int": lambda x: int(x) if x == int(x) else x}[case["np"]]
    with Sut("dynamic angles"):
        dyn, R0 = results(case, g)
    for fix in case["fixes"]:
        with Sut(f"fixed angles {fix}"):
            f, R = results(case, dict(g, fix=fix, **{k: conv(g[k]) for k in fix}))
        compare(case, f, dyn, f"with fixed angles {fix}")
        keys = KEYS if g["mode"] == "bi" else ["t0", "p0"]
        for k in keys:
            for r, n in ((R, "fixed"), (R0, "dynamic")):
                v = np.asarray(getattr(r, ANG[k]))
                check(v.size == 1 and float(v.ravel()[0]) == g[k], f"reported ({n}) {ANG[k]} is {v} instead of {g[k]}")
        # the remaining angles stay dynamic
        free = [k for k in keys if k not in fix]
        if free:
            g2 = dict(g, **{k: round(g[k] * 0.7 + 0.1, 6) for k in free})
            with Sut("changed angles"):
                for r in (R, R0):
                    r.set_geometry(**{ANG[k]: g2[k] for k in free})
                a, b = evaluate(R, case), evaluate(R0, case)
            compare(case, a, b, f"with fixed angles {fix} after changing {free}")
            with Sut("restored angles"):
                R0.set_geometry(**{ANG[k]: g[k] for k in free})
    return nontrivial(case)


# ------------------------------------------------------------- azimuth symmetries
@st.composite
def azimuth_cases(draw):
    kind = draw(st.sampled_from(["period", "rotation", "mirror", "exchange", "exchange"]))
    c = draw(model(iso_a=kind == "rotation"))
    modes = {"mirror": ("bi", "bi", "mono"), "exchange": ("bi",)}.get(kind, ("bi", "mono"))
    c["kind"] = kind
    c["geo"] = draw(gen.geometry(modes=modes, hi=85.0))
    c["k"] = draw(st.lists(st.sampled_from([-1, 1, 2]), min_size=2, max_size=2))
    c["rot"] = draw(gen.azimuth())
    c["refix"] = draw(st.booleans())
    return c


def check_azimuth(case):
    g = case["geo"]
    g2 = dict(g)
    factor = None
    if case["kind"] == "period":
        g2["p0"] = g["p0"] + 2 * PI * case["k"][0]
        if g["mode"] == "bi":
            g2["pex"] = g["pex"] + 2 * PI * case["k"][1]
    elif case["kind"] == "rotation":
        g2["p0"] = g["p0"] + case["rot"]
        if g["mode"] == "bi":
            g2["pex"] = g["pex"] + case["rot"]
    elif case["kind"] == "mirror":
        # x -> -x is a symmetry of all generalized scattering angles
        g2["p0"] = PI - g["p0"]
        if g["mode"] == "bi":
            g2["pex"] = PI - g["pex"]
    else:
        g2.update(t0=g["tex"], tex=g["t0"], p0=g["pex"], pex=g["p0"])
        factor = np.cos(g2["t0"]) / np.cos(g["t0"])
        if case["sig0"]:
            factor = factor**2
    if case["refix"]:
        g2["fix"] = []
    with Sut("model"):
        a, _ = results(case, g)
        b, _ = results(case, g2)
    compare(case, b, a, f"after {case['kind']} of the angles", rtol=1e-7, factor=factor)
    return nontrivial(case)


# ------------------------------------------------------------- reported angles
@st.composite
def report_cases(draw):
    ops = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "geo": gen.geometry(hi=85.0),
                    "sets": st.lists(
                        st.dictionaries(
                            st.sampled_from(KEYS),
                            st.one_of(
                                gen.zenith(hi=85.0), st.lists(gen.zenith(hi=85.0), min_size=2, max_size=2)
                            ),
                            min_size=1,
                        ),
                        max_size=3,
                    ),
                }
            ),
            min_size=1, max_size=4,
        )
    )
    return {"ops": ops, "sym": draw(st.booleans())}


def check_report(case):
    from rt1_model import RT1, surface, volume

    with Sut("model"):
        R = RT1(V=volume.Rayleigh(), SRF=surface.Isotropic(), int_Q=False, dB=False, sig0=False)
    n = 0
    for o in case["ops"]:
        g = o["geo"]
        from .sut import set_geo

        with Sut("geometry declaration"):
            set_geo(R, g)
        keys = KEYS if g["mode"] == "bi" else ["t0", "p0"]
        cur = {k: g[k] for k in keys}
        for s in [{}, *o["sets"]]:
            s = {k: v for k, v in s.items() if k in keys and k not in g["fix"]}
            if s:
                with Sut("set_geometry"):
                    R.set_geometry(**{ANG[k]: np.array(v) if isinstance(v, list) else v for k, v in s.items()})
                n += 1
            cur.update(s)
            want = dict(cur)
            if g["mode"] == "mono":
                want["tex"] = cur["t0"]
                want["pex"] = (np.array(cur["p0"]) + PI).tolist()
            for k in KEYS:
                got = np.asarray(getattr(R, ANG[k]))
                w = np.atleast_1d(want[k])
                check(got.shape == w.shape and np.allclose(got, w, rtol=0, atol=1e-15), f"{ANG[k]} is {got} instead of {w}")
            # and they are the ones used for the evaluation
            t0, te, p0, pe = (np.asarray(want[k]) for k in KEYS)
            with Sut("evaluation"):
                v = np.asarray(R.volume(tau=0.3, omega=0.5, NormBRDF=0.2))
            w = ref.volume({"k": "Ray"}, t0, te, p0, pe, 0.3, 0.5, 0.2, 0.0, 1.0, {})
            close(np.broadcast_to(v, np.broadcast_shapes(v.shape, np.shape(w))), np.broadcast_to(w, np.broadcast_shapes(v.shape, np.shape(w))), "volume() with the set angles", rtol=1e-9)
    return n > 0


SUBS = [
    Sub("mono_bistatic", mono_cases().map(gen.light), check_mono, 120),
    Sub("fixed_dynamic", fixed_cases().map(gen.light), check_fixed, 96),
    Sub("symmetries", azimuth_cases().map(gen.light), check_azimuth, 200),
    Sub("reported", report_cases(), check_report, 160),
]
