"""C18: hemreflect returns the hemispherical reflectance of the BRDF."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, backend, build_dist, check, close

RULE = (
    "surface distributions (incl. linear combinations and general a), azimuths, angle grids, numbers of "
    "integration points and NormBRDF definitions (given directly or through a model, both backends), "
    "compared with Gauss-Legendre quadrature; non-trivial: non-isotropic distribution and NormBRDF != 1"
)


@st.composite
def cases(draw):
    s, params = draw(gen.dist_spec("S", names=("x", "y"), hi=0.8, nmax=3))
    step = draw(st.sampled_from([5.0, 10.0, 7.5, 2.5, 15, 20, 45]))
    start = draw(st.sampled_from([0.0, 0.0, 5.0, 10, 32.5, 60]))
    num = draw(st.integers(1, 4))
    # (the stop value is not part of the grid)
    stop = start + step * num - draw(st.sampled_from([0.0, 0.0, 0.25 * step]))
    if stop > 90:
        start, step, stop = 0.0, 20.0, 80.0
    many = draw(st.integers(0, 9))
    if many == 0:  # the default grid
        start, step, stop = None, None, None
    elif many == 1:
        start, step, stop = 0.0, draw(st.sampled_from([4.0, 6.0, 9.0])), 90.0
    via = draw(st.sampled_from(["SRF", "method", "R", "R", "R"]))
    nb = draw(st.sampled_from(["none", "dict", "dict"] if via != "R" else ["dict", "model", "number", "expr", "override", "column"]))
    return {
        "S": s, "params": params, "step": step, "start": start, "stop": stop,
        "N": draw(st.sampled_from([31, 41, 60, 81, 100, 121])) if many != 2 else draw(st.sampled_from([None, 400, 651])), "phi": draw(gen.azimuth()),
        "via": via, "nb": nb, "NormBRDF": draw(gen.fl(0.0, 3.0, 0.3, 1.0)), "k": draw(gen.fl(0.1, 1.5)),
        "backend": draw(gen.backends(3)), "plot": draw(st.integers(0, 4)) == 0,
        "geo": draw(gen.geometry()), "extra": draw(st.booleans()),
        "arr": draw(st.booleans()), "other": draw(gen.fl(0.1, 0.9)),
        # scale NormBRDF so that the largest value is close to 1
        "target": draw(st.sampled_from([None, None, 0.9, 0.98, 1.02, 1.1, 1.5])),
    }


def grid_of(case):
    if case["step"] is None:
        return np.arange(0.0, 90.0, 5.0)
    return np.arange(case["start"], case["stop"], case["step"])


def reference(case, nmu=80, nphi=160):
    t0 = np.deg2rad(grid_of(case))
    ret = []
    x, w = np.polynomial.legendre.leggauss(nmu)
    # (the kinks of the lobes require a fine grid in both directions)
    mu, w = (x + 1) / 2, w / 2
    ph = 2 * np.pi * np.arange(nphi) / nphi + 0.01
    te = np.arccos(mu)[:, None]
    for t in t0:
        f = ref.dist(case["S"], "S", t, te, case["phi"], ph[None], case["params"])
        f = np.broadcast_to(f, (nmu, nphi))
        ret.append((f.mean(1) * 2 * np.pi * mu * w).sum())
    return np.array(ret)


def simpson(case):
    """error of a Simpson-rule with the requested number of points"""
    from scipy.integrate import simpson as sim

    n = case["N"] or 1000
    x, y = np.linspace(0, np.pi / 2, n), np.linspace(0, 2 * np.pi, n)
    ret = []
    for t in np.deg2rad(grid_of(case)):
        f = ref.dist(case["S"], "S", t, x[:, None], case["phi"], y[None], case["params"])
        f = np.broadcast_to(f, (n, n)) * (np.sin(x) * np.cos(x))[:, None]
        ret.append(sim(sim(f, x=y), x=x))
    return np.array(ret)


def check_case(case):
    import matplotlib.pyplot as plt
    from rt1_model import RT1, plot, volume

    backend(case["backend"])
    p = dict(case["params"])
    conv = (lambda v: np.array([v])) if case["arr"] and case["via"] == "R" else (lambda v: v)
    kw = {"phi_0": case["phi"]}
    if case["plot"]:
        kw["showpoints"] = case["arr"]
    else:
        kw["returnarray"] = True
    if case["step"] is not None:
        kw.update(t_0_step=case["step"], t_0_min=case["start"], t_0_max=case["stop"])
    if case["N"]:
        kw["simps_N"] = case["N"]
    if case["extra"]:
        p["unused"] = 0.7
    nb = case["NormBRDF"]
    exact, sim = reference(case), simpson(case)
    if case["target"] and np.max(exact) > 1e-3:
        nb = case["target"] / float(np.max(exact))
        if case["nb"] == "expr":
            nb /= case["k"]
    with Sut("hemreflect()"):
        S = build_dist(case["S"], "S")
        if case["via"] == "R":
            R = RT1(V=volume.Isotropic(), SRF=S, int_Q=False)
            if case["nb"] == "number":
                R.NormBRDF = nb
            elif case["nb"] == "column":
                # several values
                nb = nb * np.array([[1.0], [case["k"]], [case["other"]]])
                R.NormBRDF = nb
            elif case["nb"] == "expr":
                R.NormBRDF = "knorm*mnorm"
                R.update_params(knorm=case["k"])
                p["mnorm"] = nb
                nb = nb * case["k"]
            elif case["nb"] == "model":
                R.update_params(NormBRDF=conv(nb))
            elif case["nb"] == "override":
                # values in the param_dict take precedence
                R.update_params(NormBRDF=case["other"], omega=0.3)
                p["NormBRDF"] = nb
            else:
                p["NormBRDF"] = nb
            before = {k: np.array(v) for k, v in R.param_dict.items()}
            call = lambda: plot.hemreflect(R=R, param_dict=p, **kw)  # noqa: E731
        else:
            if case["nb"] == "dict":
                p["NormBRDF"] = nb
            else:
                nb = 1.0
            if case["via"] == "method":
                call = lambda: S.hemreflect(param_dict=p, **kw)  # noqa: E731
            else:
                call = lambda: plot.hemreflect(SRF=S, param_dict=p, **kw)  # noqa: E731
        out = io.StringIO()
        pcopy = dict(p)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                got = call()
            if case["plot"]:
                lines = plt.gcf().axes[0].get_lines()
                check(len(lines) > 0, "no curve is plotted")
                if case["nb"] == "column":
                    # (the integration points are shown as separate "lines")
                    lines = lines[::2] if kw["showpoints"] else lines
                    check(len(lines) == 3, f"{len(lines)} curves instead of 3")
                    x, got = lines[-1].get_xdata(), np.array([ln.get_ydata() for ln in lines])
                else:
                    x, got = lines[0].get_xdata(), lines[0].get_ydata()
        finally:
            plt.close("all")
    check(p == pcopy, "hemreflect() modified the param_dict")
    if case["via"] == "R":
        check(
            set(before) == set(R.param_dict)
            and all(np.array_equal(before[k], R.param_dict[k]) for k in before),
            "hemreflect() modified the parameters of the model",
        )
    grid = grid_of(case)
    got = np.asarray(got)
    shape = np.broadcast_shapes(grid.shape, np.shape(nb))
    check(got.shape == shape, f"{got.shape} values instead of {shape} for {grid.tolist()}")
    if case["plot"]:
        close(x, grid, "plotted incidence angles", rtol=1e-12, atol=1e-12)
    tol = nb * (3 * np.abs(sim - exact) + 1e-7 * np.max(np.abs(exact)) + 1e-12)
    close(got, nb * exact, "hemispherical reflectance", rtol=1e-7, atol=tol)
    m = np.max(nb * exact)
    if abs(m - 1) > np.max(tol) + 1e-6:
        printed = bool(out.getvalue().strip())
        check(printed == (m > 1), f"maximum {m}: the output is {out.getvalue()!r}")
    return case["S"]["k"] != "Iso" and np.size(nb) == 1 and nb not in (0, 1) or np.size(nb) > 1


SUBS = [Sub("reflectance", cases(), check_case, 640)]
