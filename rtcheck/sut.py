"""Build rt1_model objects from case documents (public API only)."""
import math

import numpy as np


class Violation(Exception):
    """The observed behaviour differs from the oracle."""


class Sut:
    """Context manager: exceptions of the system under test are violations."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, Violation):
            return False
        if issubclass(et, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        import traceback

        last = traceback.extract_tb(tb)[-1]
        raise Violation(
            f"{self.what}: unexpected {et.__name__}: {str(ev)[:300]} "
            f"(at {last.filename.split('/')[-1]}:{last.lineno} {last.name})"
        ) from ev


def close(got, want, what, rtol=1e-9, atol=0.0, shape=True):
    got, want = np.asarray(got), np.asarray(want)
    if shape and got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
    try:
        g, w = np.broadcast_arrays(got.astype(float), want.astype(float))
        at = np.broadcast_to(np.asarray(atol, dtype=float), g.shape)
    except ValueError:
        raise Violation(
            f"{what}: shape {got.shape} is not compatible with {want.shape}"
        ) from None
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= rtol * np.abs(w) + at) | (g == w) | (
            np.isnan(g) & np.isnan(w)
        )
    if not ok.all():
        i = np.argwhere(~ok)[0]
        i = tuple(int(k) for k in i)
        raise Violation(
            f"{what}: got {g[i]!r} instead of {w[i]!r}"
            + (f" at index {i} of shape {g.shape}" if g.ndim else "")
        )


def check(cond, msg):
    if not cond:
        raise Violation(msg)


def sympy_expr(val):
    """the sympy expression of a string"""
    import re

    import sympy as sp

    if not isinstance(val, str):
        return val
    names = set(re.findall(r"[A-Za-z_]\w*", val)) - {"exp", "sqrt", "sin", "cos"}
    return sp.sympify(val, locals={n: sp.Symbol(n) for n in names})


def build_dist(spec, side, sy=False):
    from rt1_model import surface, volume

    mod = volume if side == "V" else surface
    kw = {}
    sy = sy or spec.get("sy", False)
    conv = sympy_expr if sy else lambda x: x
    if spec.get("a") is not None:
        kw["a"] = [conv(i) for i in spec["a"]]
    k = spec["k"]
    if k == "LC":
        return mod.LinComb([(conv(w), build_dist(s, side, sy)) for w, s in spec["c"]])
    if k == "Iso":
        return mod.Isotropic(**kw)
    if k == "Ray":
        return mod.Rayleigh(**kw)
    if spec.get("n") is not None:
        kw["ncoefs"] = spec["n"]
    if k == "Cos":
        return mod.CosineLobe(i=spec["i"], **kw)
    cls = {"HG": "HenyeyGreenstein", "HGN": "HG_nadirnorm", "HGR": "HGRayleigh"}[k]
    return getattr(mod, cls)(t=conv(spec["t"]), **kw)


ANG = {"t0": "t_0", "tex": "t_ex", "p0": "p_0", "pex": "p_ex"}


def set_geo(R, g, arr=lambda x: x):
    """Declare the geometry g (and set the dynamic angles)."""
    fixed = {ANG[k]: g[k] for k in g["fix"]}
    keys = ["t0", "p0"] if g["mode"] == "mono" else ["t0", "tex", "p0", "pex"]
    (R.set_monostatic if g["mode"] == "mono" else R.set_bistatic)(**fixed)
    dyn = {ANG[k]: arr(g[k]) for k in keys if k not in g["fix"]}
    if dyn:
        R.set_geometry(**dyn)


def backend(name):
    from rt1_model import set_lambda_backend

    set_lambda_backend(name)


def build(case, **kw):
    """RT1 object of a case (V, S, geo and optional defs, flags, I0)."""
    from rt1_model import RT1

    if case.get("backend"):
        backend(case["backend"])
    V, S = build_dist(case["V"], "V"), build_dist(case["S"], "S")
    opts = dict(
        sig0=case.get("sig0", False),
        dB=case.get("dB", False),
        int_Q=case.get("intQ", True),
    )
    if "I0" in case:
        opts["I0"] = case["I0"] if not isinstance(case["I0"], list) else np.array(case["I0"])
    opts.update(kw)
    R = RT1(V=V, SRF=S, **opts)
    for key, val in case.get("defs", {}).items():
        setattr(R, key, val)
    set_geo(R, case["geo"])
    return R


def scalar(x):
    x = np.asarray(x)
    check(x.size == 1, f"expected a single value, got shape {x.shape}")
    return float(x.ravel()[0])


PI = math.pi
