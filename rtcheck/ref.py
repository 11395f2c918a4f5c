"""
Independent reference model (numpy only, no rt1_model, no sympy).

Distribution specs are JSON documents:

  {"k": "Iso"}                                  isotropic
  {"k": "Ray"}                                  Rayleigh (volume)
  {"k": "Cos", "i": 5, "n": 4}                  cosine lobe (surface)
  {"k": "HG", "t": 0.3 | "expr", "n": 4}        Henyey-Greenstein
  {"k": "HGN", "t": ..., "n": ...}              nadir-normalised HG (surface)
  {"k": "HGR", "t": ..., "n": ...}              HG-Rayleigh (volume)
  {"k": "LC", "c": [[w, spec], ...]}            linear combination

all with an optional "a": [a0, a1, a2] (numbers or expressions).
"""
import math
from functools import lru_cache

import numpy as np

DEFAULT_A = {"V": [-1.0, 1.0, 1.0], "S": [1.0, 1.0, 1.0]}

_NS = dict(
    exp=np.exp, sqrt=np.sqrt, sin=np.sin, cos=np.cos, log=np.log, tanh=np.tanh,
    __builtins__={},
)


def ev(x, params):
    """
    Numerical value of a number or expression.

    (complex parameters are supported to get derivatives with a complex step)
    """
    if isinstance(x, str):
        ns = dict(_NS)
        ns.update({k: _num(v) for k, v in params.items()})
        return _num(eval(x, ns))
    return _num(x)


def _num(x):
    x = np.asarray(x)
    return x if x.dtype.kind == "c" else x.astype(float)


def symbols(x, names):
    """Names (out of names) that occur in an expression."""
    if not isinstance(x, str):
        return set()
    import re

    return {i for i in re.findall(r"[A-Za-z_]\w*", x) if i in names}


def cos_angle(t0, te, p0, pe, a):
    return (
        a[0] * np.cos(t0) * np.cos(te)
        + a[1] * np.sin(t0) * np.sin(te) * np.cos(p0) * np.cos(pe)
        + a[2] * np.sin(t0) * np.sin(te) * np.sin(p0) * np.sin(pe)
    )


def get_a(spec, side, params):
    a = spec.get("a") or DEFAULT_A[side]
    return [ev(i, params) for i in a]


def hgn_norm(t, a0):
    """Nadir hemispherical reflectance of the (un-normalised) HG BRDF."""
    # closed form of 2*pi * int_0^1 mu (1-t^2) / (pi (1+t^2-2 t a0 mu)^1.5) dmu
    # evaluated by quadrature (to be independent of the implementation)
    x, w = _gl(200)
    mu = (x + 1) / 2
    t = _num(t)[..., None]
    a0 = _num(a0)[..., None]
    f = (1 - t**2) / (1 + t**2 - 2 * t * a0 * mu) ** 1.5
    return 2.0 * (f * mu * w / 2).sum(-1)


@lru_cache(maxsize=None)
def _gl(n):
    return np.polynomial.legendre.leggauss(n)


def profile(spec, side, x, params):
    """The distribution as a function of the cosine of the scattering angle."""
    k = spec["k"]
    if k == "Iso":
        return np.full_like(x, 1 / (4 * np.pi) if side == "V" else 1 / np.pi)
    if k == "Ray":
        return 3 / (16 * np.pi) * (1 + x**2)
    if k == "Cos":
        return np.where(x > 0, x, 0.0) ** spec["i"] / np.pi
    t = ev(spec["t"], params)
    hg = (1 - t**2) / (1 + t**2 - 2 * t * x) ** 1.5
    if k == "HG":
        return hg / (4 * np.pi) if side == "V" else hg / np.pi
    if k == "HGN":
        a0 = get_a(spec, side, params)[0]
        return hg / np.pi / hgn_norm(t, a0)
    if k == "HGR":
        return 3 / (8 * np.pi) / (2 + t**2) * (1 + x**2) * hg
    raise KeyError(k)


def dist(spec, side, t0, te, p0, pe, params):
    """Exact distribution."""
    if spec["k"] == "LC":
        return sum(
            ev(w, params) * dist(s, side, t0, te, p0, pe, params) for w, s in spec["c"]
        )
    x = cos_angle(t0, te, p0, pe, get_a(spec, side, params))
    x = np.broadcast_arrays(
        x, *[_num(v) for v in params.values()]
    )[0]
    return profile(spec, side, x, params)


def kinks(spec, t0, te, p0, pe, params, tol=1e-9, orders=(1,)):
    """
    Symbols for which a cosine-lobe (of one of the orders) cannot be differentiated, since
    the scattering cosine vanishes.
    """
    if spec["k"] == "LC":
        return set().union(*[kinks(s, t0, te, p0, pe, params, tol, orders) for _, s in spec["c"]])
    if spec["k"] != "Cos" or spec["i"] not in orders:
        return set()
    symbs = set().union(*[symbols(i, params) for i in spec.get("a") or []])
    if not symbs:
        return set()
    x = cos_angle(t0, te, p0, pe, get_a(spec, "S", params))
    return symbs if (np.abs(x) < tol).any() else set()


def dist_abs(spec, side, t0, te, p0, pe, params):
    """As dist, with absolute values of weights and constituents (error scale)."""
    if spec["k"] == "LC":
        return sum(
            np.abs(ev(w, params)) * dist_abs(s, side, t0, te, p0, pe, params)
            for w, s in spec["c"]
        )
    return np.abs(dist(spec, side, t0, te, p0, pe, params))


def ncoefs(spec):
    k = spec["k"]
    if k == "LC":
        return max(ncoefs(s) for _, s in spec["c"])
    return {"Iso": 1, "Ray": 3}.get(k) or spec["n"]


def leg_coefs(spec, side, n, params):
    """First n Legendre coefficients by numerical projection (scalar params)."""
    x, w = _gl(600)
    if spec["k"] == "Cos":
        # the lobe vanishes on [-1, 0]
        x, w = (x + 1) / 2, w / 2
    f = profile(spec, side, x, params)
    return [
        (2 * k + 1) / 2.0 * float((f * w * legendre(k, x)).sum()) for k in range(n)
    ]


def legendre(n, x):
    p0, p1 = np.ones_like(x), x
    if n == 0:
        return p0
    for k in range(1, n):
        p0, p1 = p1, ((2 * k + 1) * x * p1 - k * p0) / (k + 1)
    return p1


def legsum(coefs, x):
    ret = 0.0
    for k, c in enumerate(coefs):
        ret = ret + c * legendre(k, x)
    return ret


class Truncated:
    """Truncated Legendre series of a distribution (scalar params)."""

    def __init__(self, spec, side, params, ncoefs_list=None):
        params = {k: float(np.ravel(v)[0]) for k, v in params.items()}
        parts = spec["c"] if spec["k"] == "LC" else [[1.0, spec]]
        self.parts = []
        for i, (w, s) in enumerate(parts):
            n = ncoefs_list[i] if ncoefs_list is not None else ncoefs(s)
            self.parts.append(
                (
                    float(ev(w, params)),
                    leg_coefs(s, side, n, params),
                    [float(i) for i in get_a(s, side, params)],
                )
            )

    def __call__(self, t0, te, p0, pe):
        return sum(
            w * legsum(c, cos_angle(t0, te, p0, pe, a)) for w, c, a in self.parts
        )


def kernel(m0, mu, tau):
    """mu/(m0-mu) * (exp(-tau/m0) - exp(-tau/mu)) without cancellation."""
    d = np.abs(tau * (m0 - mu) / (mu * m0))
    with np.errstate(all="ignore"):
        phi = np.where(d > 1e-12, -np.expm1(-d) / np.where(d > 0, d, 1.0), 1.0 - d / 2)
    return tau / m0 * np.exp(-tau / np.maximum(m0, mu)) * phi


def mu_nodes(m0, npts=14):
    """Graded Gauss-Legendre nodes on (0, 1)."""
    edges = [0.0] + [2.0**-k for k in range(30, -1, -1)]
    edges = sorted(set(edges + [float(m0)] + [1 - 2.0**-k for k in (2, 3, 5)]))
    edges = [e for e in edges if 0 <= e <= 1]
    x, w = _gl(npts)
    mus, ws = [], []
    for lo, hi in zip(edges[:-1], edges[1:]):
        if hi - lo < 1e-15:
            continue
        mus.append(lo + (x + 1) / 2 * (hi - lo))
        ws.append(w / 2 * (hi - lo))
    return np.concatenate(mus), np.concatenate(ws)


def F_int(V, S, t0, te, p0, pe, tau, nphi, npts=14):
    """
    int_0^2pi int_0^1  V(pi-t0 -> ts) * S(ts -> te) * kernel  dmu dphi

    returns the integral and the integral of the absolute values
    """
    m0 = math.cos(t0)
    mu, w = mu_nodes(m0, npts)
    ph = 2 * np.pi * np.arange(nphi) / nphi + 0.1
    ts = np.arccos(np.clip(mu, 0, 1))[:, None]
    f = V(np.pi - t0, ts, p0, ph[None]) * S(ts, te, ph[None], pe)
    kw = kernel(m0, mu, tau) * w
    dphi = 2 * np.pi / nphi
    return float((f.sum(1) * dphi * kw).sum()), float(
        (np.abs(f).sum(1) * dphi * kw).sum()
    )


def interaction(Vspec, Sspec, ang, tau, omega, N, bsf, I0, params, ncV=None, ncS=None, series=None):
    """Reference interaction contribution (scalars); returns (value, scale)."""
    V, S = series or (Truncated(Vspec, "V", params, ncV), Truncated(Sspec, "S", params, ncS))
    n = max(ncV) if ncV else ncoefs(Vspec)
    n += max(ncS) if ncS else ncoefs(Sspec)
    nphi = n + 4
    t0, te, p0, pe = ang
    m0, me = math.cos(t0), math.cos(te)
    F1, A1 = F_int(V, S, t0, te, p0, pe, tau, nphi)
    F2, A2 = F_int(V, S, te, t0, pe, p0, tau, nphi)
    pref = N * (1 - bsf) * I0 * m0 * omega
    e1, e2 = math.exp(-tau / me), math.exp(-tau / m0)
    return pref * (e1 * F1 + e2 * F2), abs(pref) * (e1 * A1 + e2 * A2)


def surface(Sspec, t0, te, p0, pe, tau, omega, N, bsf, I0, params):
    m0, me = np.cos(t0), np.cos(te)
    b = dist(Sspec, "S", t0, te, p0, pe, params)
    return N * I0 * m0 * b * ((1 - bsf) * np.exp(-tau / m0 - tau / me) + bsf)


def volume(Vspec, t0, te, p0, pe, tau, omega, N, bsf, I0, params):
    m0, me = np.cos(t0), np.cos(te)
    p = dist(Vspec, "V", t0, te, p0, pe, params)
    return (1 - bsf) * I0 * omega * m0 / (m0 + me) * -np.expm1(-tau / m0 - tau / me) * p


def convert(val, t0, I0, sig0, dB):
    if sig0:
        val = val * (4 * np.pi * np.cos(t0) / I0)
    if dB:
        with np.errstate(all="ignore"):
            val = 10 * np.log10(val)
    return val
