"""Hypothesis strategies that produce JSON-able cases."""
import math

from hypothesis import strategies as st

R6 = lambda x: round(x, 6)  # noqa: E731


def fl(lo, hi, *special):
    """Short floats in [lo, hi] with some special values mixed in."""
    base = st.floats(lo, hi, allow_nan=False).map(R6)
    return st.one_of(base, base, st.sampled_from(special)) if special else base


def logfl(lo, hi):
    return st.floats(math.log10(lo), math.log10(hi)).map(
        lambda x: float(f"{10**x:.6g}")
    )


def t_asym(hi=0.9):
    return fl(-hi, hi, 0.0, 0.3, -0.4, 0.7)


DEG = math.pi / 180


def zenith(lo=0.0, hi=88.0, special=True):
    base = st.floats(lo, hi).map(lambda x: round(x * DEG, 6))
    if not special:
        return base
    sp = [v for v in (0.0, 0.3, 30 * DEG, 45 * DEG, 1.0, 80 * DEG) if v >= lo * DEG]
    return st.one_of(base, base, st.sampled_from([round(i, 6) for i in sp]))


def azimuth():
    base = fl(-math.pi, 2 * math.pi, 0.0, 1.0, 2.5, round(math.pi / 2, 6), math.pi)
    return st.one_of(base, base, base, fl(-13, 13))


def tau_values(hi=5.0):
    wide = [logfl(hi, 60.0)] if hi == 5.0 else []
    return st.one_of(fl(0.01, 2.0, 0.0, 0.1, 0.5), logfl(1e-4, hi), *wide)


def avec(general=True):
    opts = [st.none(), st.none()]
    opts.append(
        st.tuples(fl(-1, 1), fl(-1, 1)).map(lambda x: [x[0], x[1], x[1]])
    )
    if general:
        opts.append(st.tuples(fl(-1, 1), fl(-1, 1), fl(-1, 1)).map(list))
    return st.one_of(*opts)


def near(draw, a):
    """a generalization vector that differs from a in (at most) a single value"""
    if a is None:
        return None
    a = list(a)
    a[draw(st.integers(0, 2))] = draw(fl(-1, 1))
    return a


KINDS = {"V": ["Iso", "Ray", "HG", "HGR"], "S": ["Iso", "Cos", "HG", "HGN"]}

# templates for asymmetry parameters: |t| < 1 for |x|, |y| < 0.9
T_EXPR = ["{0}", "{0}", "{0}", "0.5*{0} + 0.2", "{0}**2", "-{0}", "{0}*{1}"]
A_EXPR = ["{0}", "-{0}", "0.5*{0} + 0.3"]
W_EXPR = ["{0}", "1 - {0}", "{0}*{1}", "{0}**2 + 0.1", "exp(-{0})"]


@st.composite
def dist_spec(
    draw, side, nmax=4, lc=True, sym=True, kinds=None, a=True, need_n=True,
    names=("x", "y"), nmin=1, hi=0.9,
):
    """
    A distribution spec and the values of the parameters it needs.

    All constituents of a linear combination use the same (sufficiently large) number
    of coefficients so that the truncated series is uniquely defined.
    """
    params = {}
    avecs = []

    def pname(i):
        n = names[i]
        if n not in params:
            params[n] = draw(fl(-hi, hi, 0.0, 0.5))
        return n

    def single(n):
        k = draw(st.sampled_from(kinds or KINDS[side]))
        spec = {"k": k}
        if k not in ("Iso", "Ray"):
            spec["n"] = n
        if k == "Cos":
            spec["i"] = draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 20)))
        if k in ("HG", "HGN", "HGR"):
            if sym and draw(st.booleans()):
                e = draw(st.sampled_from(T_EXPR))
                spec["t"] = e.format(pname(0), pname(1) if "{1}" in e else "")
            else:
                spec["t"] = draw(t_asym(hi))
        if a:
            # (constituents with similar generalization vectors)
            if avecs and draw(st.booleans()):
                av = near(draw, draw(st.sampled_from(avecs)))
            else:
                av = draw(avec())
            # symbolic generalization parameters
            if (
                sym and av is not None and k != "Iso" and spec.get("t") != 0
                and draw(st.integers(0, 3)) == 0
            ):
                av = list(av)
                av[draw(st.integers(0, 2))] = draw(st.sampled_from(A_EXPR)).format(pname(draw(st.integers(0, 1))))
            avecs.append(av)
            if av is not None:
                spec["a"] = av
        return spec

    n = draw(st.integers(nmin, nmax))
    if lc and draw(st.integers(0, 2)) == 0:
        m = draw(st.integers(1, 3))
        cs = []
        for _ in range(m):
            s = single(n)
            if sym and draw(st.booleans()):
                e = draw(st.sampled_from(W_EXPR))
                w = e.format(pname(0), pname(1) if "{1}" in e else "")
            else:
                w = draw(fl(-0.5, 2.0, 0.0, 1.0, 0.5))
            cs.append([w, s])
        if any(s["k"] == "Ray" for _, s in cs):
            for _, s in cs:
                if "n" in s:
                    s["n"] = max(3, s["n"])
        spec = {"k": "LC", "c": cs}
    else:
        spec = single(n)
    if sym and params and draw(st.integers(0, 4)) == 0:
        spec["sy"] = True  # use sympy expressions instead of strings
    return spec, params


# names of the parameters (that start with other names, the names of the model parameters,
# names with a meaning in sympy and names used by symengine)
POOLS = [
    ("x", "y", "u", "v"), ("x", "y", "u", "v"), ("x", "y", "u", "v"),
    ("t", "t2", "t_s", "tau_s"), ("tau2", "omega_", "NormBRDF_s", "bsf0"),
    ("x0", "x1", "x10", "x2"), ("x12", "x5", "x10", "x17"), ("N", "n", "S", "Q"), ("k2", "kk", "x_", "xk"),
]


@st.composite
def pair(draw, pools=True, **kw):
    """V, SRF specs and all required distribution parameters."""
    x, y, u, v_ = draw(st.sampled_from(POOLS)) if pools else POOLS[0]
    v, pv = draw(dist_spec("V", names=(x, y), **kw))
    # the surface may share parameters with the volume
    shared = draw(st.booleans())
    s, ps = draw(
        dist_spec("S", names=(x, y) if shared else (u, v_), **kw)
    )
    params = {**ps, **pv}
    return v, s, params


@st.composite
def geometry(draw, modes=("mono", "bi"), fixed=True, hi=88.0, special=True, lo=0.0):
    mode = draw(st.sampled_from(modes))
    g = {"mode": mode, "t0": draw(zenith(lo, hi, special)), "p0": draw(azimuth())}
    if mode == "bi":
        g["tex"] = draw(zenith(lo, hi, special))
        g["pex"] = draw(azimuth())
        keys = ["t0", "tex", "p0", "pex"]
    else:
        keys = ["p0"]
    g["fix"] = (
        sorted(draw(st.sets(st.sampled_from(keys)))) if fixed and draw(st.booleans()) else []
    )
    return g


def angles(g):
    """t0, tex, p0, pex"""
    if g["mode"] == "mono":
        return g["t0"], g["t0"], g["p0"], g["p0"] + math.pi
    return g["t0"], g["tex"], g["p0"], g["pex"]


@st.composite
def core_params(draw, tau_hi=5.0, positive=False):
    return {
        "tau": draw(tau_values(tau_hi)) if not positive else draw(logfl(1e-2, tau_hi)),
        "omega": draw(fl(0.05, 1.0, 0.3, 1.0, *([] if positive else [0.0]))),
        "NormBRDF": draw(
            st.one_of(
                fl(0.05, 2.0, 0.3, 1.0, *([] if positive else [0.0])),
                fl(0.05, 1.0), fl(0.05, 1.0), logfl(2.0, 30.0),
            )
        ),
        "bsf": draw(
            st.one_of(st.just(0.0), fl(0.0, 0.9 if positive else 1.0, 0.25))
        ),
    }


def backends(p_sympy=5):
    """symengine (mostly) or sympy"""
    return st.sampled_from(["symengine"] * p_sympy + ["sympy"])


flags = st.fixed_dictionaries({"sig0": st.booleans(), "dB": st.booleans()})
inc_int = st.one_of(st.just(1.0), fl(0.1, 10.0), fl(0.1, 10.0), logfl(1e-8, 1e8))


def light(case):
    """limit the expansion orders of cases that use the (slow) sympy backend"""
    if case.get("backend") == "sympy" and "V" in case:
        for side in ("V", "S"):
            spec = case[side]
            parts = [c for _, c in spec["c"]] if spec["k"] == "LC" else [spec]
            n = 2 if not any(p["k"] == "Ray" for p in parts) or spec["k"] != "LC" else 3
            for p in parts:
                if "n" in p:
                    p["n"] = min(p["n"], n)
    return case


def nonzero(spec):
    """without vanishing weights (the parameters of a vanishing constituent are not required)"""
    if spec["k"] == "LC":
        spec = dict(spec, c=[[w if isinstance(w, str) or w != 0 else 0.25, nonzero(s)] for w, s in spec["c"]])
    elif spec.get("a") is not None and not any(spec["a"]):
        spec = dict(spec, a=[0.5, 1.0, 1.0])
    return spec
