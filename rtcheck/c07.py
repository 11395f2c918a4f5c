"""C07: array evaluation equals element-by-element evaluation."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, backend, build, build_dist, check, close

RULE = (
    "random models with arrays of random mutually broadcastable shapes for angles and "
    "parameters; non-trivial: the result has more than one element"
)


@st.composite
def shapes(draw, n, final):
    """n shapes that broadcast to (at most) `final`"""
    ret = []
    for _ in range(n):
        nd = draw(st.integers(0, len(final)))
        sh = [
            d if draw(st.booleans()) else 1
            for d in final[len(final) - nd:]
        ]
        ret.append(sh)
    return ret


def arr_of(draw, el, sh):
    n = int(np.prod(sh)) if sh else 1
    vals = draw(st.lists(el, min_size=n, max_size=n))
    return {"s": sh, "v": vals}


def dec(x):
    """decode an array of a case"""
    a = np.array(x["v"])
    if not x["s"]:
        return a.ravel()[0].item() if x.get("py", True) else a.reshape(())
    a = a.reshape(x["s"])
    return a.tolist() if x.get("list") else a


@st.composite
def cases(draw, nmax=2, jac=True, modes=("mono", "bi")):
    v, s, params = draw(gen.pair(nmax=nmax))
    g = draw(gen.geometry(modes=modes, fixed=False))
    final = draw(
        st.sampled_from(
            [[2], [3], [1, 3], [3, 1], [2, 3], [3, 3], [2, 2], [4, 2], [2, 1, 2], [2, 2, 2], [3, 2, 1]]
        )
    )
    names = ["t0", "p0"] + (["tex", "pex"] if g["mode"] == "bi" else [])
    pnames = ["tau", "omega", "NormBRDF", "bsf", *params]
    el = {
        "t0": gen.zenith(hi=80), "tex": gen.zenith(hi=80), "p0": gen.azimuth(), "pex": gen.azimuth(),
        "tau": st.one_of(st.just(0.0), gen.tau_values(), gen.tau_values()),
        "omega": gen.fl(0.05, 1), "NormBRDF": gen.fl(0.05, 2), "bsf": gen.fl(0, 0.9),
        "I0": gen.fl(0.1, 5),
    }
    sh = draw(shapes(len(names) + len(pnames) + 1, final))
    if draw(st.integers(0, 3)) == 0:
        # only one of the inputs is an array
        k = draw(st.integers(0, len(sh) - 1))
        sh = [final if i == k else [] for i in range(len(sh))]
    arrs = {}
    for n, shp in zip(names + pnames + ["I0"], sh):
        a = arr_of(draw, el.get(n, gen.fl(-0.85, 0.85)), shp)
        if n in pnames and n not in ("tau",) and n in el and draw(st.integers(0, 9)) == 0:
            a["v"] = [draw(st.integers(0, 1)) for _ in a["v"]]  # integer arrays
        if n != "I0" and draw(st.integers(0, 4)) == 0:
            a["list"] = True
        arrs[n] = a
    # core parameters may be given as numeric attributes of the model
    attr = sorted(draw(st.sets(st.sampled_from(["tau", "omega", "NormBRDF", "bsf"])))) if draw(
        st.integers(0, 3)
    ) == 0 else []
    for k in attr:
        arrs[k].pop("list", None)
    return {
        "V": v, "S": s, "params": params, "geo": g, "arrs": arrs, "attr": attr,
        "sig0": draw(st.booleans()), "dB": draw(st.integers(0, 3)) == 0,
        "backend": draw(gen.backends(12)), "I0": 1.0,
    }


def out_shape(case):
    return np.broadcast_shapes(*[np.atleast_1d(np.array(dec(a))).shape for a in case["arrs"].values()])


def jac_keys(case):
    return ["tau", "omega", "NormBRDF", "bsf", *sorted(case["params"])]


def evaluate(R, case, vals, attr=()):
    g = case["geo"]
    ang = {"t_0": vals["t0"], "p_0": vals["p0"]}
    if g["mode"] == "bi":
        ang.update(t_ex=vals["tex"], p_ex=vals["pex"])
    R.set_geometry(**ang)
    R.I0 = vals["I0"]
    p = {k: vals[k] for k in ("tau", "omega", "NormBRDF", "bsf", *case["params"])}
    for k in attr:
        v = p.pop(k)
        setattr(R, k, v)
    out = {"calc": np.array(R.calc(**p))}
    for m in ("surface", "volume", "interaction"):
        out[m] = np.array(getattr(R, m)())
    with np.errstate(all="ignore"):
        for k, j in zip(jac_keys(case), R.jacobian(jac_keys(case))):
            out[f"jacobian {k}"] = np.array(j)
    return out


def check_arrays(case):
    shape = out_shape(case)
    vals = {k: dec(a) for k, a in case["arrs"].items()}
    with Sut("array evaluation"):
        R = build(case)
        got = evaluate(R, case, vals, case["attr"])
    with Sut("scalar evaluation"):
        R2 = build(case, fnevals_input=R._fnevals)
    full = {k: np.broadcast_to(np.array(dec(a), dtype=float), shape) for k, a in case["arrs"].items()}
    for k, v in got.items():
        want = (4, *shape) if k == "calc" else shape
        check(v.shape == want, f"shape of {k} is {v.shape} instead of {want}")
    for idx in np.ndindex(*shape):
        with Sut("scalar evaluation"):
            ref_ = evaluate(R2, case, {k: float(v[idx]) for k, v in full.items()})
        for k, v in got.items():
            if k == "calc":
                g, w = v[(slice(None), *idx)], ref_[k].reshape(4)
            else:
                g = np.broadcast_to(v, shape)[idx]
                w = ref_[k].ravel()[0]
            close(g, w, f"{k} at {idx}", rtol=1e-8, atol=1e-12)
    shp = {tuple(a["s"]) for a in case["arrs"].values() if int(np.prod(a["s"] or [1])) > 1}
    return len(shp) > 1 or int(np.prod(shape)) > 1


@st.composite
def large_cases(draw):
    """long timeseries with many angles"""
    v, s, params = draw(gen.pair(nmax=2))
    names = ["tau", "omega", "NormBRDF", "bsf", *params]
    return {
        "V": v, "S": s, "params": params, "geo": draw(gen.geometry(fixed=False)),
        "nobs": draw(st.sampled_from([1, 7, 40, 300, 1100])),
        "nang": draw(st.sampled_from([1, 3, 17, 130, 1030])),
        "full": draw(st.booleans()),
        "dyn": sorted(draw(st.sets(st.sampled_from(names), min_size=1))),
        "seed": draw(st.integers(0, 10**6)), "I0": 1.0,
        "sig0": draw(st.booleans()), "dB": False, "backend": draw(gen.backends(12)),
    }


def check_large(case):
    """sampled elements of large arrays"""
    rng = np.random.default_rng(case["seed"])
    n, m = case["nobs"], case["nang"]
    if n * m > 40000:
        m = 40000 // n
    ang = {"t0": rng.uniform(0, 1.4, (n if case["full"] else 1, m))}
    for k in ("p0", "tex", "pex"):
        ang[k] = rng.uniform(0, 1.4, (1, m)) if k == "tex" else rng.uniform(0, 6, (n, 1))
    lim = {"tau": (0, 3), "omega": (0.05, 1), "NormBRDF": (0.05, 2), "bsf": (0, 0.9)}
    par = {}
    for k in ("tau", "omega", "NormBRDF", "bsf", *case["params"]):
        par[k] = rng.uniform(*lim.get(k, (-0.85, 0.85)), (n, 1) if k in case["dyn"] else None)
    if "tau" in case["dyn"]:
        par["tau"][rng.integers(0, n, 1 + n // 10)] = 0
    c = dict(case, geo=dict(case["geo"], fix=[]))

    def ev(R, ang, par):
        kw = {"t_0": ang["t0"], "p_0": ang["p0"]}
        if case["geo"]["mode"] == "bi":
            kw.update(t_ex=ang["tex"], p_ex=ang["pex"])
        R.set_geometry(**kw)
        out = list(np.array(R.calc(**par)))
        with np.errstate(all="ignore"):
            return out + [np.array(j) for j in R.jacobian(jac_keys(case))]

    with Sut("large arrays"):
        R = build(c)
        got = ev(R, ang, par)
    for k in ("calc", *jac_keys(case)):
        i = 0 if k == "calc" else 4 + jac_keys(case).index(k)
        check(got[i].shape == (n, m), f"shape of {k} is {got[i].shape} instead of {(n, m)}")
    with Sut("scalar evaluation"):
        R2 = build(c, fnevals_input=R._fnevals)
        picks = [(0, 0), (n - 1, m - 1), *((int(rng.integers(n)), int(rng.integers(m))) for _ in range(10))]
        for i, j in picks:
            at = lambda x: float(np.broadcast_to(x, (n, m))[i, j])  # noqa: E731
            w = ev(R2, {k: at(v) for k, v in ang.items()}, {k: at(v) for k, v in par.items()})
            for q, (a, b) in enumerate(zip(got, w)):
                name = "calc" if q < 4 else f"jacobian {jac_keys(case)[q - 4]}"
                close(a[i, j], b.ravel()[0], f"{name} at {(i, j)} of {(n, m)}", rtol=1e-8, atol=1e-12)
    return n * m > 100


@st.composite
def dist_cases(draw):
    side = draw(st.sampled_from("VS"))
    spec, params = draw(gen.dist_spec(side, nmax=2))
    final = draw(st.sampled_from([[3], [2, 3], [3, 3], [2, 1, 2]]))
    names = ["t0", "tex", "p0", "pex", *params]
    sh = draw(shapes(len(names), final))
    arrs = {}
    for n, s in zip(names, sh):
        el = gen.zenith() if n in ("t0", "tex") else gen.azimuth() if n in ("p0", "pex") else gen.fl(-0.85, 0.85)
        arrs[n] = arr_of(draw, el, s)
    return {"side": side, "spec": spec, "params": sorted(params), "arrs": arrs, "backend": draw(gen.backends(2))}


def check_dist(case):
    backend(case["backend"])
    vals = {k: dec(a) for k, a in case["arrs"].items()}
    shape = np.broadcast_shapes(*[np.shape(v) for v in vals.values()])
    with Sut("calc"):
        D = build_dist(case["spec"], case["side"])
        got = D.calc(
            vals["t0"], vals["tex"], vals["p0"], vals["pex"],
            param_dict={k: vals[k] for k in case["params"]},
        )
    p = {k: np.array(vals[k]) for k in case["params"]}
    want = np.broadcast_to(
        ref.dist(case["spec"], case["side"], *[np.array(vals[k]) for k in ("t0", "tex", "p0", "pex")], p), shape
    )
    sc = np.broadcast_to(
        ref.dist_abs(case["spec"], case["side"], *[np.array(vals[k]) for k in ("t0", "tex", "p0", "pex")], p), shape
    )
    close(got, want, "calc()", rtol=1e-8, atol=1e-11 * (1 + sc))
    return len({tuple(a["s"]) for a in case["arrs"].values()}) > 1 and len(shape) > 0


SUBS = [
    Sub("broadcast", cases().map(gen.light), check_arrays, 200, 3000),
    Sub("distributions", dist_cases(), check_dist, 160, 2000),
    Sub("large", large_cases().map(gen.light), check_large, 32),
]
