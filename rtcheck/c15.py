"""C15: equivalent parameter definitions give equal results."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, backend, build_dist, check, close, set_geo

RULE = (
    "pairs of models whose parameters are defined differently but evaluate to the same numbers "
    "(numbers, names, expression strings, sympy expressions, constant expressions, renamed "
    "parameters, additional parameters, permuted orders); non-trivial: at least two core parameters "
    "have a non-default definition, or a parameter of a distribution is renamed"
)

CORE = ("tau", "omega", "NormBRDF", "bsf")

# names a user might choose (incl. names that occur in the package or in its namespace)
NAMES = [
    "N", "S", "Q", "n", "sp", "np", "x0", "x1", "x2", "x10", "t", "R", "V", "SRF", "a", "b", "mu", "key",
    "func", "params", "param_dict", "alpha", "sigma", "theta", "phi", "t_0", "p_0", "t_ex", "theta_s",
    "phi_s", "I0", "i", "j", "x_0", "tau_v", "omega_2", "N_1", "Nn", "S1", "e", "C", "args", "kwargs",
    "funcs", "sympy", "numpy", "symbol", "k", "m", "ncoefs", "sig0", "dB", "vod", "sm", "LAI",
    "A", "B", "d", "f", "g", "h", "w", "z", "y", "_p", "p__q", "scipy", "array", "val", "legendre_n",
]
ANGLES = ("mono", "bi")

DEFS = {
    "tau": ["{0}", "{0}*{1}", "{0}**2 + 0.05", "exp(-{0})", "0.5*{0} + {1}", "sqrt({0})", "{0}/({1} + 0.5)"],
    "omega": ["{0}", "{0}*{1}", "1 - {0}", "0.3*{0} + 0.2", "exp(-{0})"],
    "NormBRDF": ["{0}", "{0}*{1}", "1.5 - {0}", "{0}**2 + {1}", "sqrt({0})"],
    "bsf": ["{0}", "0.5*{0}", "{0}*{1}", "1 - {0}"],
}
CONST = ["0.5", "1/4", "0.2 + 0.1", "sqrt(0.04)", "exp(-1)", "1", "3/4", "0.3**2"]


@st.composite
def base(draw, nmax=2):
    v, s, params = draw(gen.pair(nmax=nmax, nmin=1, hi=0.85))
    return {
        "V": v, "S": s, "params": params, "geo": draw(gen.geometry(hi=85.0)),
        "sig0": draw(st.booleans()), "I0": draw(gen.inc_int), "intQ": draw(st.integers(0, 3)) > 0,
        "backend": draw(gen.backends(6)),
    }


@st.composite
def def_cases(draw):
    c = draw(base())
    used = set(c["params"]) | set(CORE)
    names = [n for n in draw(st.permutations(NAMES)) if n not in used][:3]
    c["vals"] = {n: draw(gen.fl(0.05, 0.9)) for n in names}
    c["defs"] = {}
    for k in CORE:
        kind = draw(st.sampled_from(["default", "number", "np", "const", "expr", "expr", "sympy", "array", "core"]))
        if kind == "number":
            v = draw(gen.fl(0.05, 0.9))
            c["defs"][k] = {"kind": kind, "d": draw(st.sampled_from([v, v, 1]))}
        elif kind in ("np", "array"):
            c["defs"][k] = {"kind": kind, "d": draw(gen.fl(0.05, 0.9))}
        elif kind in ("const", "sconst"):
            c["defs"][k] = {"kind": draw(st.sampled_from(["str", "sympy"])), "d": draw(st.sampled_from(CONST))}
        elif kind in ("expr", "sympy", "core"):
            e = draw(st.sampled_from(DEFS[k]))
            a, b = draw(st.sampled_from(names)), draw(st.sampled_from(names))
            if kind == "core":
                a = k  # e.g. tau = 0.5 * tau
            c["defs"][k] = {"kind": "sympy" if kind == "sympy" else "str", "d": e.format(a, b)}
    c["core"] = {k: draw(gen.fl(0.05, 0.9)) for k in CORE}
    if draw(st.booleans()):
        # bsf not provided
        if c["defs"].get("bsf", {}).get("kind") is None:
            c["core"].pop("bsf")
    c["extra"] = {n: draw(gen.fl(-3, 3)) for n in draw(st.lists(st.sampled_from(["un1", "zz", "Aux", "theta_v"]), max_size=2, unique=True))}
    order = [*c["params"], *c["vals"], *c["core"], *c["extra"]]
    c["order"] = draw(st.permutations(order))
    c["when"] = draw(st.sampled_from(["before", "after", "mixed"]))
    c["call"] = draw(st.sampled_from(["calc", "update", "one_by_one"]))
    c["arr"] = draw(st.sampled_from([None, None, *sorted(c["vals"])]))
    return c


def symb(e):
    """sympy expression of an expression string (all names are plain symbols)"""
    import re

    import sympy as sp

    funcs = {"exp", "sqrt"}
    loc = {n: sp.Symbol(n) for n in re.findall(r"[A-Za-z_]\w*", e) if n not in funcs}
    return sp.parse_expr(e, local_dict=loc)


def define(R, defs, keys=CORE):
    for k in keys:
        if k not in defs:
            continue
        d = defs[k]
        v = d["d"]
        if d["kind"] == "np":
            v = np.float64(v)
        elif d["kind"] == "array":
            v = np.array([v])
        elif d["kind"] == "sympy":
            v = symb(v)
        setattr(R, k, v)


def model(case, V=None, S=None):
    from rt1_model import RT1

    backend(case["backend"])
    return RT1(
        V=build_dist(V or case["V"], "V"), SRF=build_dist(S or case["S"], "S"), sig0=case["sig0"],
        dB=False, int_Q=case["intQ"], I0=case["I0"],
    )


def supply(R, p, how):
    if how == "calc":
        return np.array(R.calc(**p))
    if how == "one_by_one":
        for k, v in p.items():
            R.update_params(**{k: v})
    else:
        R.update_params(**p)
    return np.array(R.calc())


def check_defs(case):
    vals = dict(case["vals"])
    n = None
    if case["arr"]:
        x = vals[case["arr"]]
        n = 2
        vals[case["arr"]] = np.array([x, 0.5 * x + 0.1])
    allp = {**case["params"], **vals, **case["core"], **case["extra"]}
    # the values of the definitions
    core = {}
    for k in CORE:
        d = case["defs"].get(k)
        core[k] = case["core"].get(k, 0.0) if d is None else ref.ev(d["d"], allp)
    with Sut("model with default definitions"):
        A = model(case)
        set_geo(A, case["geo"])
        want = np.array(A.calc(**case["params"], **core))
    with Sut("model with other definitions"):
        B = model(case)
        if case["when"] == "before":
            define(B, case["defs"])
            set_geo(B, case["geo"])
        elif case["when"] == "after":
            set_geo(B, case["geo"])
            B.update_params(**allp)
            define(B, case["defs"])
        else:
            define(B, case["defs"], CORE[:2])
            set_geo(B, case["geo"])
            B.update_params(**allp)
            define(B, case["defs"], CORE[2:])
        p = {k: allp[k] for k in case["order"]}
        got = supply(B, p, case["call"])
        props = {k: np.array(getattr(B, k)) for k in CORE}
    if n and got.shape != want.shape:
        want = np.broadcast_to(want, (*want.shape[:-1], n))
    names = ("total", "surface", "volume", "interaction")
    sc = np.max(np.abs(want))
    for nm, g, w in zip(names, got, want):
        close(g, w, nm, rtol=1e-9, atol=1e-12 * sc)
    for k, v in props.items():
        w = np.ravel(core[k])
        check(v.size in (1, w.size), f"{k} has {v.size} values instead of {w.size}")
        close(np.broadcast_to(np.ravel(v), w.shape), w, f"reported value of {k}", rtol=1e-12)
    return len(case["defs"]) >= 2


# ------------------------------------------------------------- renaming
@st.composite
def rename_cases(draw):
    c = draw(base(nmax=3))
    if not c["params"]:
        k = "HG"
        c["V"] = {"k": k, "t": "x", "n": 2}
        c["params"] = {"x": draw(gen.fl(-0.8, 0.8))}
    old = sorted(c["params"])
    new = [n for n in draw(st.permutations(NAMES)) if n not in CORE][: len(old) + 1]
    c["map"] = dict(zip(old, new))
    c["aux"] = new[-1]
    c["core"] = draw(gen.core_params(tau_hi=3.0, positive=True))
    c["auxval"] = draw(gen.fl(0.05, 0.9))
    c["defs"] = {}
    for k in CORE:
        if draw(st.booleans()):
            c["defs"][k] = draw(st.sampled_from(DEFS[k])).format("AUX", draw(st.sampled_from(["AUX", k])))
    c["jac"] = draw(st.booleans())
    c["late"] = draw(st.booleans())
    c["sympy_t"] = draw(st.integers(0, 3)) == 0
    return c


def rename_spec(spec, m, sym=False):
    import re

    def f(e):
        if not isinstance(e, str):
            return e
        r = re.sub(r"[A-Za-z_]\w*", lambda x: m.get(x[0], x[0]), e)
        return symb(r) if sym else r

    spec = dict(spec)
    if spec["k"] == "LC":
        spec["c"] = [[f(w), rename_spec(s, m, sym)] for w, s in spec["c"]]
    elif "t" in spec:
        spec["t"] = f(spec["t"])
    if spec.get("a") is not None:
        spec["a"] = [f(i) for i in spec["a"]]
    return spec


def check_rename(case):
    m = case["map"]
    res, jac = [], []
    for ren in (False, True):
        mm = m if ren else {}
        aux = case["aux"] if ren else "aux_parameter"
        sym = ren and case["sympy_t"]
        with Sut(f"model with parameters {sorted(mm.values()) or sorted(m)}"):
            R = model(case, rename_spec(case["V"], mm, sym), rename_spec(case["S"], mm, sym))
            for k, d in case["defs"].items():
                d = d.replace("AUX", aux)
                setattr(R, k, symb(d) if sym else d)
            set_geo(R, case["geo"])
            p = {aux: case["auxval"]}
            p.update({mm.get(k, k): v for k, v in case["params"].items()})
            p = {**p, **case["core"]} if case["late"] else {**case["core"], **p}
            res.append(np.array(R.calc(**p)))
            if case["jac"]:
                keys = [mm.get(k, k) for k in sorted(m)] + [aux, *CORE]
                jac.append([np.array(j) for j in R.jacobian(keys)])
    sc = np.max(np.abs(res[0]))
    for nm, g, w in zip(("total", "surface", "volume", "interaction"), res[1], res[0]):
        close(g, w, f"{nm} after renaming {m}", rtol=1e-9, atol=1e-11 * sc)
    if case["jac"]:
        for k, g, w in zip([*sorted(m), "aux", *CORE], jac[1], jac[0]):
            close(g, w, f"derivative for {k} after renaming {m}", rtol=1e-9, atol=1e-9 * (sc + np.max(np.abs(w))))
    return True


# ------------------------------------------------------------- unused parameters and order
@st.composite
def order_cases(draw):
    c = draw(base(nmax=3))
    c["core"] = draw(gen.core_params(tau_hi=3.0))
    names = [n for n in draw(st.permutations(NAMES)) if n not in c["params"]]
    c["extra"] = {n: draw(gen.fl(-5, 5)) for n in names[: draw(st.integers(0, 3))]}
    allp = [*c["params"], *c["core"], *c["extra"]]
    c["orders"] = [draw(st.permutations(allp)) for _ in range(2)]
    c["late"] = {n: draw(gen.fl(-5, 5)) for n in names[3 : 3 + draw(st.integers(0, 2))]}
    c["tau_array"] = draw(st.booleans())
    return c


def check_order(case):
    if case.get("tau_array"):
        case = dict(case, core=dict(case["core"], tau=[case["core"]["tau"], 0.5]))
    keys = [*sorted(case["params"]), *CORE]
    with Sut("reference model"):
        A = model(case)
        set_geo(A, case["geo"])
        want = np.array(A.calc(**case["params"], **case["core"]))
        jac = [np.array(i) for i in A.jacobian(keys)]
    p = {**case["params"], **case["core"], **case["extra"]}
    sc = np.max(np.abs(want))
    with Sut("model"):
        B = model(case)
        set_geo(B, case["geo"])
        first = np.array(B.calc(**{k: p[k] for k in case["orders"][0]}))
        B.update_params(**case["late"])
        second = np.array(B.calc())
        C = model(case)
        set_geo(C, case["geo"])
        for k in case["orders"][1]:
            C.update_params(**{k: p[k]})
        third = np.array(C.calc())
        jac2 = [np.array(i) for i in B.jacobian(keys)]
    for k, g, w in zip(keys, jac2, jac):
        close(g, w, f"derivative for {k} (additional parameters)", rtol=1e-9, atol=1e-9 * (sc + np.max(np.abs(w))))
    for nm, got in (("first", first), ("after additional parameters", second), ("other order", third)):
        close(got, want, f"calc() ({nm})", rtol=1e-9, atol=1e-11 * sc)
    return bool(case["extra"])


SUBS = [
    Sub(
        "definitions", def_cases().map(gen.light), check_defs, 200,
    ),
    Sub("renaming", rename_cases().map(gen.light), check_rename, 160),
    Sub("order", order_cases().map(gen.light), check_order, 80),
]
