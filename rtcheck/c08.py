"""C08: the Jacobian is the derivative of surface+volume."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, build, check, close, sympy_expr

RULE = (
    "random models (distributions, symbolic weights, definitions of tau, omega, NormBRDF and bsf, "
    "geometry, units) and requested parameter lists, compared with complex-step derivatives of the "
    "closed-form surface+volume; non-trivial: at least one requested derivative is non-zero and "
    "belongs to a symbol inside an expression or a distribution"
)

CORE = ("tau", "omega", "NormBRDF", "bsf")
H = 1e-30

# expressions that keep the parameters in their valid range for symbols in [0.05, 0.9]
EXPR = {
    "tau": ["{0}", "{0}*{1}", "{0}**2 + 0.05", "exp(-{0})", "0.5*{0} + {1}", "2*{0}/(1 + {1})", "sqrt({0})"],
    "omega": ["{0}", "{0}*{1}", "1 - {0}", "0.3*{0} + 0.2", "exp(-{0})"],
    "NormBRDF": ["{0}", "{0}*{1}", "1.5 - {0}", "{0}**2 + {1}", "sqrt({0})"],
    "bsf": ["{0}", "0.5*{0}", "{0}*{1}", "1 - {0}"],
}


@st.composite
def definitions(draw, names):
    """Definitions of tau, omega, NormBRDF, bsf and the values of their symbols."""
    defs, params = {}, {}
    for k in CORE:
        kind = draw(st.sampled_from(["default", "number", "expr", "expr"]))
        if kind == "number":
            v = draw(gen.fl(0.05, 0.9))
            defs[k] = draw(st.sampled_from([v, v, 1])) if k != "bsf" else v
        elif kind == "expr":
            e = draw(st.sampled_from(EXPR[k]))
            a = draw(st.sampled_from(names))
            b = draw(st.sampled_from(names))
            defs[k] = e.format(a, b)
    default = [k for k in CORE if k not in defs]
    # parameters that depend on another (default) parameter
    if default and draw(st.integers(0, 3)) == 0:
        src = draw(st.sampled_from(default))
        for k in ("omega", "bsf", "NormBRDF"):
            if k in defs and isinstance(defs[k], str) and draw(st.booleans()):
                defs[k] = draw(st.sampled_from(["0.5*{0}", "exp(-{0})", "1 - {0}"])).format(src)
    for k in default:
        params[k] = draw(gen.fl(0.05, 0.9))
    for v in defs.values():
        for n in ref.symbols(v, names):
            params.setdefault(n, draw(gen.fl(0.05, 0.9)))
    return defs, params


@st.composite
def cases(draw, full=True):
    v, s, params = draw(gen.pair(nmax=2, hi=0.85))
    names = sorted({*params, "x", "k"})
    if full:
        defs, more = draw(definitions(names))
    else:
        defs, more = {}, draw(gen.core_params(tau_hi=3.0))
    # symbols of the definitions must be positive, those of the distributions may be negative
    params = {**params, **more}
    keys = [*params]
    unused = None
    if draw(st.integers(0, 5)) == 0:
        unused = "unused_p"
        params[unused] = 0.3
        keys.append(unused)
    keys += [k for k in defs if draw(st.integers(0, 2)) == 0 and k not in keys]
    keys = draw(st.permutations(keys or ["tau"]))
    m = draw(st.integers(1, len(keys)))
    if draw(st.booleans()):
        keys = keys[:m]
    n = draw(st.integers(1, 3))
    ex = draw(
        st.fixed_dictionaries({"t0s": st.lists(gen.zenith(hi=85.0), min_size=n, max_size=n)})
    )
    g = draw(gen.geometry(hi=85.0))
    g["fix"] = [k for k in g["fix"] if k != "t0"]
    return {
        "V": v, "S": s, "params": params, "defs": defs, "keys": keys, "geo": g, **ex,
        "sig0": draw(st.booleans()), "dB": draw(st.integers(0, 2)) == 0,
        "I0": draw(gen.inc_int), "intQ": draw(st.booleans()),
        "backend": draw(gen.backends(3)),
        "sympy_defs": draw(st.integers(0, 4)) == 0,
        "attr": draw(st.integers(0, 3)) == 0,
    }


def core_values(case, params, add=None):
    ret = {}
    for k in CORE:
        d = case["defs"].get(k, k)
        ret[k] = ref.ev(d, params) if isinstance(d, str) else ref._num(d)
    for k, v in (add or {}).items():
        ret[k] = ret[k] + v
    return ret


def total(case, params, add=None, parts=False):
    g = case["geo"]
    t0 = np.array(case["t0s"])
    te = t0 if g["mode"] == "mono" else g["tex"]
    p0 = g["p0"]
    pe = p0 + np.pi if g["mode"] == "mono" else g["pex"]
    c = core_values(case, params, add)
    args = (t0, te, p0, pe, c["tau"], c["omega"], c["NormBRDF"], c["bsf"], case["I0"], params)
    s = ref.surface(case["S"], *args)
    v = ref.volume(case["V"], *args)
    if parts:
        return s, v
    return ref.convert(s + v, t0, case["I0"], case["sig0"], case["dB"])


def kinks(case, params=None, **kw):
    """keys whose derivatives are not defined"""
    g = case["geo"]
    t0 = np.array(case["t0s"])
    te = t0 if g["mode"] == "mono" else g["tex"]
    pe = g["p0"] + np.pi if g["mode"] == "mono" else g["pex"]
    return ref.kinks(case["S"], t0, te, g["p0"], pe, params or case["params"], **kw)


def derivative(case, key):
    params, add = dict(case["params"]), None
    symbs = set()
    for d in case["defs"].values():
        symbs |= ref.symbols(d, set(params) | set(CORE))
    if key in params and (key not in CORE or key not in case["defs"] or key in symbs):
        params[key] = params[key] + 1j * H
    else:
        add = {key: 1j * H}
    r = total(case, params, add)
    return np.broadcast_to(np.imag(r) / H, np.shape(case["t0s"]))


def make(case):
    R = build(dict(case, defs={}))
    import sympy as sp

    for k, d in case["defs"].items():
        if isinstance(d, str) and case.get("sympy_defs"):
            d = sympy_expr(d)
        setattr(R, k, d)
    R.set_geometry(t_0=np.array(case["t0s"]))
    return R


def check_jac(case):
    with np.errstate(all="ignore"):
        s, v = total(case, case["params"], parts=True)
        tot = np.broadcast_to(s + v, np.shape(case["t0s"]))
        mag = np.abs(s) + np.abs(v)
    case = dict(case)
    if case["dB"] and not (tot > 1e-3 * mag + 1e-12).all():
        case["dB"] = False
    with Sut("jacobian"):
        R = make(case)
        if case["attr"]:
            R.sig0, R.dB = not case["sig0"], not case["dB"]
            R.update_params(**case["params"])
            R.jacobian(list(case["keys"]))
            R.sig0, R.dB = case["sig0"], case["dB"]
        R.update_params(**case["params"])
        got = R.jacobian(list(case["keys"]))
    check(len(got) == len(case["keys"]), f"{len(got)} entries for {len(case['keys'])} parameters")
    nt = False
    skip = kinks(case)
    for k, g in zip(case["keys"], got):
        if k in skip:
            continue
        w = derivative(case, k)
        # size of the individual terms
        sc = np.abs(w)
        with np.errstate(all="ignore"):
            if case["dB"]:
                sc = sc + 10 * mag / tot
            else:
                f = 4 * np.pi * np.cos(np.array(case["t0s"])) / case["I0"] if case["sig0"] else 1.0
                sc = sc + mag * f
        g = np.asarray(g)
        try:
            g = np.broadcast_to(g, w.shape)
        except ValueError:
            pass
        close(g, w, f"derivative with respect to {k}", rtol=1e-8, atol=1e-8 * sc + 1e-12)
        if k not in CORE and (np.abs(w) > 1e-9).any():
            nt = True
    return nt


# ---------------------------------------------------------------- consistency with the model
@st.composite
def fd_cases(draw):
    """the Jacobian against finite differences of the model's own output"""
    c = draw(cases())
    c["intQ"] = False
    c["dB"] = False
    return c


def check_fd(case):
    """differences of surface()+volume() of the model itself (not of the reference)"""
    h = 1e-3
    skip = kinks(case, tol=20 * h, orders=range(1, 9))
    keys = [k for k in case["keys"] if k in case["params"] and k not in skip]
    if not keys:
        return False
    with Sut("jacobian"):
        R = make(case)
        R.update_params(**case["params"])
        got = R.jacobian(keys)
        num, mx = [], []
        for k in keys:
            vals = []
            for m in (-3, -2, -1, 1, 2, 3):
                R.update_params(**{k: case["params"][k] + m * h})
                vals.append(np.asarray(R.surface()) + np.asarray(R.volume()))
            R.update_params(**{k: case["params"][k]})
            a, b, c, d, e, f = vals
            num.append((f - a) / (60 * h) - 9 * (e - b) / (60 * h) + 45 * (d - c) / (60 * h))
            mx.append(np.max(np.abs(vals), axis=0))
    nt = False
    for k, g, w, m in zip(keys, got, num, mx):
        close(
            np.broadcast_to(g, w.shape), w, f"derivative with respect to {k} (differences)",
            rtol=1e-4, atol=1e-5 * m + 1e-8,
        )
        nt |= bool((np.abs(w) > 1e-6).any()) and k not in CORE
    return nt


SUBS = [
    Sub("definitions", cases(), check_jac, 400),
    Sub("direct", cases(full=False), check_jac, 160),
    Sub("differences", fd_cases(), check_fd, 96),
]
