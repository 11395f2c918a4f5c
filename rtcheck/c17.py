"""C17: invalid or incomplete specifications are rejected with a clear error."""
import re

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .c08 import CORE, definitions
from .core import Sub
from .sut import ANG, Sut, Violation, backend, build, build_dist, check, close, set_geo

RULE = (
    "random models with random subsets of missing parameters (and recovery), random invalid angle "
    "changes mixed with valid ones, invalid distribution specs and missing expansion orders; "
    "non-trivial: at least two parameters are missing / the rejected call also contains valid values"
)


def rejected(func, what, types=None):
    """the exception raised by func (which has to be raised)"""
    try:
        res = func()
    except Exception as ex:
        if types is not None and not isinstance(ex, types):
            raise Violation(f"{what}: raises {ex!r} instead of {types}") from ex
        return ex
    raise Violation(f"{what} is accepted (result: {str(res)[:100]})")


# ------------------------------------------------------- missing parameters
@st.composite
def missing_cases(draw):
    v, s, params = draw(gen.pair(nmax=2, hi=0.85, pools=False))
    v, s = gen.nonzero(v), gen.nonzero(s)
    rename = {"x": "x_par", "y": "y_par", "u": "u_par", "v": "v_par", "k": "k_par"}
    names = ["x", "k"]
    defs, more = draw(definitions(names))
    params = {**params, **more}

    def ren(e):
        return re.sub(r"[A-Za-z_]\w*", lambda m: rename.get(m[0], m[0]), e) if isinstance(e, str) else e

    def spec(sp):
        sp = dict(sp)
        if sp["k"] == "LC":
            sp["c"] = [[ren(w), spec(c)] for w, c in sp["c"]]
        elif "t" in sp:
            sp["t"] = ren(sp["t"])
        if sp.get("a") is not None:
            sp["a"] = [ren(i) for i in sp["a"]]
        return sp

    params = {rename.get(k, k): v for k, v in params.items()}
    keys = sorted(params)
    miss = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=len(keys), unique=True)) if keys else []
    return {
        "V": spec(v), "S": spec(s), "defs": {k: ren(e) for k, e in defs.items()}, "params": params,
        "miss": sorted(miss), "geo": draw(gen.geometry(hi=85.0)), "sig0": draw(st.booleans()),
        "dB": False, "intQ": draw(st.booleans()), "backend": draw(gen.backends(2)),
        "extra": draw(st.sampled_from([None, None, "unused_par"])),
        "how": draw(st.sampled_from(["calc", "update"])),
        "split": draw(st.booleans()),
        "array": draw(st.booleans()),
        "switch": draw(st.integers(0, 4)) == 0,
    }


def tokens(msg, names):
    return {n for n in names if re.search(rf"(?<!\w){re.escape(n)}(?!\w)", msg)}


def check_missing(case):
    p = dict(case["params"])
    # (the default of bsf is 0, so it can not be missing if it is not redefined)
    pre = "bsf" in case["miss"] and case["defs"].get("bsf", "bsf") == "bsf"
    used = {k for k in case["miss"]}
    if pre:
        used.discard("bsf")
    if case["array"]:
        p = {k: np.array([v, v]) for k, v in p.items()}
    given = {k: v for k, v in p.items() if k not in case["miss"]}
    if case["extra"]:
        given[case["extra"]] = 0.3
    with Sut("model"):
        R = build(case)
    # bsf has a default value as long as it is (or refers to) the parameter "bsf"
    with Sut("param_dict"):
        used -= set(R.param_dict)
    allnames = {*case["params"], "x_par", "y_par", "u_par", "v_par", "k_par", *CORE, "unused_par"}

    def call(**kw):
        if case["how"] == "update":
            R.update_params(**kw)
            return R.calc()
        return R.calc(**kw)

    left = sorted(used)
    if left:
        ex = rejected(lambda: call(**given), f"calc() without {left}", TypeError)
        named = tokens(str(ex), allnames)
        check(named == set(left), f"calc() without {left} names {sorted(named)}: {ex}")
    else:
        with Sut("update_params()"):
            R.update_params(**given)
    if case["split"] and len(left) > 1:
        # provide only one of the missing parameters
        ex = rejected(lambda: call(**{left[0]: p[left[0]]}), f"calc() without {left[1:]}", TypeError)
        named = tokens(str(ex), allnames)
        check(named == set(left[1:]), f"calc() without {left[1:]} names {sorted(named)}: {ex}")
    if case["switch"]:
        backend({"sympy": "symengine", "symengine": "sympy"}[case["backend"]])
        rejected(lambda: R.calc(), f"calc() without {left}", TypeError) if left and not case["split"] else None
        backend(case["backend"])
    with Sut("calc() after providing the missing parameters"):
        got = np.array(call(**{k: p[k] for k in case["miss"]}))
    with Sut("calc() of a fresh model"):
        want = np.array(build(case).calc(**p))
    close(got, want, "calc() after providing the missing parameters", rtol=1e-10, atol=1e-15)
    return len(left) >= 2


# ------------------------------------------------------------ invalid angles
BADNAMES = ["theta", "t0", "T_0", "p0", "theta_0", "t_exit", "pex", "phi_0", "a", "angle", "t_i", "p_x"]


@st.composite
def angle_cases(draw):
    V = draw(st.sampled_from([{"k": "Ray"}, {"k": "HG", "t": 0.4, "n": 2}, {"k": "Iso"}]))
    S = draw(st.sampled_from([{"k": "Iso"}, {"k": "HG", "t": 0.3, "n": 2}]))
    geo = draw(gen.geometry(hi=80.0))
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        valid = sorted(draw(st.sets(st.sampled_from(["t0", "tex", "p0", "pex"]))))
        vals = {k: draw(gen.zenith(hi=80.0) if k[0] == "t" else gen.azimuth()) for k in valid}
        kind = draw(st.sampled_from(["unknown", "unknown", "exit", "fixed", "none", "set_mono", "set_bi"]))
        calls.append(
            {
                "kind": kind, "vals": vals, "bad": draw(st.sampled_from(BADNAMES)),
                "pick": draw(st.integers(0, 3)), "val": draw(st.sampled_from([0.3, [0.2, 0.4], None])),
                "first": draw(st.booleans()),
                "num": draw(st.sampled_from(["0.3", [0.1, 0.2], ["arr"], {"x": 1}, "theta_0", ["sym"], ["none_arr"]])),
            }
        )
    return {
        "V": V, "S": S, "geo": geo, "calls": calls, "intQ": draw(st.booleans()), "dB": False,
        "sig0": draw(st.booleans()), "backend": "symengine", "arr": draw(st.booleans()),
        "ev": draw(st.booleans()),
    }


def non_numeric(x):
    import sympy as sp

    if x == ["arr"]:
        return np.array([0.3])
    if x == ["sym"]:
        return sp.Symbol("theta_0")
    if x == ["none_arr"]:
        return np.array([0.3, 0.4])
    return x


def check_angles(case):
    g = case["geo"]
    core = dict(tau=0.4, omega=0.3, NormBRDF=0.6, bsf=0.1)
    with Sut("model"):
        R = build(dict(case))
        if case["arr"]:
            keys = ["t0", "p0"] if g["mode"] == "mono" else ["t0", "tex", "p0", "pex"]
            dyn = {ANG[k]: np.array([g[k], 0.5 * g[k]]) for k in keys if k not in g["fix"]}
            if dyn:
                R.set_geometry(**dyn)
        if case["ev"]:
            R.calc(**core)
        before = {k: np.array(getattr(R, k)) for k in ANG.values()}
        want = None
        if case["ev"]:
            want = np.array(R.calc())
    mixed = False
    for c in case["calls"]:
        kind = c["kind"]
        vals = {ANG[k]: v for k, v in c["vals"].items()}
        free = ["t_0", "p_0"] if g["mode"] == "mono" else ["t_0", "t_ex", "p_0", "p_ex"]
        fixed = [ANG[k] for k in g["fix"]]
        vals = {k: v for k, v in vals.items() if k in free and k not in fixed}
        bad = None
        if kind == "unknown":
            bad = {c["bad"]: 0.3}
        elif kind == "exit" and g["mode"] == "mono":
            bad = {["t_ex", "p_ex"][c["pick"] % 2]: 0.3}
        elif kind == "fixed" and fixed:
            bad = {fixed[c["pick"] % len(fixed)]: 0.3 if c["val"] is None else c["val"]}
        elif kind == "none":
            opts = [k for k in free if k not in fixed]
            if opts:
                k = opts[c["pick"] % len(opts)]
                vals.pop(k, None)
                bad = {k: None}
        if bad is not None:
            kw = {**bad, **vals} if c["first"] else {**vals, **bad}
            rejected(lambda: R.set_geometry(**kw), f"set_geometry({kw})")
            mixed |= bool(vals)
        elif kind == "set_mono":
            x = non_numeric(c["num"])
            rejected(lambda: R.set_monostatic(p_0=x), f"set_monostatic(p_0={x!r})")
        elif kind == "set_bi":
            x = non_numeric(c["num"])
            k = list(ANG.values())[c["pick"]]
            others = {n: 0.2 for n in ANG.values() if n != k} if c["first"] else {}
            kw = {**others, k: x}
            rejected(lambda: R.set_bistatic(**kw), f"set_bistatic({kw})")
            mixed |= bool(others)
        with Sut("reported angles after a rejected change"):
            for k, v in before.items():
                now = np.array(getattr(R, k))
                check(np.array_equal(now, v), f"{k} changed from {v} to {now} by a rejected call {c}")
    with Sut("calc() after rejected angle changes"):
        got = np.array(R.calc(**core))
    if want is None:
        with Sut("calc() of a fresh model"):
            R2 = build(dict(case))
            if case["arr"] and dyn:
                R2.set_geometry(**dyn)
            want = np.array(R2.calc(**core))
    close(got, want, "calc() after rejected angle changes", rtol=1e-12)
    # valid changes are still possible
    free = ["t_0", "p_0"] if g["mode"] == "mono" else ["t_0", "t_ex", "p_0", "p_ex"]
    new = {k: 0.35 for k in free if k not in [ANG[i] for i in g["fix"]]}
    if new:
        with Sut("set_geometry() after rejected angle changes"):
            R.set_geometry(**new)
            for k in new:
                check(np.array_equal(np.ravel(getattr(R, k)), [0.35]), f"{k} is not set")
    return mixed


# ------------------------------------------------------ invalid distributions
@st.composite
def spec_cases(draw):
    kind = draw(st.sampled_from(["power", "power", "a", "a", "no_t", "no_power", "no_dist", "ncoefs", "ncoefs"]))
    c = {"kind": kind, "side": draw(st.sampled_from("VS"))}
    if kind == "power":
        c["i"] = draw(
            st.one_of(
                st.integers(-20, -1), st.floats(0.1, 9.9).map(lambda x: round(x, 3)),
                st.sampled_from(["3", "i", None, 2.5, -1, -2.0, 3.7]),
            )
        )
    if kind == "a":
        n = draw(st.sampled_from([0, 1, 2, 4, 5]))
        c["a"] = draw(st.lists(gen.fl(-1, 1), min_size=n, max_size=n))
        c["tuple"] = draw(st.booleans())
    c["cls"] = draw(st.sampled_from(["Iso", "Ray", "HG", "HGR", "HGN", "Cos"]))
    c["n"] = draw(st.sampled_from([None, 3]))
    if kind == "ncoefs":
        c["other"] = draw(st.sampled_from(["Iso", "HG"]))
        c["wrap"] = draw(st.booleans())
        c["geo"] = draw(gen.geometry(hi=80.0))
        c["call"] = draw(st.sampled_from(["calc", "interaction"]))
        c["backend"] = draw(gen.backends(3))
        c["p"] = {**draw(gen.core_params(tau_hi=2.0, positive=True)), "t": draw(gen.t_asym(0.8))}
    return c


def check_specs(case):
    from rt1_model import RT1, surface, volume

    kind = case["kind"]
    sides = {"Iso": "VS", "Ray": "V", "HG": "VS", "HGR": "V", "HGN": "S", "Cos": "S"}[case["cls"]]
    side = case["side"] if case["side"] in sides else sides
    mod = volume if side == "V" else surface
    cls = {
        "Iso": "Isotropic", "Ray": "Rayleigh", "HG": "HenyeyGreenstein", "HGR": "HGRayleigh",
        "HGN": "HG_nadirnorm", "Cos": "CosineLobe",
    }[case["cls"]]
    kw = {} if case["n"] is None else {"ncoefs": case["n"]}
    args = {}
    if case["cls"] in ("HG", "HGR", "HGN"):
        args["t"] = "t"
    if case["cls"] == "Cos":
        args["i"] = 3
    if kind == "power":
        with Sut("valid lobe"):
            surface.CosineLobe(i=3, **kw)
        rejected(lambda: surface.CosineLobe(i=case["i"], **kw), f"CosineLobe(i={case['i']!r})")
        return True
    if kind == "a":
        a = tuple(case["a"]) if case["tuple"] else case["a"]
        with Sut("valid distribution"):
            getattr(mod, cls)(**args, **kw, a=[0.5, 0.5, 0.5])
        rejected(lambda: getattr(mod, cls)(**args, **kw, a=a), f"{cls}(a={a})")
        return True
    if kind in ("no_t", "no_power"):
        if not args:
            return False
        with Sut("valid distribution"):
            getattr(mod, cls)(**args, **kw)
        rejected(lambda: getattr(mod, cls)(**kw), f"{cls}({kw})")
        return True
    if kind == "no_dist":
        with Sut("valid model"):
            V, S = volume.Rayleigh(), surface.Isotropic()
            RT1(V=V, SRF=S)
        rejected(lambda: RT1(V=V), "RT1() without SRF")
        rejected(lambda: RT1(SRF=S), "RT1() without V")
        rejected(lambda: RT1(), "RT1() without V and SRF")
        rejected(lambda: RT1(V=None, SRF=S, int_Q=False), "RT1() with V=None")
        rejected(lambda: RT1(V=V, SRF=None, int_Q=False), "RT1() with SRF=None")
        return True
    # missing expansion orders
    if case["cls"] in ("Iso", "Ray"):
        return False
    backend(case["backend"])
    spec = {"k": case["cls"]}
    if "t" in args:
        spec["t"] = "t"
    else:
        spec["i"] = 3
    full = dict(spec, n=2)
    other = {"k": case["other"]}
    if case["other"] == "HG":
        other.update(t=0.2, n=2)
    if case["wrap"]:
        spec = {"k": "LC", "c": [[0.6, spec], [0.4, {"k": "Iso"}]]}
        full = {"k": "LC", "c": [[0.6, full], [0.4, {"k": "Iso"}]]}
    oside = "S" if side == "V" else "V"

    def model(sp, int_Q):
        d = {side: build_dist(sp, side), oside: build_dist(other, oside)}
        R = RT1(V=d["V"], SRF=d["S"], int_Q=int_Q, dB=False, sig0=False)
        set_geo(R, case["geo"])
        R.update_params(**case["p"])
        return R

    with Sut("model without interaction"):
        R = model(spec, False)
        got = np.array(R.calc())
        F = model(full, True)
        want = np.array(F.calc())
    close(got[1:3], want[1:3], "contributions without expansion orders", rtol=1e-12)
    with Sut("model"):
        R = model(spec, True)
    rejected(lambda: getattr(R, case["call"])(), f"{case['call']}() without expansion orders")
    with Sut("surface() and volume() without expansion orders"):
        s, v = R.surface(), R.volume()
    close(s, want[1], "surface()", rtol=1e-12, shape=False)
    close(v, want[2], "volume()", rtol=1e-12, shape=False)
    with Sut("calc() after disabling the interaction"):
        R.int_Q = False
        got = np.array(R.calc())
    close(got[1:3], want[1:3], "contributions after disabling the interaction", rtol=1e-12)
    return True


SUBS = [
    Sub("missing", missing_cases().map(gen.light), check_missing, 240),
    Sub("angles", angle_cases(), check_angles, 240),
    Sub("specs", spec_cases(), check_specs, 240),
]
