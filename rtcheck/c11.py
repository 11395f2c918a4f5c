"""C11: results depend only on the current settings, never on the call history."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import ANG, Sut, Violation, backend, build_dist, check

RULE = (
    "random operation sequences (geometry declarations and angle changes, parameter updates incl. "
    "new parameters, redefinitions, flags, evaluations, Jacobians, failed calls, backend changes) "
    "over 1-3 interleaved models that may share distribution objects; every evaluation is compared "
    "with a fresh model (that is set up after the whole history, or in between); non-trivial: >= 3 evaluations, >= 2 kinds of state changes in between"
)

CORE = ("tau", "omega", "NormBRDF", "bsf")
SHAPES = [None, None, None, [3], [2, 1]]

MODELS = [
    [{"k": "Ray"}, {"k": "Iso"}],
    [{"k": "HG", "t": "x", "n": 2}, {"k": "Iso"}],
    [{"k": "Iso"}, {"k": "HG", "t": "u", "n": 2}],
    [{"k": "HG", "t": "x", "n": 2}, {"k": "HGN", "t": "u", "n": 2}],
    [{"k": "HG", "t": "x", "n": 1}, {"k": "HG", "t": "x", "n": 2}],
    [
        {"k": "LC", "c": [["x", {"k": "Iso"}], ["1 - x", {"k": "HG", "t": "u", "n": 2}]]},
        {"k": "Cos", "i": 3, "n": 2},
    ],
    # (not symmetric with respect to the azimuths)
    [{"k": "HG", "t": "x", "n": 2, "a": [-0.9, 0.8, 0.3]}, {"k": "HG", "t": "u", "n": 2, "a": [1.0, 0.5, -0.7]}],
    [
        {"k": "HG", "t": 0.4, "n": 2},
        {"k": "LC", "c": [["u", {"k": "HG", "t": "x", "n": 2}], [0.5, {"k": "Iso", "a": [-1.0, 1.0, 1.0]}]]},
    ],
]
DEFS = {
    "tau": ["tau", "k", "0.5*k + 0.1", "tau*k", "x**2 + 0.2", 0.3, 1],
    "omega": ["omega", "k", "omega*k", "1 - k", 0.4, "0.2*x + 0.4"],
    "NormBRDF": ["NormBRDF", "k", "0.5*k", "m", 0.7, 1],
    "bsf": ["bsf", "k", "0.5*bsf", "m*k", 0.2, 0],
}
VALS = {
    "tau": gen.fl(0.0, 2.0, 0.0, 0.3, 1.0),
    "omega": gen.fl(0.05, 1.0),
    "NormBRDF": gen.fl(0.05, 1.5, 1.0),
    "bsf": gen.fl(0.0, 1.0, 0.0),
    "x": gen.fl(-0.8, 0.8, 0.0),
    "u": gen.fl(-0.8, 0.8, 0.0),
    "k": gen.fl(0.05, 0.9),
    "m": gen.fl(0.05, 0.9),
    "extra": gen.fl(-3, 3),
    "E_2": gen.fl(-3, 3),
}


@st.composite
def value(draw, el):
    sh = draw(st.sampled_from(SHAPES))
    if sh is None:
        return draw(el)
    n = int(np.prod(sh))
    return {"s": sh, "v": draw(st.lists(el, min_size=n, max_size=n))}


@st.composite
def some_params(draw, lo=1, hi=4):
    names = draw(st.lists(st.sampled_from(sorted(VALS)), min_size=lo, max_size=hi, unique=True))
    return {n: draw(value(VALS[n])) for n in names}


@st.composite
def angle_values(draw):
    return {
        "t0": draw(value(gen.zenith(hi=80.0))), "tex": draw(value(gen.zenith(hi=80.0))),
        "p0": draw(value(gen.azimuth())), "pex": draw(value(gen.azimuth())),
    }


@st.composite
def op(draw, nobj):
    o = draw(st.integers(0, nobj - 1))
    k = draw(
        st.sampled_from(
            ["declare", "angles", "angles", "params", "params", "define", "define", "flag",
             "eval", "eval", "eval", "eval", "jac", "jac", "fail", "fail", "backend", "dist"]
        )
    )
    d = {"op": k, "o": o}
    if k == "declare":
        d["geo"] = draw(gen.geometry(hi=80.0))
        d["ang"] = draw(angle_values())
    elif k == "angles":
        d["ang"] = draw(angle_values())
        d["which"] = sorted(draw(st.sets(st.sampled_from(["t0", "tex", "p0", "pex"]), min_size=1)))
    elif k == "params":
        d["p"] = draw(some_params())
    elif k == "define":
        d["key"] = draw(st.sampled_from(CORE))
        d["val"] = draw(st.sampled_from(DEFS[d["key"]]))
    elif k == "flag":
        d["f"] = draw(st.sampled_from(["sig0", "dB", "int_Q", "I0"]))
        d["val"] = draw(value(gen.fl(0.2, 5))) if d["f"] == "I0" else draw(st.booleans())
    elif k == "eval":
        d["m"] = draw(st.sampled_from(["calc", "calc", "calc", "surface", "volume", "interaction"]))
        d["p"] = draw(some_params(0, 3))
    elif k == "jac":
        d["keys"] = draw(
            st.lists(st.sampled_from(["tau", "omega", "NormBRDF", "bsf", "x", "u", "k"]),
                     min_size=1, max_size=4, unique=True)
        )
    elif k == "fail":
        d["kind"] = draw(
            st.sampled_from(
                ["unknown", "none", "partial", "nonnum_mono", "nonnum_bi", "jac_key", "format",
                 "undefined", "shape", "backend"]
            )
        )
        d["ang"] = draw(angle_values())
    elif k == "backend":
        d["b"] = draw(st.sampled_from(["symengine", "sympy"]))
    elif k == "dist":
        d["side"] = draw(st.sampled_from("VS"))
        d["p"] = draw(some_params(2, 4))
    return d


@st.composite
def cases(draw, nmax=14, nobj=None, intq=None):
    nobj = nobj or draw(st.integers(1, 3))
    objs = []
    for i in range(nobj):
        objs.append(
            {
                "model": draw(st.integers(0, len(MODELS) - 1)),
                "share": draw(st.booleans()),
                "sig0": draw(st.booleans()), "dB": draw(st.integers(0, 3)) == 0,
                "intQ": draw(st.integers(0, 2)) > 0 if intq is None else intq,
                "geo": draw(gen.geometry(hi=80.0)),
                "ang": draw(angle_values()),
                "p": {n: draw(VALS[n]) for n in ("tau", "omega", "NormBRDF", "x", "u", "k", "m")},
            }
        )
    ops = draw(st.lists(op(nobj), min_size=4, max_size=nmax))
    # setting up other models may reset shared caches: defer it most of the time
    return {"objs": objs, "ops": ops, "defer": draw(st.sampled_from([True, True, False]))}


def dec(v):
    if isinstance(v, dict):
        return np.array(v["v"], dtype=float).reshape(v["s"])
    return v


class Obj:
    """A model together with its expected settings."""

    def __init__(self, spec, dists):
        from rt1_model import RT1

        self.V, self.S = MODELS[spec["model"]]
        self.flags = {"sig0": spec["sig0"], "dB": spec["dB"], "int_Q": spec["intQ"], "I0": 1.0}
        self.defs = {}
        self.params = {}
        self.geo = None
        self.R = RT1(
            V=dists[0], SRF=dists[1], sig0=spec["sig0"], dB=spec["dB"], int_Q=spec["intQ"]
        )
        self.watch = []
        self.pending = None  # list of deferred comparisons

    def compare(self, got, func, what):
        """compare the outcome with the one of func(settings)"""
        s = copy.copy(self)
        s.flags, s.defs, s.params = dict(self.flags), dict(self.defs), dict(self.params)
        s.geo = {**self.geo, "ang": dict(self.geo["ang"])}
        s.R = None
        if self.pending is None:
            same(s, got, attempt(lambda: func(s)), what)
        else:
            self.pending.append((s, got, func, what))

    def keep(self, a):
        """remember arrays that are handed over"""
        if isinstance(a, np.ndarray):
            self.watch.append((a, a.copy()))
        return a

    def check_watched(self, what):
        for a, c in self.watch:
            check(
                a.shape == c.shape and np.array_equal(a, c), f"{what} modified an array of the caller"
            )

    def angle_keys(self):
        keys = ["t0", "p0"] if self.geo["mode"] == "mono" else ["t0", "tex", "p0", "pex"]
        return [k for k in keys if k not in self.geo["fix"]]

    def declare(self, geo, ang):
        fixed = {ANG[k]: geo[k] for k in geo["fix"]}
        (self.R.set_monostatic if geo["mode"] == "mono" else self.R.set_bistatic)(**fixed)
        self.geo = {"mode": geo["mode"], "fix": geo["fix"], "ang": {}}
        for k in geo["fix"]:
            self.geo["ang"][k] = geo[k]
        self.angles(ang)

    def angles(self, ang, which=("t0", "tex", "p0", "pex")):
        new = {k: dec(ang[k]) for k in self.angle_keys() if k in which}
        if new:
            self.R.set_geometry(**{ANG[k]: self.keep(v) for k, v in new.items()})
        for k, v in new.items():
            self.geo["ang"][k] = np.array(v)

    def update(self, p):
        """decoded parameters (stored as the expected settings)"""
        p = {k: dec(v) for k, v in p.items()}
        for k, v in p.items():
            self.params[k] = np.array(v)
        return {k: self.keep(v) for k, v in p.items()}

    def fresh(self):
        from rt1_model import RT1

        R = RT1(V=build_dist(self.V, "V"), SRF=build_dist(self.S, "S"), **self.flags)
        for k, v in self.defs.items():
            setattr(R, k, v)
        a = self.geo["ang"]
        fixed = {ANG[k]: a[k] for k in self.geo["fix"]}
        (R.set_monostatic if self.geo["mode"] == "mono" else R.set_bistatic)(**fixed)
        R.set_geometry(**{ANG[k]: a[k] for k in self.angle_keys()})
        R.update_params(**{k: self.params[k] for k in sorted(self.params)})
        return R


def attempt(func):
    try:
        with np.errstate(all="ignore"):
            return np.array(func(), dtype=float), None
    except Violation:
        raise
    except Exception as ex:
        return None, ex


def same(o, got, want, what):
    g, eg = got
    w, ew = want
    if ew is not None or eg is not None:
        if (ew is None) != (eg is None):
            raise Violation(f"{what}: {eg!r} for this history, but {ew!r} for a fresh model")
        check(
            type(eg) is type(ew), f"{what}: {eg!r} for this history, but {ew!r} for a fresh model"
        )
        return
    check(g.shape == w.shape, f"{what}: shape {g.shape} instead of {w.shape}")
    if o.flags["dB"] and "jac" not in what:
        g, w = (np.nan_to_num(10 ** (i / 10), nan=0.0) for i in (g, w))
    with np.errstate(all="ignore"):
        m = np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 0.0
        ok = (np.abs(g - w) <= 1e-9 * np.abs(w) + 1e-11 * m) | (g == w) | (np.isnan(g) & np.isnan(w))
    check(ok.all(), f"{what}: {g.tolist()} instead of {w.tolist()} of a fresh model"[:600])


def evaluate(o, method, what, mutate=True, **kw):
    pp = o.update(kw)
    got = attempt(lambda: getattr(o.R, method)(**pp))
    o.compare(got, lambda s: getattr(s.fresh(), method)(), f"{method}() {what}")


def run(case):
    backend("symengine")
    objs, shared = [], {}
    pending = [] if case.get("defer") else None
    with Sut("construction"):
        for spec in case["objs"]:
            mk = lambda: [build_dist(s, k) for s, k in zip(MODELS[spec["model"]], "VS")]  # noqa
            if spec["share"]:
                dists = shared.setdefault(spec["model"], None) or mk()
                shared[spec["model"]] = dists
            else:
                dists = mk()
            o = Obj(spec, dists)
            objs.append(o)
            o.pending = pending
            o.declare(spec["geo"], spec["ang"])
            o.R.update_params(**o.update(spec["p"]))
            o.params.setdefault("bsf", np.array(0.0))
    nev, changes = 0, set()
    for i, d in enumerate(case["ops"]):
        o = objs[d["o"]]
        k = d["op"]
        what = f"(operation {i}, model {d['o']})"
        if k in ("eval", "jac"):
            nev += 1
        elif nev:
            changes.add(k)
        if k == "eval":
            if d["m"] == "interaction" and not o.flags["int_Q"]:
                d = dict(d, m="volume")
            evaluate(o, d["m"], what, **d["p"])
        elif k == "jac":
            jac = lambda R, d=d: np.array(np.broadcast_arrays(*R.jacobian(list(d["keys"]))))  # noqa
            o.compare(
                attempt(lambda: jac(o.R)), lambda s, jac=jac: jac(s.fresh()),
                f"jacobian({d['keys']}) {what}",
            )
        elif k == "fail":
            fail(o, d, what)
        else:
            with Sut(f"{k} {what}"):
                if k == "declare":
                    o.declare(d["geo"], d["ang"])
                elif k == "angles":
                    o.angles(d["ang"], d["which"])
                elif k == "params":
                    o.R.update_params(**o.update(d["p"]))
                elif k == "define":
                    setattr(o.R, d["key"], d["val"])
                    o.defs[d["key"]] = d["val"]
                elif k == "flag":
                    v = dec(d["val"])
                    setattr(o.R, d["f"], o.keep(v))
                    o.flags[d["f"]] = np.array(v) if isinstance(v, np.ndarray) else v
                elif k == "backend":
                    backend(d["b"])
        if k == "dist":
            D = o.R.V if d["side"] == "V" else o.R.SRF
            p = {**{n: 0.3 for n in ("u", "x")}, **{n: dec(v) for n, v in d["p"].items()}}
            a = [dec(d_) for d_ in (0.3, 0.4, 0.5, 0.6)]
            with Sut(f"calc() of a distribution {what}"):
                got = np.array(D.calc(*a, param_dict=p))
                new = build_dist(o.V if d["side"] == "V" else o.S, d["side"]).calc(*a, param_dict=p)
            check(np.allclose(got, new, rtol=1e-10), f"calc() of a distribution {what}")
        for q in objs:
            q.check_watched(f"{k} {what}")
    for i, o in enumerate(objs):
        pd = o.R.param_dict
        for n, v in o.params.items():
            check(
                n in pd and np.array_equal(np.ravel(pd[n]), np.ravel(v)),
                f"parameter {n} of model {i} is {pd.get(n)} instead of {v}",
            )
        evaluate(o, "calc", f"(finally, model {i})")
        nev += 1
        o.check_watched("final evaluation")
    for s, got, func, what in pending or ():
        same(s, got, attempt(lambda: func(s)), what)
    return nev >= 3 and len(changes) >= 2


def fail(o, d, what):
    """calls that have to be rejected and must not change anything"""
    from rt1_model import set_lambda_backend

    R, kind, ang = o.R, d["kind"], {k: dec(v) for k, v in d["ang"].items()}
    free = {ANG[k]: ang[k] for k in o.angle_keys()}
    restore = None
    if kind == "unknown":
        f = lambda: R.set_geometry(**free, theta=0.3)  # noqa: E731
    elif kind == "none":
        if not free:
            return
        last = sorted(free)[-1]
        f = lambda: R.set_geometry(**{**free, last: None})  # noqa: E731
    elif kind == "partial":
        if o.geo["mode"] == "mono":
            bad = {"t_ex": 0.3}
        elif o.geo["fix"]:
            bad = {ANG[o.geo["fix"][0]]: 0.3}
        else:
            return
        f = lambda: R.set_geometry(**{**free, **bad})  # noqa: E731
    elif kind == "nonnum_mono":
        f = lambda: R.set_monostatic(p_0="0.3")  # noqa: E731
    elif kind == "nonnum_bi":
        f = lambda: R.set_bistatic(t_0=0.3, p_ex=[0.1, 0.2])  # noqa: E731
    elif kind == "jac_key":
        f = lambda: R.jacobian(["omega", "not_a_parameter"])  # noqa: E731
    elif kind == "format":
        f = lambda: R.jacobian(["omega"], format="dense")  # noqa: E731
    elif kind == "undefined":
        old = o.defs.get("tau", "tau")
        R.tau = "undefined_symbol*0.5"
        f = lambda: R.calc()  # noqa: E731

        def restore():
            R.tau = old
    elif kind == "shape":
        f = lambda: R.calc(x=np.linspace(0, 0.5, 35).reshape(5, 7), k=np.full(4, 0.3))  # noqa: E731

        def restore():
            R.update_params(x=o.params["x"], k=o.params["k"])
    else:
        f = lambda: set_lambda_backend("not_a_backend")  # noqa: E731
    try:
        f()
    except Exception:
        pass
    else:
        if kind not in ("jac_key", "format", "shape", "undefined"):
            check(False, f"invalid call '{kind}' is accepted {what}")
    if restore:
        with Sut(f"restore after failed call {what}"):
            restore()


@st.composite
def declarations(draw):
    """a single model that is evaluated for many different geometry declarations"""
    c = draw(cases(nobj=1, nmax=4, intq=True))
    o = c["objs"][0]
    o["model"] = draw(st.sampled_from([3, 6, 6, 6, 7]))
    o["p"].update(tau=draw(gen.fl(0.1, 1.0)), x=draw(gen.fl(0.2, 0.8)), u=draw(gen.fl(0.2, 0.8)), omega=0.4, NormBRDF=0.3)
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        # (evaluations before, in between and after the declaration)
        if draw(st.integers(0, 3)):
            ops.append({"op": "eval", "o": 0, "m": draw(st.sampled_from(["calc", "interaction"])), "p": {}})
        ops.append({"op": "declare", "o": 0, "geo": draw(gen.geometry(hi=80.0)), "ang": draw(angle_values())})
        if draw(st.integers(0, 3)) == 0:
            ops.append(draw(op(1)))
        if draw(st.booleans()):
            ops.append({"op": "eval", "o": 0, "m": "interaction", "p": {}})
            ops.append(
                {"op": "angles", "o": 0, "ang": draw(angle_values()),
                 "which": sorted(draw(st.sets(st.sampled_from(["t0", "tex", "p0", "pex"]), min_size=1)))}
            )
    c["ops"] = ops
    return c


SUBS = [
    Sub("histories", cases(), run, 120),
    Sub("single", cases(nobj=1, nmax=10), run, 80),
    Sub("declarations", declarations(), run, 64),
    Sub("no_interaction", cases(nmax=30, intq=False), run, 64),
]
