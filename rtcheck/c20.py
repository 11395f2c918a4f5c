"""C20: the analysis widgets display the model evaluated at the slider values."""
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from . import gen
from .c15 import DEFS
from .core import Sub
from .sut import Sut, Violation, build_dist, check, close, set_geo

RULE = (
    "random models, slider specifications (2-4 entries), sequences of slider moves and range selections; "
    "after each of them the displayed curves, shaded ranges and surfaces are compared with freshly "
    "evaluated models; non-trivial: at least two slider moves and (monostatic widget) a selected range"
)

LIMS = {"tau": (0.02, 1.5), "omega": (0.05, 0.9), "NormBRDF": (0.05, 1.5), "bsf": (0.0, 0.9)}
LABELS = ("Total", "Surface", "Volume", "Interaction")


@st.composite
def model_cases(draw, exact=None):
    exact = draw(st.booleans()) if exact is None else exact
    if exact:
        v = draw(st.sampled_from([{"k": "Iso"}, {"k": "Ray"}, {"k": "LC", "c": [["x", {"k": "Iso"}], [0.5, {"k": "Ray"}]]}]))
        s = {"k": "Iso"}
        params = ["x"] if v["k"] == "LC" else []
    else:
        v, s, p = draw(gen.pair(nmax=2, hi=0.7))
        v, s = gen.nonzero(v), gen.nonzero(s)
        params = sorted(p)
    c = {"V": v, "S": s, "defs": {}}
    need = {n: (-0.7, 0.7) if not exact else (0.0, 1.0) for n in params}
    for k in LIMS:
        if draw(st.integers(0, 3)) == 0:
            c["defs"][k] = draw(st.sampled_from(DEFS[k])).format("k_a", draw(st.sampled_from(["k_a", "k_b"])))
            for n in ("k_a", "k_b"):
                if n in c["defs"][k]:
                    need[n] = (0.05, 0.9)
        else:
            need[k] = LIMS[k]
    sl = draw(st.sets(st.sampled_from(sorted(need)), min_size=1, max_size=6))
    c["sliders"], c["values"] = {}, {}
    for n in draw(st.permutations(sorted(need))):
        lo, hi = need[n]
        if n in sl:
            a = draw(gen.fl(0.0, 0.5))
            b = draw(gen.fl(a + 0.1, 1.0))
            spec = [lo + (hi - lo) * a, lo + (hi - lo) * b]
            m = draw(st.integers(2, 4))
            if m > 2:
                spec.append(spec[0] + (spec[1] - spec[0]) * draw(gen.fl(0, 1, 0.0, 1.0)))
            if m > 3:
                spec.append(f"name of {n}")
            c["sliders"][n] = spec
        else:
            c["values"][n] = lo + (hi - lo) * draw(gen.fl(0, 1))
    # initial values that are replaced by the sliders
    c["init"] = {n: draw(gen.fl(0.1, 0.6)) for n in c["sliders"] if draw(st.booleans())}
    c["extra"] = draw(st.booleans())
    c["geo"] = draw(gen.geometry(hi=80.0))
    c["sig0"], c["I0"] = draw(st.booleans()), draw(gen.inc_int)
    c["intQ"] = draw(st.booleans())
    c["dB"] = draw(st.booleans()) and (exact or not c["intQ"])
    if not exact and c["dB"] and any(k in str(c["V"]) + str(c["S"]) for k in ("LC",)):
        c["dB"] = False
    c["via"] = draw(st.sampled_from(["method", "class"]))
    if draw(st.integers(0, 7)) == 0:
        opts = sorted(set(c["values"]) - {"bsf"})
        c["drop"] = draw(st.lists(st.sampled_from(opts), min_size=1, max_size=2, unique=True)) if opts else []
    else:
        c["drop"] = []
    return c


@st.composite
def cases(draw):
    c = draw(model_cases())
    names = list(c["sliders"])
    c["range"] = draw(st.sampled_from([None, None, *names]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 2)) == 0:
            ops.append(["range", draw(st.sampled_from([None, *names]))])
        else:
            ops.append(["move", draw(st.sampled_from(names)), draw(gen.fl(0, 1, 0.0, 1.0))])
    c["ops"] = ops
    return c


@st.composite
def cases3d(draw):
    c = draw(model_cases())
    c["contribs"] = draw(st.sampled_from(["ts", "t", "tsv", "tsvi", "i", "vs", "v", "s", "ti", "st", "ivt"]))
    c["samples"] = draw(st.sampled_from([*range(4, 10), None]))
    if draw(st.integers(0, 5)) == 0:
        c["contribs"] = None
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 2)) == 0:
            # (matplotlib can not shade surfaces that are smaller than ~1e-80, so avoid grazing angles)
            ops.append(["move", "inc", draw(gen.fl(0, 0.93))])
        else:
            ops.append(["move", draw(st.sampled_from(list(c["sliders"]))), draw(gen.fl(0, 1, 0.0, 1.0))])
    c["ops"] = ops
    return c


def model(case, **kw):
    from rt1_model import RT1

    opts = dict(sig0=case["sig0"], dB=case["dB"], I0=case["I0"], int_Q=case["intQ"])
    R = RT1(V=build_dist(case["V"], "V"), SRF=build_dist(case["S"], "S"), **{**opts, **kw})
    for k, d in case["defs"].items():
        setattr(R, k, d)
    return R


def analyzer(case, three=False, **kw):
    """widget of a new model"""
    from rt1_model import plot

    with Sut("model"):
        R = model(case)
        set_geo(R, case["geo"])
        R.update_params(**{k: v for k, v in case["values"].items() if k not in case["drop"]})
        R.update_params(**case["init"])
        if case["extra"]:
            R.update_params(obsolete=0.4)
    sl = {k: tuple(v) for k, v in case["sliders"].items()}
    if case["extra"]:
        sl["unused"] = (0, 1)
    kw.update(sl)
    if case["via"] == "method":
        call = lambda: (R.analyze3d if three else R.analyze)(**kw)  # noqa: E731
    else:
        call = lambda: (plot.Analyze3D if three else plot.Analyze)(R, **kw)  # noqa: E731
    if case["drop"]:
        try:
            call()
        except Exception as ex:
            names = {*case["values"], *case["sliders"]}
            named = {n for n in names if re.search(rf"(?<!\w){n}(?!\w)", str(ex))}
            check(named == set(case["drop"]), f"missing {case['drop']}: the error is {ex!r}")
            return R, None
        raise Violation(f"the analyzer accepts missing parameters {case['drop']}")
    with Sut("widget"):
        return R, call()


def check_sliders(case, w):
    names = set(case["sliders"])
    have = set(w.sliders) - {"inc"}
    check(have == names, f"sliders for {sorted(have)} instead of {sorted(names)}")
    for n, spec in case["sliders"].items():
        s = w.sliders[n]
        close([s.valmin, s.valmax], spec[:2], f"limits of the slider {n}", rtol=1e-12)
        start = spec[2] if len(spec) > 2 else (spec[0] + spec[1]) / 2
        close(s.val, start, f"start value of the slider {n}", rtol=1e-12, atol=1e-12)
        label = spec[3] if len(spec) > 3 else n
        check(s.label.get_text() == label, f"the slider {n} is named {s.label.get_text()!r}")


def radio(w):
    from matplotlib.widgets import RadioButtons

    r = [v for v in vars(w).values() if isinstance(v, RadioButtons)]
    check(len(r) == 1, f"{len(r)} range selections")
    return r[0]


def run2d(case):
    import matplotlib.pyplot as plt
    from matplotlib.collections import PolyCollection

    try:
        kw = {"range_parameter": case["range"]} if case["range"] else {}
        R, w = analyzer(case, **kw)
        if w is None:
            return False
        check_sliders(case, w)
        cur = {n: w.sliders[n].val for n in case["sliders"]}
        rng = case["range"]
        F = model(case)
        F.set_monostatic()
        F.set_geometry(p_0=0.0)
        F.update_params(**case["values"])
        moves, ranges = 0, 0

        def verify(what):
            lines = w.ax.get_lines()
            by = {ln.get_label(): ln for ln in lines}
            x = np.asarray(by["Total"].get_xdata() if "Total" in by else lines[0].get_xdata(), dtype=float)
            check(x.min() >= 0 and x.max() < 90 and x.size > 20, f"incidence angles {x}")
            F.set_geometry(t_0=np.deg2rad(x))
            want = F.calc(**cur)
            with np.errstate(all="ignore"):
                lin = 10 ** (np.array(want[:3]) / 10) if case["dB"] else want[:3]
                sv = lin[1] + lin[2]
                sv = 10 * np.log10(sv) if case["dB"] else sv
            sc = 1e-6 if case["dB"] else 1e-10 * np.max(np.abs(want))
            for lab, row in zip(LABELS, want):
                check(lab in by, f"no curve for {lab} {what}")
                close(by[lab].get_ydata(), row, f"curve of {lab} {what}", rtol=1e-8, atol=sc)
            check(("Interaction" in by) == case["intQ"], f"curve for the interaction {what}")
            rest = [ln for ln in lines if ln.get_label() not in LABELS]
            check(len(rest) == (1 if case["intQ"] else 0), f"{len(lines)} curves {what}")
            if case["intQ"]:
                close(rest[0].get_ydata(), sv, f"curve without interaction {what}", rtol=1e-8, atol=sc)
            fills = [c for c in w.ax.collections if isinstance(c, PolyCollection)]
            others = [c for c in w.ax.collections if not isinstance(c, PolyCollection)]
            if rng is None:
                check(not fills and not others, f"a range is shown although none is selected {what}")
                return
            check(len(fills) == len(want), f"{len(fills)} shaded ranges {what}")
            lo, hi = case["sliders"][rng][:2]

            def ext(n):
                v = np.linspace(lo, hi, n)[:, None]
                F.set_geometry(t_0=np.deg2rad(x)[None])
                r = F.calc(**{**{k: np.full((n, 1), c) for k, c in cur.items()}, rng: v})
                F.set_geometry(t_0=np.deg2rad(x))
                return r.min(1), r.max(1)

            coarse, fine = ext(20), ext(150)
            F.update_params(**case["values"])
            for i, lab in enumerate(LABELS[: len(want)]):
                f = fills[i]
                verts = np.concatenate([np.zeros((0, 2)), *(p.vertices for p in f.get_paths())])
                for j in range(0, len(x), 7):
                    if not np.isfinite([coarse[0][i, j], coarse[1][i, j], fine[0][i, j], fine[1][i, j]]).all():
                        continue  # (e.g. vanishing contributions in dB)
                    y = verts[np.abs(verts[:, 0] - x[j]) < 1e-9, 1]
                    check(y.size >= 2, f"the shaded range of {lab} does not cover {x[j]} {what}")
                    for k, (fun, nm) in enumerate(((np.min, "minimum"), (np.max, "maximum"))):
                        tol = 2 * abs(coarse[k][i, j] - fine[k][i, j]) + sc + 1e-9
                        close(fun(y), fine[k][i, j], f"{nm} of {lab} at {x[j]} for {rng} {what}", rtol=1e-8, atol=tol)

        verify("after creation")
        for i, op in enumerate(case["ops"]):
            what = f"after operation {i} {op}"
            with Sut(what):
                if op[0] == "move":
                    lo, hi = case["sliders"][op[1]][:2]
                    v = lo + (hi - lo) * op[2]
                    w.sliders[op[1]].set_val(v)
                    cur[op[1]] = w.sliders[op[1]].val
                    close(cur[op[1]], v, f"value of the slider {op[1]}", rtol=1e-12, atol=1e-12)
                    moves += 1
                else:
                    b = radio(w)
                    labs = [t.get_text() for t in b.labels]
                    rng = op[1]
                    b.set_active(labs.index(rng or "None"))
                    ranges += rng is not None
            verify(what)
        return moves >= 2 and ranges > 0 or (moves >= 1 and case["range"] is not None)
    finally:
        plt.close("all")


def run3d(case):
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D

    rec = {}
    orig = Axes3D.plot_surface

    def record(self, X, Y, Z, *args, **kwargs):
        ret = orig(self, X, Y, Z, *args, **kwargs)
        rec[id(ret)] = (ret, np.array(X), np.array(Y), np.array(Z))
        return ret

    Axes3D.plot_surface = record
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            kw = {k: case[n] for k, n in (("samples", "samples"), ("contributions", "contribs")) if case[n]}
            R, w = analyzer(case, True, **kw)
            contribs = case["contribs"] or "ts"
            if w is None:
                return False
            check_sliders(case, w)
            cur = {n: w.sliders[n].val for n in case["sliders"]}
            F = model(case, dB=False, int_Q="i" in contribs)
            F.set_bistatic()
            F.update_params(**case["values"])
            labels = [LABELS["tsvi".index(k)] for k in contribs]
            moves = 0

            def verify(what):
                inc = w.sliders["inc"].val
                shown = {}
                for c in w.ax.collections:
                    if c.get_label() in LABELS:
                        check(c.get_label() not in shown, f"{c.get_label()} is shown twice {what}")
                        shown[c.get_label()] = c
                check(sorted(shown) == sorted(labels), f"{sorted(shown)} is shown instead of {labels} {what}")
                for lab, c in shown.items():
                    check(id(c) in rec, "unknown surface")
                    _, x, y, z = rec[id(c)]
                    sgn = np.where(z < 0, -1.0, 1.0)
                    r = np.sqrt(x**2 + y**2 + z**2)
                    m = r > 0
                    full = m.all()
                    x, y, z, sgn, r = (i[m] for i in (x, y, z, sgn, r))
                    te = np.arctan2(np.hypot(x, y), np.abs(z))
                    pe = np.arctan2(sgn * y, sgn * x)
                    F.set_geometry(t_0=np.deg2rad(inc), p_0=0.0, t_ex=te, p_ex=pe)
                    if r.size == 0:
                        te = np.array([0.3])
                        F.set_geometry(t_0=np.deg2rad(inc), p_0=0.0, t_ex=te, p_ex=te)
                        r, sgn = np.zeros(1), np.ones(1)
                        nz = False
                    else:
                        nz = True
                        check(not full or (te.min() < 0.01 and te.max() > 1.3), f"exit angles of {lab} {what}")
                    want = F.calc(**cur)[LABELS.index(lab)]
                    close(sgn * r, want, f"surface of {lab} for inc={inc} {what}", rtol=1e-6,
                          atol=1e-8 * max(np.max(np.abs(want)), 1e-12) if nz else 1e-12, shape=False)

            verify("after creation")
            for i, op in enumerate(case["ops"]):
                what = f"after operation {i} {op}"
                with Sut(what):
                    s = w.sliders[op[1]]
                    s.set_val(s.valmin + (s.valmax - s.valmin) * op[2])
                    if op[1] != "inc":
                        cur[op[1]] = s.val
                    moves += 1
                verify(what)
            check(R.int_Q is case["intQ"], f"int_Q of the model is {R.int_Q} instead of {case['intQ']}")
            return moves >= 2
    finally:
        Axes3D.plot_surface = orig
        plt.close("all")


SUBS = [
    Sub("monostatic", cases(), run2d, 120),
    Sub("bistatic3d", cases3d(), run3d, 96),
]
