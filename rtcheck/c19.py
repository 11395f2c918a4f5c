"""C19: polarplot shows the values of the distribution and its approximation."""
import re

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, Violation, backend, build_dist, check

RULE = (
    "distributions and tuples of distributions, incidence angles, lists of parameter sets, requested and "
    "available approximations, supplied axes; the data of the matplotlib lines is compared with closed "
    "forms and truncated series; non-trivial: at least one non-isotropic distribution and a dashed curve, "
    "or several distributions / parameter sets"
)


@st.composite
def cases(draw):
    m = draw(st.sampled_from([1, 1, 1, 2, 3]))
    ds, params = [], {}
    for i in range(m):
        side = draw(st.sampled_from("VS"))
        s, p = draw(gen.dist_spec(side, names=("x_p", "y_p") if draw(st.booleans()) else ("u_p", "v_p"), nmax=3, hi=0.8))
        ds.append([side, gen.nonzero(s)])
        params.update(p)
    nset = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    sets = [{k: draw(gen.fl(-0.8, 0.8, 0.3)) for k in params} for _ in range(nset)]
    if draw(st.booleans()):
        for p in sets:
            p["unused_p"] = 0.4
    many = draw(st.integers(0, 9)) == 0 and m * nset == 1
    inc = draw(
        st.lists(
            gen.fl(0, 89, 15.0, 45.0, 0.0), min_size=8 if many else 1, max_size=10 if many else 3, unique=True
        )
    )
    noncoefs = draw(st.integers(0, 3)) == 0
    kind = draw(st.sampled_from(["plot", "plot", "plot", "plot", "missing", "axes"]))
    miss = None
    if kind == "missing" and params:
        miss = sorted(draw(st.sets(st.sampled_from(sorted(params)), min_size=1)))
    return {
        "ds": ds, "sets": sets, "inc": inc, "aprox": draw(st.sampled_from([True, True, True, False])),
        "noncoefs": noncoefs, "kind": kind, "miss": miss, "which": draw(st.integers(0, nset - 1)),
        "form": draw(st.sampled_from(["tuple", "tuple", "list"])), "method": draw(st.booleans()),
        "aslist": draw(st.booleans()), "ax": draw(st.integers(0, 2)),
        "legend": draw(st.booleans()), "ground": draw(st.sampled_from(["none", ".5", None])),
        "label": draw(st.sampled_from([None, "a label"])), "backend": draw(gen.backends(3)),
        "default_inc": draw(st.integers(0, 3)) == 0,
    }


def strip(spec):
    """without expansion orders"""
    spec = {k: v for k, v in spec.items() if k != "n"}
    if spec["k"] == "LC":
        spec["c"] = [[w, strip(s)] for w, s in spec["c"]]
    return spec


def needs_n(spec):
    return any(needs_n(s) for _, s in spec["c"]) if spec["k"] == "LC" else spec["k"] not in ("Iso", "Ray")


def check_case(case):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_hex
    from rt1_model import plot

    backend(case["backend"])
    ds = case["ds"]
    if case["noncoefs"]:
        ds = [[side, strip(s)] for side, s in ds]
    avail = not case["noncoefs"] or not any(needs_n(s) for _, s in ds)
    mixed = not avail and not all(needs_n(s) for _, s in ds)
    with Sut("distributions"):
        objs = [build_dist(s, side) for side, s in ds]
    inc = [float(i) for i in case["inc"]]
    kw = {"aprox": case["aprox"], "legend": case["legend"], "groundcolor": case["ground"]}
    if case["label"]:
        kw["label"] = case["label"]
    if case["default_inc"]:
        inc = [15.0, 35.0, 55.0, 75.0]
    else:
        kw["inc"] = list(inc)
    sets = [dict(p) for p in case["sets"]]
    if len(sets) > 1 or case["aslist"]:
        kw["param_dict"] = sets
    elif sets[0]:
        kw["param_dict"] = sets[0]

    def call(**more):
        if len(objs) == 1 and case["method"]:
            return objs[0].polarplot(**kw, **more)
        if len(objs) == 1:
            return plot.polarplot(objs[0], **kw, **more)
        return plot.polarplot(tuple(objs) if case["form"] == "tuple" else list(objs), **kw, **more)

    try:
        if case["kind"] == "missing" and case["miss"]:
            for k in case["miss"]:
                del sets[case["which"]][k]
            try:
                call()
            except Exception as ex:
                names = {*case["sets"][0], "x_p", "y_p", "u_p", "v_p"}
                named = {n for n in names if re.search(rf"(?<!\w){n}(?!\w)", str(ex))}
                check(named == set(case["miss"]), f"missing {case['miss']}: the error is {ex!r}")
            else:
                raise Violation(f"missing parameters {case['miss']} are accepted")
            return True
        if case["kind"] == "axes":
            fig = plt.figure()
            ax = fig.add_subplot(111, projection=[None, "3d", "mollweide"][case["ax"]])
            n = len(ax.get_lines())
            try:
                call(ax=ax)
            except Exception:
                check(len(ax.get_lines()) == n, "curves have been drawn on rejected axes")
            else:
                raise Violation(f"axes {ax.name!r} are accepted")
            return True
        with Sut("polarplot()"):
            if case["ax"] == 0:
                fig = plt.figure()
                fig.add_subplot(121)
                ax = fig.add_subplot(122, projection="polar")
                call(ax=ax)
                check(len(plt.get_fignums()) == 1, "a new figure has been created although axes are provided")
            else:
                call()
                ax = [a for a in plt.gcf().axes if a.name == "polar"][0]
        lines = [
            (
                ln.get_linestyle(), np.asarray(ln.get_xdata(), dtype=float),
                np.asarray(ln.get_ydata(), dtype=float), to_hex(ln.get_color()),
            )
            for ln in ax.get_lines()
        ]
        leg = ax.get_legend()
        entries = leg and [
            (x.get_text(), h.get_linestyle(), to_hex(h.get_color()))
            for x, h in zip(leg.get_texts(), leg.get_lines())
        ]
        title = ax.get_title().strip()
        ticks = [(t, x.get_text()) for t, x in zip(ax.get_xticks(), ax.get_xticklabels())]
    finally:
        plt.close("all")
    for t, text in ticks:
        m = re.search(r"-?\d+(\.\d+)?", text)
        if m:
            d = (np.rad2deg(t) - float(m.group()) + 180) % 360 - 180
            check(abs(d) < 1e-6, f"the direction {np.rad2deg(t)} deg is labelled as {text!r}")
    solid = [ln for ln in lines if ln[0] == "-"]
    dashed = [ln for ln in lines if ln[0] == "--"]
    curves = list(solid)
    approx = case["aprox"] and avail
    n = len(ds) * len(sets) * len(inc)
    check(len(solid) == n, f"{len(solid)} solid curves instead of {n}")
    if not mixed:
        check(len(dashed) == (n if approx else 0), f"{len(dashed)} dashed curves instead of {n if approx else 0}")
    check((leg is not None) == case["legend"], f"legend={case['legend']}: the legend is {leg}")
    if case["label"]:
        check(title == case["label"], f"the title is {title!r} instead of {case['label']!r}")
    if case["legend"]:
        labelled = [(float(m.group(1)), c) for m, c in ((re.search(r"=\s*(-?\d+(\.\d+)?)", e[0]), e[2]) for e in entries) if m]
        check(len(labelled) == len(inc), f"{len(labelled)} legend entries for {len(inc)} incidence angles")
        if not mixed:
            d = sum(e[1] == "--" for e in entries)
            check(d == approx, f"{d} legend entries for the approximation (shown: {approx})")
    for side, spec in ds:
        for p in sets:
            trunc = ref.Truncated(spec, side, p) if approx else None
            for t in np.deg2rad(inc):
                what = f"{spec} at {np.rad2deg(t)} deg for {p}"
                color = match(solid, side, lambda x: ref.dist(spec, side, t, x, 0.0, 0.0, p), f"curve of {what}", curves)
                if case["legend"]:
                    check(
                        any(abs(a - np.rad2deg(t)) < 0.051 and c in color for a, c in labelled),
                        f"curve of {what} is shown as {color}, the legend is {labelled}",
                    )
                if approx:
                    match(dashed, side, lambda x: trunc(t, x, 0.0, 0.0), f"approximation of {what}", [])
    return (approx and any(s["k"] != "Iso" for _, s in ds)) or n > len(inc)


def match(lines, side, func, what, shown):
    """remove the line that shows a function; returns the colors of all suitable lines"""
    lo, hi = (0, 2 * np.pi) if side == "V" else (-np.pi / 2, np.pi / 2)

    def deviation(ln):
        _, x, y, _ = ln
        if x.shape != y.shape or abs(x.min() - lo) > 0.03 or abs(x.max() - hi) > 0.03:
            return np.inf
        w = np.broadcast_to(func(x), x.shape)
        return np.max(np.abs(y - w) / (1e-12 + np.max(np.abs(w))))

    d = [deviation(ln) for ln in lines]
    if not d or not min(d) < 1e-8:
        raise Violation(f"{what} is not shown (smallest relative difference {min(d, default=np.inf):.3g})")
    del lines[int(np.argmin(d))]
    return {ln[3] for ln in shown if deviation(ln) < 1e-8}


SUBS = [Sub("curves", cases(), check_case, 480)]
