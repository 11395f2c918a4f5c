"""C06: totals, single contributions and output units are mutually consistent."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Sub
from .sut import Sut, build, check, close

RULE = (
    "random models evaluated with all unit flags; non-trivial: all three contributions "
    "are non-zero and I0 != 1"
)


@st.composite
def cases(draw):
    v, s, params = draw(gen.pair(nmax=2))
    n = draw(st.integers(1, 3))
    g = draw(gen.geometry(hi=85.0))
    g["fix"] = [k for k in g["fix"] if k != "t0"]
    i0 = draw(
        st.one_of(
            gen.fl(0.1, 10.0), st.integers(1, 5),
            st.lists(gen.fl(0.1, 10.0), min_size=n, max_size=n),
        )
    )
    return {
        "V": v, "S": s, "params": params, "geo": g, "core": draw(gen.core_params()),
        "t0s": draw(st.lists(gen.zenith(hi=85.0), min_size=n, max_size=n)),
        "I0": i0, "backend": draw(gen.backends(12)),
        "attr": draw(st.booleans()),
    }


def check_units(case):
    t0 = np.array(case["t0s"])
    i0 = np.array(case["I0"]) if isinstance(case["I0"], list) else case["I0"]
    p = {**case["params"], **case["core"]}
    res, meth = {}, {}
    with Sut("model"):
        R = build(dict(case, I0=1.0))
        R.set_geometry(t_0=t0)
        one = np.array(R.calc(**p))  # intensities for I0 = 1
        fn = R._fnevals
        for intq in (True, False):
            for sig0 in (True, False):
                for dB in (True, False):
                    if case["attr"]:
                        r = R
                        r.sig0, r.dB, r.int_Q, r.I0 = sig0, dB, intq, i0
                    else:
                        r = build(
                            dict(case, I0=case["I0"], sig0=sig0, dB=dB, intQ=intq),
                            fnevals_input=fn,
                        )
                        r.set_geometry(t_0=t0)
                    res[intq, sig0, dB] = np.array(r.calc(**p))
                    meth[intq, sig0, dB] = [np.array(r.surface()), np.array(r.volume())] + (
                        [np.array(r.interaction())] if intq else []
                    )
    n = len(t0)
    for key, val in res.items():
        intq, sig0, dB = key
        check(
            val.shape == ((4 if intq else 3), n),
            f"shape {val.shape} of calc() for (int_Q, sig0, dB) = {key}",
        )
        nm = f"(int_Q, sig0, dB) = {key}"
        for i, m in enumerate(meth[key]):
            close(np.broadcast_to(m, val[i + 1].shape), val[i + 1], f"single contribution {i}, {nm}",
                  rtol=1e-12)
    f = 4 * np.pi * np.cos(t0)
    for intq in (True, False):
        base = res[intq, False, False]
        parts = base[1:]
        scale = np.abs(parts).sum(0)
        close(base[0], parts.sum(0), f"total (int_Q={intq})", rtol=1e-11, atol=1e-14 * scale)
        # proportionality to I0
        close(parts, one[1 : len(base)] * i0, f"proportionality to I0 (int_Q={intq})", rtol=1e-11)
        # sigma0
        sig = res[intq, True, False]
        close(sig[1:], f / i0 * parts, f"sigma0 (int_Q={intq})", rtol=1e-11)
        close(sig[1:], f * one[1 : len(base)], "sigma0 is independent of I0", rtol=1e-11)
        close(sig[0], sig[1:].sum(0), f"sigma0 total (int_Q={intq})", rtol=1e-11,
              atol=1e-14 * np.abs(sig[1:]).sum(0))
        for sig0 in (True, False):
            lin = res[intq, sig0, False]
            dB = res[intq, sig0, True]
            with np.errstate(all="ignore"):
                close(dB, 10 * np.log10(lin), f"dB values (sig0={sig0}, int_Q={intq})", rtol=1e-10, atol=1e-10)
    # contributions do not depend on int_Q
    for sig0 in (True, False):
        for dB in (True, False):
            close(res[False, sig0, dB][1:], res[True, sig0, dB][1:3],
                  f"contributions without interaction (sig0={sig0}, dB={dB})", rtol=1e-12)
    return bool((one[1:] != 0).all() and np.any(np.asarray(i0) != 1))


SUBS = [Sub("units", cases(), check_units, 200, 3000)]
