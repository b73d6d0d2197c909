"""C20: the geometry component."""
import numpy as np
from hypothesis import strategies as st

import gens
import omutil
from core import close, close_each, info, sut

ID = "C20"
N = dict(quick=2400, thorough=40000)
RULE = ("a random tip radius, precone and tip offsets given in random units, changed up to three times on the same component; "
        "radius, diameter, tip offsets and every total derivative are compared with the defining formulas, derivatives also "
        "through a unit conversion; one evaluation per step; non-trivial: the precone is not zero")


@st.composite
def strategy_(draw):
    n = draw(st.integers(2, 9))
    v = gens.fgrid(-12, 12, 0.25)
    step = st.fixed_dictionaries(dict(
        Rtip=gens.fgrid(1, 120, 0.5), precone=gens.mix(gens.fgrid(-15, 15, 0.5), gens.fgrid(-15, 15, 0.5), st.just(0.0), gens.fgrid(-180, 180, 5)),
        precurve_in=st.lists(v, min_size=n, max_size=n), presweep_in=st.lists(v, min_size=n, max_size=n),
        alt=st.lists(st.booleans(), min_size=4, max_size=4)))
    return dict(n=n, steps=[draw(step) for _ in range(draw(st.integers(1, 3)))])


def strategy():
    return strategy_()


def check(case):
    from ccblade.ccblade_component import CCBladeGeometry

    n = case["n"]
    ins = ("Rtip", "precone", "precurve_in", "presweep_in")
    with sut("setting up the component"):
        p = omutil.problem(CCBladeGeometry(n_span=n))
    for s in case["steps"]:
        for k, alt in zip(ins, s["alt"]):
            with sut("setting " + k):
                omutil.setv(p, k, s[k], alt)
        with sut("run_model"):
            p.run_model()
        c, t = np.deg2rad(s["precone"]), s["precurve_in"][-1]
        R = s["Rtip"] * np.cos(c) + t * np.sin(c)
        for k, ref in (("R", R), ("diameter", 2 * R), ("precurveTip", t), ("presweepTip", s["presweep_in"][-1])):
            close(omutil.np.array(p.get_val(k, units="m")), [ref], 1e-12, k, atol=1e-11)
        J = omutil.totals(p, ("R", "diameter", "precurveTip", "presweepTip"), ins)
        e = np.zeros(n)
        e[-1] = 1
        dR = dict(Rtip=[np.cos(c)], precone=[(-s["Rtip"] * np.sin(c) + t * np.cos(c)) * np.pi / 180], precurve_in=e * np.sin(c),
                  presweep_in=0 * e)
        z = dict(Rtip=[0.0], precone=[0.0], precurve_in=0 * e, presweep_in=0 * e)
        ref = dict(R=dR, diameter={k: 2 * np.array(v) for k, v in dR.items()}, precurveTip=dict(z, precurve_in=e),
                   presweepTip=dict(z, presweep_in=e))
        for (o, i), g in J.items():
            close(np.ravel(g), ref[o][i], 1e-12, "d%s/d%s" % (o, i), atol=1e-12)
    return info(any(s["precone"] for s in case["steps"]), ["steps=%d" % len(case["steps"])], len(case["steps"]))
