"""C27: interpolation of all polars to common angles, and the data grid for the rotor analysis."""
import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import arr, close, info, need, same, sut

ID = "C27"
N = dict(quick=6000, thorough=150000)
RULE = ("random airfoils of 1-5 polars with different angles, in any order of Reynolds numbers, an own polar class in part; common angles "
        "by default, or given (any spacing, partly beyond the data); every number is compared with piecewise-linear interpolation "
        "written out independently; one evaluation per polar; non-trivial: at least two polars with different angles")


@st.composite
def strategy_(draw):
    case = dict(P=draw(pg.airfoil(nmax=5, full=draw(gens.flag(0.2)))), sub=draw(gens.flag(0.3)), form=draw(st.sampled_from(["list", "array", "tuple"])))
    if len(case["P"]) > 1 and draw(gens.flag(0.25)):
        k = draw(st.integers(1, len(case["P"]) - 1))
        case["P"][k] = draw(pg.nearby(case["P"][0], case["P"][k]["Re"]))
    case["alpha"] = sorted(draw(st.sets(gens.fgrid(-60, 60, 0.25), min_size=1, max_size=20)))
    case["aslist"] = draw(st.booleans())
    return case


def strategy():
    return strategy_()


def check(case):
    from ccblade.airfoilprep import Polar

    class Sub(Polar):
        pass

    cls = Sub if case["sub"] else Polar
    P = pg.ordered(case["P"])
    with sut("building the airfoil"):
        af = pg.build_af(case["P"], cls, case["form"])
    al = sorted(set(x for p in P for x in p["alpha"]))
    n = 0
    for given in (None, case["alpha"]):
        ref = al if given is None else given
        arg = None if given is None else (list(given) if case["aslist"] else np.array(given))
        with sut("interpToCommonAlpha"):
            c = af.interpToCommonAlpha() if given is None else af.interpToCommonAlpha(arg)
            ps = list(c.polars)
        if given is not None:
            same(np.array(arg), np.array(given), "the angles passed in")
        need(len(ps) == len(P), lambda: "%d polars instead of %d" % (len(ps), len(P)))
        for p, q in zip(ps, P):
            need(type(p) is cls, lambda: "polar of type %s" % type(p).__name__)
            close(float(p.Re), q["Re"], 1e-12, "Reynolds number")
            same(arr(p.alpha, (len(ref),), "common angles"), np.array(ref, float), "common angles")
            for k in ("cl", "cd", "cm"):
                close(getattr(p, k), pg.lerp(ref, q["alpha"], q[k]), 1e-11, "%s at common angles, Re=%g" % (k, q["Re"]), scale=1.0)
            n += 1
    with sut("createDataGrid"):
        ga, gR, gcl, gcd, gcm = af.createDataGrid()
    same(arr(ga, (len(al),), "grid angles"), np.array(al), "grid angles")
    close(gR, [q["Re"] for q in P], 1e-12, "grid Reynolds numbers")
    for g, k in ((gcl, "cl"), (gcd, "cd"), (gcm, "cm")):
        close(g, np.array([pg.lerp(al, q["alpha"], q[k]) for q in P]).T, 1e-11, "grid of " + k, scale=1.0)
    for p, q in zip(af.polars, P):
        for k in ("alpha", "cl", "cd", "cm"):
            same(np.asarray(getattr(p, k), float), np.array(q[k]), "the airfoil itself afterwards: " + k)
    return info(len(P) > 1 and any(p["alpha"] != P[0]["alpha"] for p in P), ["%d polars" % len(P)], n + len(P))
