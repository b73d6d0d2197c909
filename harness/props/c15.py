"""C15: blending of polars and airfoils, and polars between Reynolds numbers."""
import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import arr, close, info, need, same, sut

ID = "C15"
N = dict(quick=2400, thorough=60000)
RULE = ("two random airfoils with 1-4 polars each (different angle ranges and Reynolds numbers, in any order; lists, tuples or "
        "arrays; a subclass of the polar class in part) and a weight in 0..1; polar blending, airfoil blending and look-up at a "
        "Reynolds number are compared with piecewise-linear interpolation written out independently; one evaluation per compared "
        "polar; non-trivial: the polars have different angles and 0 < weight < 1")


@st.composite
def strategy_(draw):
    w = draw(st.sampled_from([0.0, 1.0, 0.5, 0.25])) if draw(st.booleans()) else draw(gens.fgrid(0, 1, 0.01))
    full = draw(gens.flag(0.2))
    A, B = draw(pg.airfoil(full=full)), draw(pg.airfoil(full=draw(gens.flag(0.2))))
    if draw(gens.flag(0.25)):  # angles that nearly coincide, Reynolds numbers that do
        k = draw(st.integers(0, len(B) - 1))
        B[k] = draw(pg.nearby(draw(st.sampled_from(A)), B[k]["Re"]))
    if len(A) > 1 and draw(gens.flag(0.15)):
        A[1] = draw(pg.nearby(A[0], A[1]["Re"]))
    return dict(A=A, B=B, w=w,
                Re=[draw(gens.fgrid(5e4, 1.2e7, 5e4)) for _ in range(3)], form=draw(st.sampled_from(["list", "array", "tuple"])),
                sub=draw(gens.flag(0.3)))


def strategy():
    return strategy_()


def cmp(p, ref, what, cls):
    need(type(p) is cls, lambda: "%s is a %s instead of a %s" % (what, type(p).__name__, cls.__name__))
    close(float(p.Re), ref["Re"], 1e-12, what + ": Reynolds number")
    same(arr(p.alpha, (len(ref["alpha"]),), what + ": angles"), np.array(ref["alpha"]), what + ": angles")
    for k in ("cl", "cd", "cm"):
        close(getattr(p, k), ref[k], 1e-11, what + ": " + k, scale=1.0)


def check(case):
    from ccblade.airfoilprep import Polar

    class Sub(Polar):
        pass

    cls = Sub if case["sub"] else Polar
    A, B, w = case["A"], case["B"], case["w"]
    with sut("building the airfoils"):
        a, b = pg.build_af(A, cls, case["form"]), pg.build_af(B, cls, case["form"])
        pa, pb = pg.build(A[0], cls, case["form"]), pg.build(B[0], cls, case["form"])
    n = 0
    with sut("Polar.blend"):
        c = pa.blend(pb, w)
        c0, c1 = pa.blend(pb, 0.0), pa.blend(pb, 1.0)
        rev = pb.blend(pa, 1 - w)
    cmp(c, pg.blend(A[0], B[0], w), "blended polar", cls)
    cmp(c0, pg.blend(A[0], B[0], 0.0), "blended polar, weight 0", cls)
    cmp(c1, pg.blend(A[0], B[0], 1.0), "blended polar, weight 1", cls)
    cmp(rev, pg.blend(A[0], B[0], w), "polar blended the other way round", cls)
    n += 4
    for Re in case["Re"] + [A[0]["Re"], A[-1]["Re"]]:
        with sut("Airfoil.getPolar"):
            g = a.getPolar(Re)
        ref = pg.at_re(A, Re)
        cmp(g, ref, "polar at Re=%g" % Re, cls)
        # the answer is the caller's own
        for k in ("cl", "cd", "cm", "alpha"):
            getattr(g, k)[...] = 77.0
        g.Re = -1.0
        with sut("Airfoil.getPolar"):
            cmp(a.getPolar(Re), ref, "polar at Re=%g asked again" % Re, cls)
        n += 2
    with sut("Airfoil.blend"):
        ab = a.blend(b, w)
        ps = list(ab.polars)
    res = sorted(set(p["Re"] for p in A) | set(p["Re"] for p in B))
    need(len(ps) == len(res), lambda: "blended airfoil has %d polars instead of %d" % (len(ps), len(res)))
    for p, Re in zip(ps, res):
        ref = dict(pg.blend(pg.at_re(A, Re), pg.at_re(B, Re), w), Re=Re)
        cmp(p, ref, "blended airfoil at Re=%g" % Re, cls)
        n += 1
    # operands untouched
    for af, spec, nm in ((a, A, "first"), (b, B, "second")):
        for p, q in zip(af.polars, pg.ordered(spec)):
            for k in ("alpha", "cl", "cd", "cm"):
                same(np.asarray(getattr(p, k), float), np.array(q[k]), "%s airfoil after blending: %s" % (nm, k))
            need(p.Re == q["Re"], "Reynolds number of the %s airfoil changed" % nm)
    return info(A[0]["alpha"] != B[0]["alpha"] and 0 < w < 1, ["several Re" if len(res) > 2 else ""], n)
