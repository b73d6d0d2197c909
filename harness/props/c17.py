"""C17: rotational stall-delay correction (Du-Selig lift, AirfoilPrep drag)."""
import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import arr, close, info, need, same, skip, sut

ID = "C17"
N = dict(quick=6000, thorough=150000)
RULE = ("random polars (full-range ones included) at random r/R, c/r, tip-speed ratio and correction limits; the corrected polar is "
        "compared with the Du-Selig/AirfoilPrep formulas written out independently, plus: no change where the lift is on the fitted "
        "line and of the drag at zero angle, the correction fading to nothing at 90 degrees; one evaluation per polar; non-trivial: "
        "the lift changes by more than 0.001 somewhere")
ASSUMPTIONS = ["at least two angles inside the linear range and a lift slope away from zero"]


@st.composite
def strategy_(draw):
    ps = [draw(pg.polar(full=draw(gens.flag(0.4)), linear=True, Re=(1.0 + k) * 1e6)) for k in range(draw(st.sampled_from([1, 1, 2, 3])))]
    for p in ps:
        if draw(gens.flag(0.15)):  # drag measured next to nothing: no floor is to be put on the corrected drag
            lo = min(p["cd"])
            p["cd"] = [float("%.6f" % (v - lo + 1e-5)) for v in p["cd"]]
    case = dict(P=ps, rR=draw(gens.mix(gens.fgrid(0.1, 1.0, 0.02), gens.fgrid(0.1, 1.0, 0.02), gens.fgrid(0.01, 0.12, 0.01))), cr=draw(gens.fgrid(0.02, 0.6, 0.01)), tsr=draw(gens.mix(gens.fgrid(0.5, 12, 0.25), gens.fgrid(0.5, 12, 0.25), gens.fgrid(5, 40, 1))))
    if draw(st.booleans()):
        case["lim"] = [draw(gens.fgrid(10, 60, 1)), draw(gens.grid(-8, -4, 0.5)), draw(gens.grid(4, 8, 0.5))]
        if draw(gens.flag(0.2)):  # two or three angles to fit a line to
            z = [a for a in ps[0]["alpha"] if abs(a) < 8]
            k = draw(st.integers(1, 2))
            if len(z) > k:
                j = draw(st.integers(0, len(z) - 1 - k))
                if all(sum(z[j] <= a <= z[j + k] for a in p["alpha"]) > 1 for p in ps):
                    case["lim"][1:] = [z[j], z[j + k]]
    return case


def strategy():
    return strategy_()


def reference(p, rR, cr, tsr, amax, lo, hi):
    a = np.array(p["alpha"]) * np.pi / 180
    cl, cd = np.array(p["cl"]), np.array(p["cd"])
    s = (np.array(p["alpha"]) >= lo - 1e-9) & (np.array(p["alpha"]) <= hi + 1e-9)
    # least squares line
    x, y = a[s], cl[s]
    m = np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2)
    line = y.mean() + m * (a - x.mean())
    L = tsr / np.sqrt(1 + tsr ** 2)

    def factor(e):
        return (1.6 * cr / 0.1267 * (1 - cr ** e) / (1 + cr ** e) - 1) / m

    fl = factor(1 / (L * rR))
    fd = factor(1 / (2 * L * rR))
    adj = np.where(a <= np.radians(amax), 1.0, ((np.pi / 2 - a) / (np.pi / 2 - np.radians(amax))) ** 2)
    cd0 = pg.lerp(0.0, p["alpha"], p["cd"])[0]
    return m, cl + fl * (line - cl) * adj, cd + fd * (cd - cd0), cd0, np.max(np.abs(fl * (line - cl) * adj)), fd


def check(case):
    rR, cr, tsr = case["rR"], case["cr"], case["tsr"]
    lim = case.get("lim")
    amax, lo, hi = lim or (30.0, -5.0, 5.0)
    P = case["P"]
    with sut("correction3D"):
        af = pg.build_af(P)
        single = pg.build(P[0])
        if lim:
            outs = list(af.correction3D(rR, cr, tsr, amax, lo, hi).polars)
            one = single.correction3D(rR, cr, tsr, alpha_max_corr=amax, alpha_linear_min=lo, alpha_linear_max=hi)
        else:
            outs = list(af.correction3D(rR, cr, tsr).polars)
            one = single.correction3D(rR, cr, tsr)
    need(len(outs) == len(P), lambda: "%d corrected polars instead of %d" % (len(outs), len(P)))
    big = 0.0
    judged = 0
    for k, (q, o) in enumerate([(P[0], one)] + list(zip(P, outs))):
        m, cl, cd, cd0, d, fd = reference(q, rR, cr, tsr, amax, lo, hi)
        what = "corrected polar" if k == 0 else "corrected airfoil at Re=%g" % q["Re"]
        n = len(q["alpha"])
        close(arr(o.alpha, (n,), what + ": angles"), q["alpha"], 1e-12, what + ": angles")
        close(float(o.Re), q["Re"], 1e-12, what + ": Reynolds number")
        same(np.asarray(o.cm, float), np.array(q["cm"]), what + ": moment")
        if abs(m) < 0.3:
            continue
        judged += 1
        close(o.cl, cl, 1e-9, what + ": lift", scale=1.0)
        close(o.cd, cd, 1e-9, what + ": drag", scale=1.0)
        if 0.0 in q["alpha"]:
            close(o.cd[q["alpha"].index(0.0)], cd0, 1e-12, what + ": drag at zero angle", scale=1.0)
        big = max(big, d)
    for af_p, q in zip(list(af.polars) + [single], P + [P[0]]):
        for k in ("alpha", "cl", "cd", "cm"):
            same(np.asarray(getattr(af_p, k), float), np.array(q[k]), "the polar itself after the correction: " + k)
    if not judged:
        return skip("flat lift curve")
    return info(big > 1e-3, ["full range" if P[0]["alpha"][0] == -180 else "", "own limits" if lim else "default limits"], judged)
