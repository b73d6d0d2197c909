"""C26: angle of best glide and angle at a margin from stall."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import arr, close, info, need, sut, skip

ID = "C26"
N = dict(quick=2400, thorough=60000)
RULE = ("random airfoil tables (full range, several or one Reynolds number, cylinders with constant data, tables with no angles between -20 "
        "and 40 degrees), Reynolds numbers inside and beyond the table, margins 0-10 (in part -5 to 60) degrees; the answers are compared with a search over a "
        "fine grid of the same spline; one evaluation per query; non-trivial: a lifting airfoil")


@st.composite
def strategy_(draw):
    f = draw(gens.foil_spec(("table", "tableRe", "tableRe", "cyl")))
    case = dict(foil=f, Re=[draw(gens.fgrid(5e4, 2e7, 5e4)) for _ in range(2)], margin=draw(gens.mix(gens.fgrid(0, 10, 0.5), gens.fgrid(0, 10, 0.5), gens.fgrid(-5, 60, 1))))
    case["sparse"] = draw(gens.flag(0.15))
    case["f2"] = draw(gens.flag(0.3))
    return case


def strategy():
    return strategy_()


def check(case):
    from ccblade.ccblade import CCAirfoil

    al, Re, cl, cd = gens.foil_table(case["foil"])
    if not np.any(cd):
        return skip("neither lift nor drag: no glide ratio")
    if case["sparse"]:
        # the nearest entry to both -20 and 40 degrees is the same
        keep = [0, len(al) // 2, len(al) - 1]
        keep = [0, int(np.argmin(np.abs(al - 10))), len(al) - 1]
        al, cl, cd = al[keep], cl[keep], cd[keep]
    with sut("building the airfoil"):
        a = CCAirfoil(al, Re, cl, cd)
    n = 0
    grid = np.radians(np.arange(-20.0, 40.0001, 0.3))  # 201 angles
    for R in case["Re"]:
        with sut("max_eff"):
            E, ae, cle, cde = (float(x) for x in a.max_eff(R))
        with sut("awayfromstall"):
            Eo, ao, clo, cdo = (float(x) for x in a.awayfromstall(R, case["margin"]))
        with sut("evaluate"):
            G = np.array(a.evaluate(grid, np.full(len(grid), R)), float)
        for e, x, c, d, what in ((E, ae, cle, cde, "best glide"), (Eo, ao, clo, cdo, "margin to stall")):
            arr([e, x, c, d], (4,), what)
            with sut("evaluate"):
                v = np.array(a.evaluate(x, R), float).ravel()
            close(c, v[0], 1e-9, what + ": lift coefficient", atol=1e-12)
            close(d, v[1], 1e-9, what + ": drag coefficient", atol=1e-12)
            close(e, v[0] / v[1], 1e-9, what + ": glide ratio", atol=1e-12)
        n += 2
        if case["sparse"]:
            need(ae == 0 and ao == 0, lambda: "angles %r, %r for a table without data around zero" % (ae, ao))
            continue
        need(grid[0] - 1e-9 <= ae <= grid[-1] + 1e-9, lambda: "angle of best glide %r deg" % np.degrees(ae))
        r = G[0] / G[1]
        best = np.max(r)
        need(E >= best - 1e-9 * max(1, abs(best)), lambda: "best glide %r at %.3f deg, but %r at %.3f deg" % (
            E, np.degrees(ae), best, np.degrees(grid[np.argmax(r)])))
        stall = ao + np.radians(case["margin"])
        need(grid[0] - 1e-9 <= stall <= grid[-1] + 1e-9, lambda: "stall angle %r deg" % np.degrees(stall))
        with sut("evaluate"):
            cs = float(np.ravel(a.evaluate(stall, R)[0])[0])
        top = np.max(G[0])
        need(cs >= top - 1e-9 * max(1, abs(top)), lambda: "%.4g deg from stall taken at %.3f deg (lift %r), but lift is %r at %.3f deg" % (
            case["margin"], np.degrees(stall), cs, top, np.degrees(grid[np.argmax(G[0])])))
    return info(case["foil"]["kind"] != "cyl" and not case["sparse"], [case["foil"]["kind"], "sparse table" if case["sparse"] else ""], n)
