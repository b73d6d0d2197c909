"""Generators of airfoil polars (Polar/Airfoil objects of the preprocessing tools)."""
import numpy as np
from hypothesis import strategies as st

import gens


def angles(lo, hi, nmin=6, nmax=24, step=0.5, must=()):
    """increasing angles on a grid, ends included"""
    inner = st.sets(gens.grid(lo + step, hi - step, step), min_size=nmin, max_size=nmax)
    return inner.map(lambda s: sorted(s | {lo, hi} | set(must)))


@st.composite
def polar(draw, lo=(-20, -3), hi=(8, 40), Re=None, full=False, linear=False, moments=True, nmax=24):
    """A polar as a JSON-able dict. linear: at least five angles in -5..5."""
    if full:
        a, b = -180.0, 180.0
    else:
        a = draw(gens.grid(lo[0], lo[1], 0.5))
        b = draw(gens.grid(hi[0], hi[1], 0.5))
    must = [-4.0, -2.0, 0.0, 2.0, 4.0] if linear else []
    if linear and draw(gens.flag(0.2)):  # no entry at zero
        must = [-4.5, -3.0, -1.0, 1.5, 2.5, 4.5]
    al = [x for x in draw(angles(a, b, 6, nmax, must=[m for m in must if a < m < b]))]
    dense = draw(gens.flag(0.03))
    if dense:
        k = draw(st.sampled_from([4, 9, 16]))
        al = [float("%.6g" % (u + (v - u) * j / k)) for u, v in zip(al, al[1:]) for j in range(k)] + [al[-1]]
    if not dense and draw(gens.flag(0.15)):  # angles with more digits
        al = [a if a in must or abs(a) == 180 else float("%.6f" % (a + 0.2 * ((7 * i) % 11) / 11 + 0.012346)) for i, a in enumerate(al)]
    p = draw(gens.foil_params())
    cl, cd = gens._foil_curve(p, np.deg2rad(al))
    jig = draw(st.lists(gens.grid(-0.02, 0.02, 0.001), min_size=1, max_size=6))
    e = np.array([jig[(5 * i) % len(jig)] for i in range(len(al))])
    cl = cl + e
    cd = cd + 0.2 * np.abs(e)
    k = draw(st.sampled_from(["cm", "cm", "cm0"])) if moments else "cm0"
    c0 = draw(gens.grid(-0.15, 0.05, 0.01))
    cm = (c0 - 0.05 * np.sin(np.deg2rad(al)) + 0.3 * e) if k == "cm" else np.zeros(len(al))
    if k == "cm" and draw(gens.flag(0.05)):  # hardly any moment
        cm = cm * draw(st.sampled_from([0.01, 0.001]))
    if k == "cm" and draw(gens.flag(0.05)):  # a single entry
        cm = np.where(np.arange(len(al)) == draw(st.integers(0, len(al) - 1)), -0.1, 0.0)
    return dict(Re=draw(reynolds()) if Re is None else Re, alpha=al, cl=[float("%.6f" % v) for v in cl],
                cd=[float("%.6f" % v) for v in cd], cm=[float("%.6f" % v) for v in cm])


def reynolds():
    return st.sampled_from([0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 9.0, 1.003, 1.006, 0.002, 0.005, 30.0]).map(lambda x: round(x * 1e6, 3))


@st.composite
def airfoil(draw, nmax=4, **kw):
    """polars at distinct Reynolds numbers, in any order"""
    n = draw(st.integers(1, nmax))
    res = draw(st.lists(reynolds(), min_size=n, max_size=n, unique=True))
    ps = [draw(polar(Re=R, **kw)) for R in res]
    if draw(gens.flag(0.05)):  # many tables: variations of the few
        m = draw(st.integers(9, 13))
        ps = [dict(ps[k % n], Re=1e5 * ((7 * k) % 29 + 1), cl=[float("%.6f" % (v + 0.01 * k)) for v in ps[k % n]["cl"]]) for k in range(m)]
    return ps


@st.composite
def nearby(draw, p, Re):
    """a polar with almost the angles of another one"""
    d = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7]))
    al = [float("%.9g" % (a + d * draw(st.sampled_from([0, 0, 1, -1])))) for a in p["alpha"]]
    f = draw(st.sampled_from([0.9, 1.1, 1.3]))
    return dict(Re=Re, alpha=al, **{k: [float("%.9g" % (f * v + 0.01 * f)) for v in p[k]] for k in ("cl", "cd", "cm")})


def build(p, cls=None, form="list"):
    from ccblade.airfoilprep import Polar

    f = {"list": list, "array": np.array, "tuple": tuple}[form]
    return (cls or Polar)(p["Re"], f(p["alpha"]), f(p["cl"]), f(p["cd"]), f(p["cm"]))


def build_af(ps, cls=None, form="list"):
    from ccblade.airfoilprep import Airfoil

    return Airfoil([build(p, cls, form) for p in ps])


def write_raw(path, ps):
    """an AeroDyn file of the polars as they are, every table on its own angles"""
    with open(path, "w") as f:
        f.write("AeroDyn airfoil file\nline two\nline three\n%d   Number of airfoil tables\n" % len(ps))
        for p in ps:
            f.write("%.6f  Reynolds number in millions\n" % (p["Re"] / 1e6) + "0.0  parameter\n" * 8)
            for row in zip(p["alpha"], p["cl"], p["cd"], p["cm"]):
                f.write("%.6f %.6f %.6f %.6f\n" % row)
            f.write("EOT\n")


def ordered(ps):
    return sorted(ps, key=lambda p: p["Re"])


def lerp(x, xs, ys):
    """piecewise linear interpolation, constant beyond the ends"""
    out = []
    for v in np.atleast_1d(x):
        if v <= xs[0]:
            out.append(ys[0])
        elif v >= xs[-1]:
            out.append(ys[-1])
        else:
            j = next(k for k in range(len(xs) - 1) if xs[k] <= v <= xs[k + 1])
            t = (v - xs[j]) / (xs[j + 1] - xs[j])
            out.append(ys[j] + t * (ys[j + 1] - ys[j]))
    return np.array(out, float)


def blend(p, q, w):
    lo, hi = max(p["alpha"][0], q["alpha"][0]), min(p["alpha"][-1], q["alpha"][-1])
    al = sorted(a for a in set(p["alpha"]) | set(q["alpha"]) if lo <= a <= hi)
    out = dict(Re=p["Re"] + w * (q["Re"] - p["Re"]), alpha=al)
    for k in ("cl", "cd", "cm"):
        out[k] = list((1 - w) * lerp(al, p["alpha"], p[k]) + w * lerp(al, q["alpha"], q[k]))
    return out


def at_re(ps, Re):
    """the polar of an airfoil at a Reynolds number"""
    ps = ordered(ps)
    if Re <= ps[0]["Re"]:
        return ps[0]
    if Re >= ps[-1]["Re"]:
        return ps[-1]
    j = next(k for k in range(len(ps) - 1) if ps[k]["Re"] < Re <= ps[k + 1]["Re"])
    return blend(ps[j], ps[j + 1], (Re - ps[j]["Re"]) / (ps[j + 1]["Re"] - ps[j]["Re"]))
