"""C25: unsteady-aerodynamics parameters derived from polars."""
import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import arr, close, info, need, same, skip, sut

ID = "C25"
N = dict(quick=6000, thorough=150000)
RULE = ("random polars (narrow and full range, cylinders, few angles) and fit limits: the eight AeroDyn 13 parameters must be the normal-force "
        "line fitted in the linear range, the angles where the normal force departs from it by 0.05, and the minimum drag; full-range "
        "polars also go through the AeroDyn 15 parameter extraction, compared with an independent one; one evaluation per polar; "
        "non-trivial: the polar is not a cylinder")
ASSUMPTIONS = ["at least five angles inside the linear range, or data recognisable as a cylinder (fewer than ten angles or lift values)"]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["narrow", "narrow", "full", "full", "cyl", "few", "late"]))
    if kind == "cyl":
        p = draw(pg.polar(full=draw(st.booleans()), linear=True))
        n = len(p["alpha"])
        p["cl"] = [draw(st.sampled_from([0.0, 0.1]))] * n
    elif kind == "few":
        p = draw(pg.polar(nmax=6))
        k = draw(st.integers(2, 9))
        for q in ("alpha", "cl", "cd", "cm"):
            p[q] = p[q][:k]
    elif kind == "full":
        f = draw(gens.foil_params())
        drop = draw(st.integers(0, 2))
        al = [float(a) for i, a in enumerate(gens.ALPHAS) if abs(a) <= 5 or drop == 0 or i % 5 != drop]
        cl, cd = gens._foil_curve(f, np.deg2rad(al))
        c0, st_, w = draw(gens.grid(-0.12, 0.02, 0.01)), np.deg2rad(f["stall"]), np.deg2rad(f["width"])
        a = np.deg2rad(al)
        cm = c0 - draw(gens.grid(0.05, 0.4, 0.05)) * (1 / (1 + np.exp(-(a - st_) / w)) - 1 / (1 + np.exp((a + st_) / w))) * np.cos(a / 2)
        if draw(gens.flag(0.4)):  # moment data with several local minima
            k, ph = draw(gens.grid(4, 24, 2)), draw(gens.grid(0, 6, 0.5))
            cm = cm + draw(gens.grid(0.002, 0.02, 0.002)) * np.sin(k * a + ph)
        p = dict(Re=1e6, alpha=al, cl=[float("%.6f" % v) for v in cl], cd=[float("%.6f" % v) for v in cd],
                 cm=[float("%.6f" % v) for v in cm])
        if draw(gens.flag(0.1)):
            p["cl"] = [draw(st.sampled_from([0.0, 0.0, 0.2]))] * len(al)
            p["cm"] = [0.0] * len(al)
            if draw(st.booleans()):  # drag that varies, angles on one side only
                p["cd"] = [float("%.6f" % (0.4 + 0.3 * np.cos(0.02 * draw(st.integers(0, 3)) * v + 0.3))) for v in al]
                if draw(st.booleans()):
                    k = draw(st.integers(3, 8))
                    keep = [i for i, v in enumerate(al) if v >= -30 or i % k]
                    p = dict(p, **{q: [p[q][i] for i in keep] for q in ("alpha", "cl", "cd", "cm")})
    elif kind == "late":
        # normal force on its line far beyond the usual stall angles
        al = [float(v) for v in range(-48, 50, draw(st.sampled_from([1, 2])))]
        m, z = draw(gens.grid(2, 6, 0.25)), draw(gens.grid(-4, 3, 0.5))
        up, lo = draw(gens.grid(6, 45, 1)), draw(gens.grid(-45, -6, 1))
        cn = [m * np.radians(min(max(v, lo), up) - z) for v in al]
        p = dict(Re=1e6, alpha=al, cd=[0.01 + 0.0002 * abs(v - z) for v in al], cm=[0.0] * len(al))
        p["cl"] = [float("%.7f" % ((c - d * np.sin(np.radians(v))) / np.cos(np.radians(v)))) for c, d, v in zip(cn, p["cd"], al)]
    else:
        p = draw(pg.polar(linear=True))
        if draw(gens.flag(0.2)):  # least drag anywhere
            p["cd"][draw(st.integers(0, len(p["cd"]) - 1))] = 0.5 * min(p["cd"])
    case = dict(kind=kind, P=p)
    if draw(gens.flag(0.3)):
        case["lim"] = [draw(gens.grid(-8, -4, 0.5)), draw(gens.grid(4, 8, 0.5))]
        if draw(gens.flag(0.2)) and kind != "cyl":  # two or three angles to fit a line to
            k = draw(st.integers(1, 2))
            z = [a for a in p["alpha"] if abs(a) < 8]
            if len(z) > k:
                j = draw(st.integers(0, len(z) - 1 - k))
                case["lim"] = [z[j], z[j + k]]
    return case


def strategy():
    return strategy_()


def aerodyn13(p, lim, got):
    al = np.array(p["alpha"])
    a = np.radians(al)
    cn = np.array(p["cl"]) * np.cos(a) + np.array(p["cd"]) * np.sin(a)
    got = arr(got, (8,), "unsteady parameters")
    if len(al) < 10 or len(set(p["cl"])) < 10:
        need(np.all(got == 0), lambda: "unsteady parameters of a cylinder: %s" % got)
        return False
    lo, hi = lim or (-5.0, 5.0)
    s = (al >= lo - 1e-9) & (al <= hi + 1e-9)
    x, y = a[s], cn[s]
    if len(x) < 2:
        return None
    m = np.sum((x - x.mean()) * (y - y.mean())) / np.sum((x - x.mean()) ** 2)
    if abs(m) < 0.3:
        return None
    a0 = x.mean() - y.mean() / m
    need(got[0] == 0, "control setting %r" % got[0])
    close(got[2], np.degrees(a0), 1e-8, "angle of zero normal force", scale=1.0)
    close(got[3], m, 1e-8, "normal force slope")
    for j, cj, sign, grid, nm in ((1, 4, 1, np.arange(40.0), "positive"), (None, 5, -1, np.arange(5.0, -40.0, -1), "negative")):
        line = m * (np.radians(grid) - a0)
        dev = sign * (line - np.array(pg.lerp(grid, p["alpha"], list(cn))))
        # angle implied by the normal force at stall, which lies on the line
        ang = np.degrees(got[cj] / m + a0)
        if j is not None:
            close(got[j], ang, 1e-6, "stall angle against the normal force at stall", scale=1.0)
        if dev[0] > 0.05:  # already away from the line there: a stall angle is defined only if the departure keeps growing
            if np.all(np.diff(dev) > 0):
                close(ang, grid[0], 1e-6, "%s stall angle" % nm, scale=1.0)
        elif dev[-1] < 0.05 - 1e-9:
            close(ang, grid[-1], 1e-6, "%s stall angle (none found)" % nm, scale=1.0)
        else:
            order = np.argsort(grid)
            need(grid.min() - 1e-6 <= ang <= grid.max() + 1e-6, lambda: "%s stall angle %r" % (nm, ang))
            d = np.interp(ang, grid[order], dev[order])
            need(abs(d - 0.05) < 1e-6, lambda: "at the %s stall angle %.6g deg the normal force departs by %.6g from the line, not 0.05" % (nm, ang, d))
            # the crossing is into stall
            if np.all(np.diff(dev) > 0):
                close(ang, np.interp(0.05, dev, grid), 1e-6, "%s stall angle" % nm, scale=1.0)
    close(got[7], min(p["cd"]), 1e-12, "minimum drag")
    need(any(abs(q - got[6]) < 1e-9 and c == min(p["cd"]) for q, c in zip(p["alpha"], p["cd"])),
         lambda: "angle of minimum drag %r deg, drag is least at %s" % (got[6], [q for q, c in zip(p["alpha"], p["cd"]) if c == min(p["cd"])]))
    return True


class Tie(Exception):
    pass


def nearest(al, v):
    return int(np.argmin(np.abs(al - v)))


def farthest(x, y, i, j, measure):
    """index in i..j-1 whose departure from the chord through i and j is largest (i if none departs)"""
    d = [measure(y[q] - (y[i] + (y[j] - y[i]) * (x[q] - x[i]) / (x[j] - x[i]))) for q in range(i, j)]
    best = max(d)
    if best <= 0:
        return i
    if sorted(d)[-2 if len(d) > 1 else -1] > best - 1e-12 and len(d) > 1:
        raise Tie()
    return i + d.index(best)


def last_min(y, i, j):
    """last local minimum of y[i:j], its ends counting if lower than their neighbour"""
    for q in range(j - 1, i - 1, -1):
        if (q == i or y[q] < y[q - 1]) and (q == j - 1 or y[q] < y[q + 1]):
            return q
    return None


def aerodyn15(p):
    al, cl, cd, cm = (np.array(p[k]) for k in ("alpha", "cl", "cd", "cm"))
    a = np.radians(al)
    cn = cl * np.cos(a) + cd * np.sin(a)
    i, j = nearest(al, -30.0), nearest(al, 30.0)
    U = {}
    lifting = np.max(np.abs(np.gradient(cl))) > 0
    if lifting:
        up = [q for q in range(i, j - 1) if cl[q] <= 0 < cl[q + 1]]
        if len(up) == 1 and cl[i] < 0 < cl[j - 1]:
            q = up[0]
            U["alpha0"] = al[q] - cl[q] * (al[q + 1] - al[q]) / (cl[q + 1] - cl[q])
        else:
            U["alpha0"] = None  # several or none
    else:
        U["alpha0"] = 0.0
    return al, cl, cd, cm, cn, i, j, lifting, U


def check15(p):
    from ccblade.ccblade import CCAirfoil

    al, cl, cd, cm, cn, i, j, lifting, U = aerodyn15(p)
    args = [np.array(p[k]) for k in ("alpha", "cl", "cd", "cm")]
    with sut("eval_unsteady"):  # the moment data need not have a smoothing spline
        af = CCAirfoil(al, [1e6], cl.reshape(-1, 1), cd.reshape(-1, 1))
        af.eval_unsteady(*args)
        u = af.unsteady
        keys = ("alpha0", "Cd0", "Cm0", "Cn1", "Cn2", "C_nalpha", "alpha1", "alpha2")
        g = {k: float(u[k]) for k in keys}
    for k, v in zip(("Alpha", "Cl", "Cd", "Cm"), (al, cl, cd, cm)):
        same(u[k], v, "table %s passed on" % k)
    for v, w, k in zip(args, (al, cl, cd, cm), ("alpha", "cl", "cd", "cm")):
        same(v, w, "argument %s afterwards" % k)
    arr(list(g.values()), None, "unsteady parameters")
    a0 = g["alpha0"]
    if lifting:
        need(al[i] <= a0 <= al[j], lambda: "zero-lift angle %r outside -30..30" % a0)
        if U["alpha0"] is not None:
            close(a0, U["alpha0"], 1e-9, "zero-lift angle", scale=1.0)
        c = np.interp(a0, al, cl)
        if cl[i] < 0 < cl[j - 1]:
            need(abs(c) < 1e-9, lambda: "lift at the zero-lift angle %r is %r" % (a0, c))
            close(g["Cd0"], np.interp(a0, al, cd), 1e-9, "drag at zero lift", scale=1.0)
            close(g["Cm0"], np.interp(a0, al, cm), 1e-9, "moment at zero lift", scale=1.0)
    else:
        need(a0 == 0, "zero-lift angle of a cylinder %r" % a0)
        close(g["Cd0"], cd[nearest(al, 0.0)], 1e-12, "drag of a cylinder")
        close(g["Cm0"], 0.0, 0, "moment of a cylinder")
    if not np.max(np.abs(np.gradient(cm))) > 1e-10:
        for k in ("Cn1", "Cn2", "C_nalpha", "alpha1"):
            need(g[k] == 0, lambda: "%s = %r without moment data" % (k, g[k]))
        need(g["alpha2"] == 0, "alpha2 without moment data")
        return True
    i0 = nearest(al, a0)
    if np.sort(np.abs(al - a0))[1] - np.abs(al - a0)[i0] < 1e-6:
        return False
    jh = nearest(al, al[i0] + 35.0)
    k1 = last_min(cm, i, jh)
    if k1 is None or k1 <= i0 + 1:
        return False
    n1 = farthest(al, cm, i0, k1, lambda d: d)
    if n1 < i0 + 2:
        return False
    close(g["Cn1"], cn[n1], 1e-9, "Cn1", scale=1e-3)
    il = nearest(al, 0.5 * (al[i0] + al[n1]) - 30.0)
    n2 = farthest(al, cm, il, i0, abs)
    close(g["Cn2"], cn[n2], 1e-9, "Cn2", scale=1e-3)
    close(g["C_nalpha"], np.max(np.gradient(cn[i0:n1], np.radians(al[i0:n1]))), 1e-9, "C_nalpha", scale=1e-3)
    iz = nearest(al, 0.0)
    if n1 > iz:
        na = farthest(al, cd, iz, n1, lambda d: -d)
        close(g["alpha1"], al[na], 1e-12, "alpha1", scale=1.0)
    close(g["alpha2"], -g["alpha1"], 1e-12, "alpha2", scale=1.0)
    return True


def check(case):
    p, lim = case["P"], case.get("lim")
    q = pg.build(p)
    with sut("unsteadyparam"):
        got = q.unsteadyparam(*lim) if lim else q.unsteadyparam()
    for k in ("alpha", "cl", "cd", "cm"):
        same(np.asarray(getattr(q, k), float), np.array(p[k]), "the polar afterwards: " + k)
    r = aerodyn13(p, lim, got)
    cls = [case["kind"], {True: "", False: "zeros", None: "v13 not judged"}[r]]
    if case["kind"] == "full":
        try:
            ok = True
            al, cl, cd, cm, cn, i, j, lifting, U = aerodyn15(p)
            if np.max(np.abs(np.gradient(cm))) > 1e-10:
                # the slope of the normal force needs two angles between zero lift and the break point
                i0 = nearest(al, U["alpha0"]) if U["alpha0"] is not None else None
                if i0 is None:
                    ok = False
                else:
                    k1 = last_min(cm, i, nearest(al, al[i0] + 35.0))
                    ok = k1 is not None and k1 > i0 + 1 and farthest(al, cm, i0, k1, lambda d: d) >= i0 + 2
        except Tie:
            ok = False
        if ok:
            try:
                cls.append("v15 judged" if check15(p) else "v15 not judged")
            except Tie:
                cls.append("v15 tie")
        else:
            cls.append("v15 not applicable")
    return info(bool(r), cls)
