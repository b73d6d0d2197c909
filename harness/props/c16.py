"""C16: extrapolation of polars to +/-180 degrees (Viterna)."""
import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import Violation, arr, close, info, need, same, sut

ID = "C16"
N = dict(quick=3200, thorough=100000)
RULE = ("a random polar whose data end inside +/-90 degrees (symmetric and unsymmetric ends, moments or none, negative lift at the end, "
        "high drag), random cdmax, aspect ratio, cdmin, number of points; the result is compared at every angle with the Viterna, flat-plate "
        "and linear pieces and the AirfoilPrep moment rule written out independently; airfoils with several polars; unsupported input "
        "must be refused; one evaluation per extrapolated polar; non-trivial: the polar has moments or unsymmetric ends")
ASSUMPTIONS = ["polars that reach from below 0 to above 0 degrees and end inside +/-90 degrees"]


@st.composite
def strategy_(draw):
    wide = draw(gens.flag(0.25))
    lo, hi = ((-89.5, -1), (1, 89.5)) if wide else ((-20, -3), (6, 40))
    ps = [draw(pg.polar(lo=lo, hi=hi, Re=(1.0 + k) * 1e6)) for k in range(draw(st.sampled_from([1, 1, 2, 3])))]
    if draw(gens.flag(0.3)):  # symmetric ends
        p = ps[0]
        h = min(-p["alpha"][0], p["alpha"][-1])
        if h > 3:
            keep = [i for i, a in enumerate(p["alpha"]) if -h < a < h]
            e = p["alpha"].index(h) if h in p["alpha"] else p["alpha"].index(-h)
            q = dict(Re=p["Re"], alpha=[-h] + [p["alpha"][i] for i in keep] + [h])
            for k in ("cl", "cd", "cm"):
                q[k] = [p[k][0]] + [p[k][i] for i in keep] + [p[k][-1]]
            ps[0] = q
    if draw(gens.flag(0.15)):
        ps[0] = dict(ps[0], cl=[-v for v in ps[0]["cl"]])
    return dict(P=ps, cdmax=draw(gens.fgrid(0.5, 2.2, 0.05)), AR=draw(st.one_of(st.none(), gens.fgrid(5, 30, 0.5))),
                cdmin=draw(st.sampled_from([0.001, 0.0, 0.005, 0.01, 0.05])), nalpha=draw(st.sampled_from([15, 15, 7, 10, 31, 60, 120])),
                prior=draw(st.sampled_from([None, 2.5, 1.5, 0.5])),
                bad=draw(st.sampled_from([None, None, "cdmin", "high", "low"])))


def strategy():
    return strategy_()


def pieces(p, cdmax):
    """list of (lower, upper, cl(a), cd(a)) in radians"""
    ah, al = np.radians(p["alpha"][-1]), np.radians(p["alpha"][0])
    clh, cdh, cll, cdl = p["cl"][-1], p["cd"][-1], p["cl"][0], p["cd"][0]
    A2 = (clh - cdmax * np.sin(ah) * np.cos(ah)) * np.sin(ah) / np.cos(ah) ** 2
    B2 = (cdh - cdmax * np.sin(ah) ** 2) / np.cos(ah)

    def vcl(a):
        a = max(a, 1e-4)
        return cdmax / 2 * np.sin(2 * a) + A2 * np.cos(a) ** 2 / np.sin(a)

    def vcd(a):
        a = max(a, 1e-4)
        return cdmax * np.sin(a) ** 2 + B2 * np.cos(a)

    pi = np.pi
    P = [(ah, pi / 2, vcl, vcd),
         (pi / 2, pi - ah, lambda a: -0.7 * vcl(pi - a), lambda a: vcd(pi - a)),
         (pi - ah, pi, lambda a: 0.7 * clh * (a - pi) / ah, lambda a: vcd(pi - a)),
         (-pi / 2, min(al, -ah), lambda a: -0.7 * vcl(-a), lambda a: vcd(-a)),
         (-pi + ah, -pi / 2, lambda a: 0.7 * vcl(a + pi), lambda a: vcd(a + pi)),
         (-pi, -pi + ah, lambda a: 0.7 * clh * (a + pi) / ah, lambda a: vcd(a + pi))]
    if al > -ah:
        P.append((-ah, al, lambda a: -0.7 * clh + (a + ah) / (al + ah) * (cll + 0.7 * clh),
                  lambda a: cdh + (a + ah) / (al + ah) * (cdl - cdh)))
    return P


def moments(p, out):
    """moment at every multiple of 10 degrees outside the polar, from the extrapolated lift and drag"""
    al = p["alpha"]
    cm0 = None
    for i in range(len(al) - 1):
        if abs(al[i]) < 20 and p["cl"][i] <= 0 <= p["cl"][i + 1]:
            if p["cl"][i] == p["cl"][i + 1]:
                return None, None
            t = -p["cl"][i] / (p["cl"][i + 1] - p["cl"][i])
            cm0 = p["cm"][i] + t * (p["cm"][i + 1] - p["cm"][i])
            break
    if cm0 is None:
        if p["cl"][0] == p["cl"][1]:
            return None, None
        t = -p["cl"][0] / (p["cl"][1] - p["cl"][0])
        cm0 = p["cm"][0] + t * (p["cm"][1] - p["cm"][0])
    ah = np.radians(al[-1])
    den = p["cl"][-1] * np.cos(ah) + p["cd"][-1] * np.sin(ah)
    if abs(den) < 1e-3 or abs(cm0) > 1e3:
        return None, None
    xm = (cm0 - p["cm"][-1]) / den
    k = (xm - 0.25) / np.tan(ah - np.pi / 2)
    table = {165: -0.4, 170: -0.5, 175: -0.25, 180: 0.0, -165: 0.35, -170: 0.4, -175: 0.2, -180: 0.0}
    nodes, vals = [], []
    for d in range(-180, 181, 10):
        if al[0] <= d <= al[-1]:
            continue
        a = np.radians(d)
        cl, cd = (np.interp(d, out.alpha, v) for v in (out.cl, out.cd))
        if d in table:
            v = table[d]
        elif d > 0:
            x = k * np.tan(a - np.pi / 2) + 0.25
            v = cm0 - x * (cl * np.cos(a) + cd * np.sin(a))
        else:
            x = k * np.tan(-a - np.pi / 2) + 0.25
            v = -(cm0 - x * (-cl * np.cos(a) + cd * np.sin(-a)))
        nodes.append(float(d))
        vals.append(v)
    return np.array(nodes), np.array(vals)


def judge(p, out, cdmax, cdmin, nalpha, what):
    n0 = len(p["alpha"])
    al = arr(out.alpha, None, what + ": angles")
    n = len(al)
    cl, cd, cm = (arr(getattr(out, k), (n,), what + ": " + k) for k in ("cl", "cd", "cm"))
    need(np.all(np.diff(al) > 0), lambda: "%s: angles are not increasing: %s" % (what, al))
    close(al[[0, -1]], [-180.0, 180.0], 1e-9, what + ": first and last angle")
    close(float(out.Re), p["Re"], 1e-12, what + ": Reynolds number")
    need(np.all(cd >= cdmin), lambda: "%s: drag %r below the minimum" % (what, cd.min()))
    # the tabulated data are kept
    idx = []
    for i, a in enumerate(p["alpha"]):
        j = int(np.argmin(np.abs(al - a)))
        need(abs(al[j] - a) < 1e-9, lambda: "%s: tabulated angle %r is missing" % (what, a))
        idx.append(j)
    need(idx == list(range(idx[0], idx[0] + n0)), lambda: "%s: angles were added inside the tabulated range" % what)
    close(cl[idx], p["cl"], 1e-12, what + ": tabulated lift")
    close(cd[idx], np.maximum(p["cd"], cdmin), 1e-12, what + ": tabulated drag")
    close_cm = dict(scale=1e-3)
    close(cm[idx], p["cm"], 1e-10, what + ": tabulated moment", **close_cm)
    # outside
    top = max(max(p["cd"]), cdmax)
    P = pieces(p, top)
    inside = set(idx)
    for j in range(n):
        if j in inside:
            continue
        a = np.radians(al[j])
        cand = [(f(a), max(g(a), cdmin)) for lo, hi, f, g in P if lo - 1e-9 <= a <= hi + 1e-9]
        need(cand, lambda: "%s: no rule for %r deg" % (what, al[j]))
        s = 1e-7 * max(1.0, max(abs(c[0]) for c in cand))
        if not any(abs(cl[j] - c[0]) <= s and abs(cd[j] - c[1]) <= s for c in cand):
            raise Violation("%s: cl, cd at %.6g deg are %r, %r, the extrapolation rule gives %s" % (what, al[j], cl[j], cd[j], cand))
    # dense enough in every piece
    for lo, hi, _, _ in P:
        if hi - lo > 1e-9:
            pts = np.radians(al)
            pts = np.concatenate(([lo], pts[(pts > lo) & (pts < hi)], [hi]))
            gap = np.max(np.diff(pts))
            inner = hi == np.radians(p["alpha"][0]) and lo == -np.radians(p["alpha"][-1])
            need(gap <= (3.01 if inner else 1.51) * (hi - lo) / (nalpha - 1), lambda: "%s: gap of %.3g deg in the piece %.4g..%.4g deg" % (
                what, np.degrees(gap), np.degrees(lo), np.degrees(hi)))
    # moments
    if not np.any(np.array(p["cm"]) != 0):
        need(np.all(cm == 0), lambda: "%s: moments %s although the polar has none" % (what, cm))
        return True
    nodes, vals = moments(p, out)
    if nodes is None:
        return False
    xs = np.concatenate((nodes[nodes < p["alpha"][0]], p["alpha"], nodes[nodes > p["alpha"][-1]]))
    ys = np.concatenate((vals[nodes < p["alpha"][0]], p["cm"], vals[nodes > p["alpha"][-1]]))
    close(cm, np.interp(al, xs, ys), 1e-8, what + ": moments", scale=1.0)
    return True


def check(case):
    P, cdmax, AR, cdmin, nal = (case[k] for k in ("P", "cdmax", "AR", "cdmin", "nalpha"))
    top = cdmax if AR is None else 1.11 + 0.018 * AR
    with sut("Polar.extrapolate"):
        p = pg.build(P[0])
        out = p.extrapolate(cdmax, AR, cdmin, nal) if case["nalpha"] != 15 else p.extrapolate(cdmax, AR=AR, cdmin=cdmin)
        if case.get("prior"):  # asked with other numbers in between
            p.extrapolate(cdmax * case["prior"], AR=None if AR is None else AR * case["prior"], cdmin=cdmin * case["prior"])
        again = p.extrapolate(cdmax, AR=AR, cdmin=cdmin, nalpha=nal)
    for k in ("alpha", "cl", "cd", "cm"):
        same(np.asarray(getattr(p, k), float), np.array(P[0][k]), "the polar itself after extrapolating: " + k)
        same(getattr(again, k), getattr(out, k), "extrapolating twice: " + k)
    full = judge(P[0], out, top, cdmin, nal, "extrapolated polar")
    with sut("Airfoil.extrapolate"):
        af = pg.build_af(P)
        e = af.extrapolate(cdmax, AR, cdmin)
        ps = list(e.polars)
    need(len(ps) == len(P), lambda: "%d extrapolated polars instead of %d" % (len(ps), len(P)))
    for q, o in zip(P, ps):
        judge(q, o, top, cdmin, 15, "extrapolated airfoil at Re=%g" % q["Re"])
    bad = case["bad"]
    if bad:
        q = dict(P[0])
        kw = dict(cdmin=cdmin)
        if bad == "cdmin":
            kw["cdmin"] = -0.01
        elif bad == "high":
            q = dict(q, alpha=q["alpha"][:-1] + [95.0])
        else:
            q = dict(q, alpha=[-95.0] + q["alpha"][1:])
        try:
            pg.build(q).extrapolate(cdmax, **kw)
        except Exception:
            pass
        else:
            raise Violation("extrapolate accepted unsupported input (%s)" % bad)
    al = P[0]["alpha"]
    sym = "symmetric" if al[0] == -al[-1] else ("low end beyond" if al[0] < -al[-1] else "low end inside")
    return info(any(P[0]["cm"]) or sym != "symmetric", [sym, "moments" if any(P[0]["cm"]) else "no moments",
                                                        "" if full else "moment rule undefined"], 1 + len(ps))
