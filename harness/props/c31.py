"""C31: stations at the very hub and tip (where the loss factors vanish) give finite, continuous answers."""
import numpy as np
from hypothesis import strategies as st

import gens
from bemutil import LOADS, brackets, loads
from core import Violation, arr, close, info, need, skip, sut

ID = "C31"
N = dict(quick=2400, thorough=60000)
RULE = ("a random rotor with its first station exactly at the hub and/or its last exactly at the tip (and, in part, the last "
        "curvature or sweep equal to that of the tip), gradients on or off; every load, rotor output and gradient must be finite "
        "and non-degenerate, the stations in between must agree with a rotor whose end stations are placed just inside (1% of the "
        "span, or half-way to the neighbour) and the caller's arrays must be untouched; one evaluation per rotor; non-trivial: all")


@st.composite
def strategy_(draw):
    rot = draw(gens.rotor_spec(nmin=3, nmax=7))
    c = draw(gens.condition(rot))
    which = draw(st.sampled_from(["both", "hub", "tip"]))
    if which in ("both", "hub"):
        rot["r"][0] = rot["Rhub"]
    if which in ("both", "tip"):
        rot["r"][-1] = rot["Rtip"]
    if draw(gens.flag(0.25)):  # end stations next to hub and tip, or next to their neighbours
        s = rot["Rtip"] - rot["Rhub"]
        d = draw(st.sampled_from([1e-2, 4e-3, 1e-3, 3e-4, 1e-4]))
        w = draw(st.sampled_from(["near hub", "near tip", "close to the first", "close to the last"]))
        k = {"near hub": 0, "near tip": -1, "close to the first": 1, "close to the last": -2}[w]
        v = {"near hub": rot["Rhub"] + d * s, "near tip": rot["Rtip"] - d * s, "close to the first": rot["r"][0] + d * s,
             "close to the last": rot["r"][-1] - d * s}[w]
        r = list(rot["r"])
        r[k] = float("%.9g" % v)
        if all(x < y for x, y in zip(r, r[1:])):
            rot["r"] = r
    eq = []
    for q in ("precurve", "presweep"):
        if rot[q] is not None and which != "hub" and draw(gens.flag(0.6)):
            rot[q + "Tip"] = rot[q][-1]
            eq.append(q)
    return dict(rotor=rot, cond=[c], which=which, eq=eq, deriv=draw(st.booleans()))


def strategy():
    return strategy_()


def check(case):
    rot, c = case["rotor"], case["cond"][0]
    n = len(rot["r"])
    if rot["r"][0] >= rot["r"][1] or rot["r"][-1] <= rot["r"][-2]:
        return skip("stations coincide")
    afs = gens.build_foils(rot)
    r0 = np.array(rot["r"], float)
    own = {q: np.array(rot[q], float) for q in ("chord", "theta", "precurve", "presweep") if rot[q] is not None}
    with sut("constructing the rotor"):
        b, _ = gens.build_rotor(rot, afs=afs, derivatives=case["deriv"], r=r0, **own)
    need(np.array_equal(r0, rot["r"]), "the caller's r was modified: %s" % r0)
    for q in own:
        need(np.array_equal(own[q], rot[q]), lambda: "the caller's %s was modified: %s" % (q, own[q]))
    L, D, warned = loads(b, c, n)
    # the rotor the code has to behave like: end stations placed just inside
    f = (r0 - r0[0]) / (r0[-1] - r0[0])
    fh, ft = min(0.01, 0.5 * f[1]), max(0.99, 0.5 * (f[-2] + 1.0))
    r2 = dict(rot)
    rr = list(rot["r"])
    if rot["Rhub"] == rr[0]:
        rr[0] = float(np.interp(fh, f, r0))
    if rot["Rtip"] == rr[-1]:
        rr[-1] = float(np.interp(ft, f, r0))
    r2["r"] = rr
    for q in ("precurve", "presweep"):
        if rot[q] is not None and rot[q + "Tip"] == rot[q][-1]:
            r2[q] = list(rot[q])
            r2[q][-1] = float(np.interp(ft, f, rot[q]))
    # that rotor, with its tip kept out of reach of a second adjustment
    need(rr[0] > rot["Rhub"] - 1e-12 and rr[-1] < rot["Rtip"] + 1e-12, "harness: end stations")
    R = gens.ref_rotor(r2, afs)
    Vx, Vy = R.wind(c["Uinf"], c["Omega"], c["azimuth"])
    if warned:
        # a solution may be missing altogether (no drag, enormous chords)
        need(any(brackets(R, i, c["pitch"], Vx, Vy)[0] in ("none", "unclear") for i in range(n)),
             "the code warned that it found no solution although there is one at every station")
        return skip("no solution at a station")
    for q in LOADS:
        arr(L[q], (n,), q)
    for az in (R.azimuths() if c["Omega"] != 0 else []):
        v = R.wind(c["Uinf"], c["Omega"], np.rad2deg(az))
        if any(brackets(R, i, c["pitch"], v[0], v[1])[0] in ("none", "unclear") for i in range(n)):
            return skip("no solution at a station in some sector")
    with sut("evaluate"):
        O, E = b.evaluate([c["Uinf"]], [c["Omega"]], [c["pitch"]], coefficients=True)
    for q in ("T", "Y", "Z", "Q", "My", "Mz", "Mb", "P", "CT", "CQ", "CP"):
        arr(O[q], (1,), q)
    if case["deriv"]:
        for q in ("Np", "Tp"):
            for v, x in D["d" + q].items():
                arr(x, None, "gradient d%s/%s" % (q, v))
        for q in ("T", "Q", "P", "CT", "CP"):
            for v, x in E["d" + q].items():
                arr(x, None, "gradient d%s/%s" % (q, v))
    phi = np.deg2rad(np.array(L["alpha"]) + R.v["theta"] + c["pitch"])
    if c["Omega"] != 0:
        for i in range(n):
            g = R.residual_at(i, [phi[i] - 1e-8, phi[i], phi[i] + 1e-8], c["pitch"], Vx, Vy)
            need(g[0] * g[2] <= 0 or abs(g[1]) < 1e-8, lambda: "station %d: inflow angle %.10g deg does not solve the equations "
                 "with the end stations just inside the blade (residual %.3g)" % (i, np.rad2deg(phi[i]), g[1]))
    S = R.section(phi, c["pitch"], Vx, Vy, c["Omega"] != 0)
    F = np.hypot(S["Np"], S["Tp"])
    for q in ("Np", "Tp"):
        bad = ~(np.abs(np.array(L[q]) - S[q]) <= 1e-6 * F)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Violation("%s at station %d is %.10g, with the end station just inside the blade it is %.10g" % (q, i, L[q][i], S[q][i]))
    cls = ["stations at " + case["which"]] + ["tip %s equal to the last station's" % q for q in case["eq"]]
    return info(True, cls + (["gradients"] if case["deriv"] else []), 1)
