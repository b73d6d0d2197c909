"""C11: physical scaling and symmetry laws."""
import numpy as np
from hypothesis import strategies as st

import gens
from bemutil import LOADS, Case
from core import Violation, close, info, need, skip, sut

ID = "C11"
N = dict(quick=2400, thorough=60000)
LAWS = ("density", "speed", "size", "azimuth", "pitch", "solidity", "axisym", "hubheight", "yaw_tilt_frame")
RULE = ("a random rotor and condition and one transformed twin (density, speed and size scaling at equal Reynolds number; full turns "
        "of azimuth; pitch traded against twist; blades traded against chord without loss factors; axisymmetry; no shear and hub "
        "height; tilt of an upright blade and yaw of a sideways blade); section loads and rotor outputs must follow the law; one "
        "evaluation per twin; non-trivial: loaded, and every station has a solution")


@st.composite
def strategy_(draw):
    law = draw(st.sampled_from(LAWS))
    case = draw(gens.rotor_case(iterRe=(1, 1, 2), nmax=6))
    rot, c = case["rotor"], case["cond"][0]
    case["law"] = law
    case["k"] = draw(st.sampled_from([0.25, 0.5, 2.0, 4.0, 3.0, 1.7]))
    if law == "azimuth":
        case["turns"] = draw(st.sampled_from([-2, -1, 1, 3]))
    if law == "pitch":
        case["shift"] = draw(gens.grid(-10, 10, 0.5))
    if law == "solidity":
        rot["tiploss"] = rot["hubloss"] = False
        case["B2"] = draw(st.sampled_from([1, 2, 4, 6]))
        # Reynolds numbers change with chord
        rot["foils"] = [dict(kind="analytic", p={k: v for k, v in f["p"].items() if k != "reexp"}) for f in rot["foils"]]
    if law in ("axisym",):
        rot["tilt"] = rot["yaw"] = rot["shearExp"] = 0.0
        case["az2"] = draw(gens.grid(5, 355, 5))
    if law == "hubheight":
        rot["shearExp"] = 0.0
    if law == "yaw_tilt_frame":
        rot["shearExp"] = 0.0
        rot["tilt"] = 0.0
        rot["yaw"] = 0.0
        case["angle"] = draw(gens.grid(-20, 20, 1))
    return case


def strategy():
    return strategy_()


def scaled(rot, k):
    r2 = dict(rot)
    for q in ("r", "chord", "precurve", "presweep"):
        if rot[q] is not None:
            r2[q] = [x * k for x in rot[q]]
    for q in ("Rhub", "Rtip", "precurveTip", "presweepTip", "hubHt"):
        r2[q] = rot[q] * k
    return r2


def unique(s):
    return all(x in ("parked", "mom", "brake") for x in s.status())


def check(case):
    rot, c, law, k = case["rotor"], case["cond"][0], case["law"], case["k"]
    r2, c2 = dict(rot), dict(c)
    f = dict(Np=1.0, Tp=1.0, W=1.0, Re=1.0)
    F = M = P = 1.0
    if law == "density":
        r2["rho"], r2["mu"] = rot["rho"] * k, rot["mu"] * k
        f.update(Np=k, Tp=k)
        F = M = P = k
    elif law == "speed":
        c2["Uinf"], c2["Omega"], r2["mu"] = c["Uinf"] * k, c["Omega"] * k, rot["mu"] * k
        f.update(Np=k * k, Tp=k * k, W=k)
        F = M = k * k
        P = k ** 3
    elif law == "size":
        r2 = scaled(rot, k)
        r2["mu"] = rot["mu"] * k
        c2["Omega"] = c["Omega"] / k
        f.update(Np=k, Tp=k)
        F, M, P = k ** 2, k ** 3, k ** 2
    elif law == "azimuth":
        c2["azimuth"] = c["azimuth"] + 360 * case["turns"]
    elif law == "pitch":
        c2["pitch"] = c["pitch"] - case["shift"]
        r2["theta"] = [t + case["shift"] for t in rot["theta"]]
    elif law == "solidity":
        r2["B"] = case["B2"]
        q = rot["B"] / float(case["B2"])
        r2["chord"] = [x * q for x in rot["chord"]]
        f.update(Np=q, Tp=q, Re=q)
    elif law == "axisym":
        c2["azimuth"] = case["az2"]
        r2["nSector"] = rot["nSector"] + 3
        r2["hubHt"] = rot["hubHt"] * k
    elif law == "hubheight":
        r2["hubHt"] = rot["hubHt"] * max(k, 1.0)
    elif law == "yaw_tilt_frame":
        # tilting back an upright blade is yawing a blade that points sideways
        rot = dict(rot, tilt=case["angle"])
        c = dict(c, azimuth=0.0)
        r2["yaw"] = case["angle"]
        c2["azimuth"] = 90.0
    s1 = Case(rot, c)
    s2 = Case(r2, c2)
    if not (unique(s1) and unique(s2)):
        return skip("a station without a momentum solution")
    if law == "yaw_tilt_frame":
        # which of the two signs corresponds depends on conventions fixed in C03: judge by the undisturbed wind of the reference
        if np.max(np.abs(s1.Vx - s2.Vx) + np.abs(s1.Vy - s2.Vy)) > 1e-9 * np.max(np.abs(s1.Vx) + np.abs(s1.Vy)):
            r2["yaw"] = -case["angle"]
            s2 = Case(r2, c2)
            if np.max(np.abs(s1.Vx - s2.Vx) + np.abs(s1.Vy - s2.Vy)) > 1e-9 * np.max(np.abs(s1.Vx) + np.abs(s1.Vy)):
                return skip("not the same wind")
    # the same root, unless the section has several
    ambiguous = np.abs(s1.phi - s2.phi) > 1e-7
    if ambiguous.any():
        # both angles must then solve the first twin's equations (several solutions): nothing to compare at these stations
        for i in np.flatnonzero(ambiguous):
            g = s1.R.residual_at(i, s2.phi[i] + np.array([-1e-8, 1e-8]), c["pitch"], s1.Vx, s1.Vy)
            need(g[0] * g[1] <= 0, lambda: "%s: inflow angle %.10g deg against %.10g deg at station %d" % (
                law, np.rad2deg(s1.phi[i]), np.rad2deg(s2.phi[i]), i))
        return skip("several solutions")
    force = np.hypot(s1.L["Np"], s1.L["Tp"])
    for q in LOADS:
        ref = s1.L[q] * f.get(q, 1.0)
        if q in ("Np", "Tp"):
            tol = 1e-6 * force * f[q]
        elif q in ("W", "Re"):
            tol = 1e-7 * np.abs(ref)
        elif q == "alpha":
            tol = 1e-5
        elif q in ("a", "ap"):
            tol = 1e-6 * (1 + np.abs(ref)) ** 2 + 1e-5 * np.abs(ref)
        else:
            tol = 1e-6 * (np.hypot(s1.L["Cl"], s1.L["Cd"]) + 1)
        bad = ~(np.abs(s2.L[q] - ref) <= tol)
        # a' next to its pole
        if q in ("a", "ap"):
            bad &= np.abs(ref) < 10
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Violation("%s: %s at station %d is %.12g for the twin, the law gives %.12g" % (law, q, i, s2.L[q][i], ref[i]))
    if law in ("density", "speed", "size", "pitch", "solidity", "axisym", "hubheight"):
        with sut("evaluate"):
            O1, _ = s1.rotor.evaluate([c["Uinf"]], [c["Omega"]], [c["pitch"]], coefficients=True)
            O2, _ = s2.rotor.evaluate([c2["Uinf"]], [c2["Omega"]], [c2["pitch"]], coefficients=True)
            g = lambda O, q: float(np.asarray(O[q]).ravel()[0])
        fs = sum(abs(g(O1, q)) for q in ("T", "Y", "Z"))
        ms = sum(abs(g(O1, q)) for q in ("Q", "My", "Mz")) + abs(g(O1, "Mb")) * rot["B"]
        ms = max(ms, fs * rot["Rtip"] * 0.1)
        nb = rot["B"] / float(case["B2"]) if law == "solidity" else 1.0
        for q in ("T", "Y", "Z"):
            need(abs(g(O2, q) - F * g(O1, q)) <= 1e-5 * F * fs, lambda: "%s: %s = %.10g for the twin, the law gives %.10g"
                 % (law, q, g(O2, q), F * g(O1, q)))
        for q in ("Q", "My", "Mz"):
            need(abs(g(O2, q) - M * g(O1, q)) <= 1e-5 * M * ms, lambda: "%s: %s = %.10g for the twin, the law gives %.10g"
                 % (law, q, g(O2, q), M * g(O1, q)))
        need(abs(g(O2, "Mb") - M * nb * g(O1, "Mb")) <= 1e-5 * M * ms, lambda: "%s: Mb = %.10g for the twin, the law "
             "gives %.10g" % (law, g(O2, "Mb"), M * nb * g(O1, "Mb")))
        if law in ("density", "speed", "size"):
            for q, s_ in (("CT", fs), ("CP", ms)):
                need(abs(g(O2, q) - g(O1, q)) <= 1e-5 * (abs(g(O1, q)) + 1e-3), lambda: "%s: %s changes from %.10g to %.10g"
                     % (law, q, g(O1, q), g(O2, q)))
    return info(np.max(force) > 0, ["law " + law], 1)
