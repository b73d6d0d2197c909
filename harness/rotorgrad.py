"""Exact derivatives of the rotor outputs, shared by C07 and C08."""
import warnings

import numpy as np

import gens
import refbem
from bemutil import brackets
from core import Violation, arr, close, info, need, skip, sut

FORCE, MOM = ("T", "Y", "Z"), ("Q", "My", "Mz", "Mb")
VARS_1 = ("precone", "tilt", "hubHt", "Rhub", "Rtip", "precurveTip", "presweepTip", "yaw", "shear")
VARS_P = ("Uinf", "Omega", "pitch")
VARS_N = ("r", "chord", "theta", "precurve", "presweep")


def reference(R, b, c):
    """(values, derivative per variable) of T..Mb, P and coefficients; None if not smooth"""
    parts, cls = [], set()
    azs = R.azimuths()
    D = None
    for az in azs:
        azd = float(np.rad2deg(az))
        with sut("distributedAeroLoads"):
            L, _ = b.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], azd)
        phi = np.deg2rad(arr(L["alpha"], (R.n,), "alpha", finite=False) + R.v["theta"] + c["pitch"])
        if not np.all(np.isfinite(phi)):
            return None, "no solution at a station"
        if c["Omega"] != 0:
            Vx, Vy = R.wind(c["Uinf"], c["Omega"], azd)
            if any(brackets(R, i, c["pitch"], Vx, Vy)[0] in ("none", "unclear") for i in range(R.n)):
                return None, "no solution at a station"
            S = R.section(phi, c["pitch"], Vx, Vy, True)
            if R.delicate(phi, S["k"]).any():
                return None, "switch of the induction model"
            cls.add("empirical (Buhl) region" if np.any(S["k"] > 2 / 3.0) else "momentum region only")
        D = R.dloads(phi, c["Uinf"], c["Omega"], c["pitch"], azd)
        if max(max(np.max(k[0]), np.max(k[1])) for k in D["kinks"]) > 1e-4 or np.min(np.abs(D["Rphi"])) < 1e-6:
            return None, "kink of a polar"
        parts.append(R.dintegrate(D))
    S = R.rotor_sum(parts, azs)
    H = refbem.H
    C = D["C"]
    d = np.pi / 180
    Rr = (C["Rtip"] * np.cos(C["precone"] * d) + C["precurveTip"] * np.sin(C["precone"] * d))[:, 0]
    U = np.array([c["Uinf"] + (1j * H if v[0] == "Uinf" else 0) for v in D["vars"]])
    Om = np.array([c["Omega"] + (1j * H if v[0] == "Omega" else 0) for v in D["vars"]])
    S["P"] = S["Q"] * Om * np.pi / 30
    q = 0.5 * R.rho * U ** 2
    A = np.pi * Rr ** 2
    for k in FORCE:
        S["C" + k] = S[k] / (q * A)
    for k in MOM:
        S["C" + k] = S[k] / (q * A * Rr)
    S["CP"] = S["P"] / (q * A * U)
    val = {k: S[k][0].real for k in S}
    der = {k: S[k].imag / H for k in S}
    return (val, der, D["vars"]), cls


def strategy():
    return gens.rotor_case(ncond=3, usecd=(True, True, True, True, False), nmax=5, ends=True)


def check(case, coefs):
    rot, cs = case["rotor"], case["cond"]
    with sut("constructing the rotor"):
        b, afs = gens.build_rotor(rot, derivatives=True)
    R = gens.ref_rotor(rot, afs)
    m, n = len(cs), R.n
    with sut("evaluate"):
        O, D = b.evaluate([c["Uinf"] for c in cs], [c["Omega"] for c in cs], [c["pitch"] for c in cs], coefficients=coefs)
    pre = "C" if coefs else ""
    keys = [pre + k for k in ("P",) + FORCE + MOM]
    J = {}
    for k in keys:
        with sut("reading gradient d" + k):
            dk = D["d" + k]
            for v in VARS_1:
                J[k, v] = arr(dk["d" + v], (m, 1), "d%s/d%s" % (k, v), finite=False)
            for v in VARS_P:
                J[k, v] = arr(dk["d" + v], (m, m), "d%s/d%s" % (k, v), finite=False)
                off = J[k, v][~np.eye(m, dtype=bool)]
                need(np.all(off == 0), "d%s/d%s couples different conditions: %s" % (k, v, J[k, v]))
            for v in VARS_N:
                J[k, v] = arr(dk["d" + v], (m, n), "d%s/d%s" % (k, v), finite=False)
    ev = 0
    classes = set()
    for ic, c in enumerate(cs):
        ref, cls = reference(R, b, c)
        if ref is None:
            classes.add("condition set aside: " + cls)
            continue
        classes |= cls
        val, der, vars_ = ref
        fam = {}
        for k in keys:
            f = FORCE if k[len(pre):] in FORCE else (MOM if k[len(pre):] in MOM else ("P",))
            fam[k] = [pre + x for x in f]
        om = max(abs(c["Omega"]) * np.pi / 30 * (1 if not coefs else R.R / c["Uinf"]), 1e-300)
        for row, (v, j) in enumerate(vars_):
            if v == "azimuth":
                continue
            for k in keys:
                if v in VARS_P:
                    x = J[k, v][ic, ic]
                else:
                    x = J[k, v][ic, 0 if j is None else j]
                y = der[k][row]
                if k.endswith("P"):
                    sd = om * max(abs(der[pre + f][row]) for f in MOM) + abs(y)
                    sv = om * max(abs(val[pre + f]) for f in MOM)
                    if v == "Omega":
                        sv += np.pi / 30 * (1 if not coefs else R.R / c["Uinf"]) * max(abs(val[pre + f]) for f in MOM)
                else:
                    sd = max(abs(der[f][row]) for f in fam[k])
                    sv = max(abs(val[f]) for f in fam[k])
                ev += 1
                if not abs(x - y) <= 1e-5 * sd + 1e-9 * sv:
                    raise Violation("condition %d: d%s/d%s%s = %.10g, the derivative is %.10g" % (
                        ic, k, v, "" if j is None else "[%d]" % j, x, y))
    classes.add("conditions=%d" % m)
    classes.add("nSector=%d" % R.nSector)
    for k in ("precurve", "presweep", "precone", "tilt", "yaw", "shearExp"):
        if rot[k]:
            classes.add("active " + k)
    return info(ev > 0, classes, ev)
