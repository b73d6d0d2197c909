"""C06: gradients of the distributed loads are the derivatives of the distributed loads."""
import numpy as np

import gens
import refbem
from bemutil import Case
from core import Violation, arr, info, need, skip, sut

ID = "C06"
N = dict(quick=2400, thorough=50000)
RULE = ("a random rotor and condition with gradients on (Re-dependent polars, every switch, parked ones, wind per station); exact "
        "derivatives by the implicit function theorem on a complex-step reference at the returned solution; one evaluation per "
        "Jacobian column; non-trivial: rotating, converged and loaded")
ASSUMPTIONS = ["one Reynolds pass (the documented limit)", "stations at a switch of the induction model or at a kink of a polar "
               "are set aside"]
NAME = dict(shear="shear")
VARS_N = ("r", "chord", "theta", "precurve", "presweep")
VARS_1 = ("precone", "tilt", "hubHt", "Rhub", "Rtip", "yaw", "shear", "azimuth", "Uinf", "Omega", "pitch")


def strategy():
    return gens.rotor_case(usecd=(True, True, True, False), nmax=7, perstation=True, ends=True)


def check(case):
    rot, c = case["rotor"], case["cond"][0]
    U = case.get("U")
    s = Case(rot, c, derivatives=True, Uinf=None if U is None else np.array(U))
    n = s.n
    st_ = s.status()
    ok = np.array([k in ("parked", "mom", "brake", "rev") for k in st_])
    Uin = c["Uinf"] if U is None else np.array(U)
    D = s.R.dloads(s.phi, Uin, c["Omega"], c["pitch"], c["azimuth"])
    kink = np.array([max(np.max(k[0]), np.max(k[1])) for k in D["kinks"]])
    S = s.R.section(s.phi, c["pitch"], s.Vx, s.Vy, s.rotating)
    use = ok & (kink < 1e-4)
    if s.rotating:
        use &= ~s.R.delicate(s.phi, S["k"]) & (np.abs(D["Rphi"]) > 1e-6)
    if not use.any():
        return skip("no smooth converged station")
    need(isinstance(s.D, dict), "gradients are not a dictionary")
    J = {}
    for q in ("Np", "Tp"):
        with sut("reading gradient d%s" % q):
            dq = s.D["d" + q]
            for v in VARS_N:
                J[q, v] = arr(dq["d" + v], (n, n), "d%s/d%s" % (q, v), finite=False)
            for v in VARS_1:
                J[q, v] = arr(dq["d" + v], (n, 1), "d%s/d%s" % (q, v), finite=False)
    scaleL = float(np.max(np.hypot(s.L["Np"][use], s.L["Tp"][use])))
    ev = 0
    for row, (v, j) in enumerate(D["vars"]):
        if v in ("precurveTip", "presweepTip"):
            continue
        refs = {q: D[q][row].imag / refbem.H for q in ("Np", "Tp")}
        sc = np.hypot(refs["Np"], refs["Tp"])
        for q in ("Np", "Tp"):
            got = J[q, v][:, 0 if j is None else j]
            bad = use & ~(np.abs(got - refs[q]) <= 3e-6 * np.max(sc[use]) + 1e-10 * scaleL)
            if bad.any():
                i = int(np.flatnonzero(bad)[0])
                raise Violation("d%s[%d]/d%s%s = %.10g, the derivative is %.10g" % (
                    q, i, v, "" if j is None else "[%d]" % j, got[i], refs[q][i]))
            ev += 1
    cls = ["station " + k for k in set(st_)]
    if any(f["kind"].endswith("Re") for f in rot["foils"]):
        cls.append("Re-dependent polars")
    if U is not None:
        cls.append("wind per station")
    if np.any(S["k"][use] > 2.0 / 3):
        cls.append("empirical (Buhl) region")
    cls += [k + " off" for k in ("tiploss", "hubloss", "wakerotation", "usecd") if not rot[k]]
    return info(s.rotating and scaleL > 0, cls, ev)
