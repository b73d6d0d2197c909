"""C02: every section output follows from the inflow angle by blade element relations."""
import numpy as np

import gens
from bemutil import LOADS, Case
from core import Violation, close, info

ID = "C02"
N = dict(quick=2400, thorough=60000)
RULE = ("a random rotor and condition (parked ones included, every switch, 1-3 Reynolds passes); from the returned angle of "
        "attack the reference recomputes a, a', W, Re, Cl, Cd, Cn, Ct, Np, Tp; one evaluation per station; non-trivial: at "
        "least one converged station with non-zero loads")


def strategy():
    return gens.rotor_case(iterRe=(1, 1, 1, 2, 2, 3, 4, 6), perstation=True, usecd=(True, True, False), nmax=8, ends=True)


def check(case):
    rot, c = case["rotor"], case["cond"][0]
    U = case.get("U")
    s = Case(rot, c, Uinf=None if U is None else np.array(U))
    st = s.status()
    if not s.rotating:
        close(np.rad2deg(s.phi), np.full(s.n, 90.0), 0, "inflow angle of a parked rotor (deg)", atol=1e-8)
    ok = np.array([k in ("parked", "mom", "brake", "rev") for k in st])
    if not ok.any():
        return info(False, ["no judged station"], 0)
    S = s.R.section(s.phi, c["pitch"], s.Vx, s.Vy, s.rotating)
    for k in LOADS:
        ref = np.asarray(S[k], float)
        got = s.L[k]
        # the magnitude a component is the small difference of
        if k in ("Cn", "Ct", "Cl", "Cd"):
            scale = np.hypot(S["Cl"], S["Cd"])
        elif k in ("Np", "Tp"):
            scale = np.hypot(S["Np"], S["Tp"])
        elif k in ("a", "ap"):
            scale = 1.0 + np.abs(ref)
        elif k == "alpha":
            scale = 180.0
        else:
            scale = np.abs(ref)
        bad = ok & ~(np.abs(got - ref) <= 1e-8 * scale)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Violation("%s at station %d is %.12g; the blade element relations give %.12g (inflow angle %.9g deg)"
                            % (k, i, got[i], ref[i], np.rad2deg(s.phi[i])))
    cls = ["station " + k for k in set(st)] + ["iterRe=%d" % rot["iterRe"]]
    cls += [k + " off" for k in ("tiploss", "hubloss", "wakerotation", "usecd") if not rot[k]]
    if any(f["kind"].endswith("Re") for f in rot["foils"]):
        cls.append("Re-dependent polars")
    if U is not None:
        cls.append("wind per station")
    return info(np.abs(s.L["Np"][ok]).max() > 0, cls, int(ok.sum()))
