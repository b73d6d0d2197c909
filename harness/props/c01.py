"""C01: the inflow angle returned for every station solves the BEM equations."""
import numpy as np

import gens
from bemutil import Case
from core import info, need

ID = "C01"
N = dict(quick=2400, thorough=60000)
RULE = ("a random rotor (2-7 stations, 1-5 blades, curved/swept/coned/tilted/yawed/sheared, tabulated, Re-dependent "
        "and analytic polars, every loss/wake/drag switch, 1-3 Reynolds passes) at a random condition; one evaluation "
        "per blade station; non-trivial: the rotor turns and at least one station was judged against the residual")
ASSUMPTIONS = ["polars with positive drag", "a root is required only where the reference residual brackets one"]


def strategy():
    return gens.rotor_case(iterRe=(1, 1, 1, 2, 2, 3, 4, 6), perstation=True, usecd=(True, True, False), nmax=8, ends=True)


def check(case):
    rot, c = case["rotor"], case["cond"][0]
    U = case.get("U")
    s = Case(rot, c, Uinf=None if U is None else np.array(U))
    cls = []
    judged = 0
    if not s.rotating:
        s.status()
        for i in range(s.n):
            need(abs(s.phi[i] - np.pi / 2) < 1e-9, lambda: "parked rotor: inflow angle %r at station %d is not 90 deg"
                 % (np.rad2deg(s.phi[i]), i))
        return info(False, ["parked"], s.n)
    st = s.status()
    allok = True
    for i in range(s.n):
        kind = st[i]
        if kind in ("unclear", "none"):
            cls.append("station without a bracket (%s)" % kind)
            allok = False
            continue
        lo, hi = {"mom": (0.0, np.pi / 2), "brake": (-np.pi / 4, 0.0), "rev": (np.pi / 2, np.pi)}[kind]
        need(lo - 1e-9 <= s.phi[i] <= hi + 1e-9, lambda: "station %d: inflow angle %.12g deg is outside [%g, %g] deg where the "
             "residual changes sign" % (i, np.rad2deg(s.phi[i]), np.rad2deg(lo), np.rad2deg(hi)))
        f = s.R.residual_at(i, [s.phi[i] - 1e-9, s.phi[i], s.phi[i] + 1e-9], c["pitch"], s.Vx, s.Vy)
        need(f[0] * f[2] <= 0 or abs(f[1]) < 1e-9, lambda: "station %d: the residual at the returned inflow angle %.12g deg is "
             "%.6g and has no root within 1e-9 rad (%.6g, %.6g)" % (i, np.rad2deg(s.phi[i]), f[1], f[0], f[2]))
        judged += 1
        cls.append("solution " + kind)
    if allok:
        need(not s.warned, "a solution exists at every station but the code warned that it found none")
    k = s.R.section(s.phi, c["pitch"], s.Vx, s.Vy, True)["k"]
    if np.any(k > 2.0 / 3):
        cls.append("empirical (Buhl) region")
    cls.append("iterRe=%d" % rot["iterRe"])
    if U is not None:
        cls.append("wind per station")
    return info(judged > 0, set(cls), judged)
