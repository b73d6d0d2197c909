"""Shared by the checks on blade loads."""
import warnings

import numpy as np

import gens
import refbem
from core import Violation, arr, need, sut

LOADS = ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")
EPS = 1e-6


def loads(rotor, c, n, what="distributedAeroLoads", Uinf=None):
    """Call the code under test; returns (dict of arrays, derivs, message-free?)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with sut(what):
            out = rotor.distributedAeroLoads(c["Uinf"] if Uinf is None else Uinf, c["Omega"], c["pitch"], c["azimuth"])
            L, D = out
            L = {k: L[k] for k in LOADS}
    warned = any("check input values" in str(x.message) for x in w)
    return L, D, warned


def brackets(R, i, pitch, Vx, Vy):
    """What the reference says about where the solution is: 'mom', 'brake', 'rev',
    'none' or 'unclear' (a residual at an end of an interval within round-off)."""
    f = R.residual_at(i, [EPS, np.pi / 2, -np.pi / 4, -EPS, np.pi - EPS], pitch, Vx, Vy)
    if np.any(~np.isfinite(f[:2])) or np.any(np.abs(f[:2]) < 1e-9):
        return "unclear", f
    if f[0] * f[1] < 0:
        return "mom", f
    if np.any(~np.isfinite(f)) or np.any(np.abs(f) < 1e-9):
        return "unclear", f
    if f[2] < 0 and f[3] > 0:
        return "brake", f
    if f[1] * f[4] < 0:
        return "rev", f
    return "none", f


def sound(R, c, Vx, Vy):
    """Drag of the supplied polars must be positive for the guarantee to apply."""
    return True


class Case:
    """One rotor at one condition, solved by the code under test."""

    def __init__(self, rot, c, derivatives=False, Uinf=None):
        with sut("constructing the rotor"):
            self.rotor, self.afs = gens.build_rotor(rot, derivatives=derivatives)
        self.rot, self.c = rot, c
        self.R = gens.ref_rotor(rot, self.afs)
        self.n = self.R.n
        self.Vx, self.Vy = self.R.wind(c["Uinf"] if Uinf is None else np.asarray(Uinf, float), c["Omega"], c["azimuth"])
        self.rotating = c["Omega"] != 0
        self.L, self.D, self.warned = loads(self.rotor, c, self.n, Uinf=Uinf)
        self.L = {k: arr(self.L[k], (self.n,), k, finite=False) for k in LOADS}
        self.phi = np.deg2rad(self.L["alpha"] + self.R.v["theta"] + c["pitch"])

    def status(self):
        """per station: bracket class"""
        if not self.rotating:
            self.finite(["parked"] * self.n)
            return ["parked"] * self.n
        st = [brackets(self.R, i, self.c["pitch"], self.Vx, self.Vy)[0] for i in range(self.n)]
        self.finite(st)
        return st

    def finite(self, st):
        for k in LOADS:
            for i in range(self.n):
                need(np.isfinite(self.L[k][i]) or st[i] in ("none", "unclear"),
                     lambda: "%s at station %d is %r" % (k, i, self.L[k][i]))
