"""C03: relative wind seen by each blade section."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import arr, close, info, skip, sut
from bemutil import loads

ID = "C03"
N = dict(quick=6000, thorough=120000)
RULE = ("rotors with force-free sections (zero lift and drag), for which W and the inflow angle are the undisturbed relative wind; "
        "random cone, tilt, yaw, shear, curvature, sweep, azimuth, wind speed per station or uniform; compared with vector "
        "rotations written out independently; one evaluation per station; non-trivial: at least two of cone/tilt/yaw/shear/"
        "curvature/sweep/azimuth are active")
ASSUMPTIONS = ["sections whose undisturbed relative wind comes from the front (Vx>0) and against rotation (Vy>0), or parked"]


class Null(object):
    def evaluate(self, alpha, Re, return_cm=False):
        return 0.0, 0.0


@st.composite
def strategy_(draw):
    rot = draw(gens.rotor_spec(foil_kinds=("cyl",), wild=False, nmax=8, ends=True))
    c = draw(gens.condition(rot))
    n = len(rot["r"])
    c["U"] = draw(st.lists(gens.grid(3, 25, 0.5), min_size=n, max_size=n)) if draw(gens.flag(0.4)) else None
    if c["U"] and draw(gens.flag(0.25)):  # nearly the same wind everywhere
        d = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5]))
        c["U"] = [float("%.12g" % (c["U"][0] + d * draw(st.integers(-3, 3)))) for _ in c["U"]]
    # sweep and yaw large enough to matter
    if draw(gens.flag(0.4)):
        c["Omega"] = gens._r(draw(gens.grid(0.3, 3, 0.1)) * c["Uinf"] / rot["Rtip"] * 30 / np.pi)
    return dict(rotor=rot, cond=[c])


def strategy():
    return strategy_()


def check(case):
    rot, c = case["rotor"], case["cond"][0]
    n = len(rot["r"])
    afs = [Null()] * n
    with sut("constructing the rotor"):
        b, _ = gens.build_rotor(rot, afs=afs)
    R = gens.ref_rotor(rot, afs)
    U = c["Uinf"] if c["U"] is None else np.array(c["U"])
    Vx, Vy = R.wind(U, c["Omega"], c["azimuth"])
    L, _, _ = loads(b, c, n, Uinf=U)
    W = np.hypot(Vx, Vy)
    ok = np.ones(n, bool)
    if c["Omega"] != 0:
        ok = (Vx > 1e-3 * W) & (Vy > 1e-3 * W)
        if not ok.any():
            return skip("no station with wind from the front")
    close(arr(L["W"], (n,), "W", finite=False)[ok], W[ok], 1e-9, "relative velocity W")
    phi = arr(L["alpha"], (n,), "alpha", finite=False) + R.v["theta"] + c["pitch"]
    ref = np.rad2deg(np.arctan2(Vx, Vy)) if c["Omega"] != 0 else np.full(n, 90.0)
    close(phi[ok], ref[ok], 0, "inflow angle (deg)", atol=1e-8)
    close(arr(L["Re"], (n,), "Re", finite=False)[ok], (rot["rho"] * W * R.v["chord"] / rot["mu"])[ok], 1e-9, "Re")
    act = [k for k in ("precone", "tilt", "yaw", "shearExp") if rot[k]] + [k for k in ("precurve", "presweep") if rot[k]]
    if c["azimuth"] % 360:
        act.append("azimuth")
    cls = ["active " + k for k in act] + (["wind per station"] if c["U"] else []) + (["parked"] if not c["Omega"] else [])
    return info(len(act) >= 2, cls, int(ok.sum()))
