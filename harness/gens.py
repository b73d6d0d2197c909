"""Generators: plain JSON-able cases, and the objects built from them."""
import math

import numpy as np
from hypothesis import strategies as st


# ---- scalars on a grid (shrinks well, no denormal noise) -------------------
def grid(lo, hi, step):
    """multiples of step in [lo, hi] as floats rounded to 12 digits"""
    a, b = int(math.ceil(lo / step - 1e-9)), int(math.floor(hi / step + 1e-9))
    return st.integers(a, b).map(lambda k: float("%.12g" % (k * step)))


def fgrid(lo, hi, step):
    """as grid, with a part of the values off the grid"""
    return st.tuples(grid(lo, hi, step), flag(0.2)).map(lambda v: float("%.12g" % min(hi, v[0] + 0.37123457 * step)) if v[1] else v[0])


def mix(*alts):
    return st.one_of(*alts)


def flag(p=0.5):
    k = max(1, int(round(p * 20)))
    return st.integers(0, 19).map(lambda v: v >= 20 - k)  # shrinks to False


# ---- airfoils ----------------------------------------------------------------
ALPHAS = sorted(set([-180, -170, -160, -150, -140, -120, -110, -100, -90, -80, -70, -60, -50, -40, -30, -25, 180, 170,
                     160, 150, 140, 120, 110, 100, 90, 80, 70, 60, 50, 40, 30, 25] + list(range(-20, 21, 2))))


def _foil_curve(p, alpha, f=1.0):
    """smooth full-range lift/drag curves (alpha in rad)"""
    a0, slope, stall, width, cdmax, cd0 = p["a0"], p["slope"], p["stall"], p["width"], p["cdmax"], p["cd0"]
    a0 = np.deg2rad(a0)
    stall = np.deg2rad(stall)
    w = np.deg2rad(width)
    att = 1.0 / ((1 + np.exp(-(alpha + stall) / w)) * (1 + np.exp((alpha - stall) / w)))
    # 2*pi*sin attached flow, flat plate when separated
    cl = att * slope * np.sin(alpha - a0) * f + (1 - att) * 0.5 * cdmax * np.sin(2 * alpha)
    cd = cd0 / f + cdmax * np.sin(alpha) ** 2 * (1 - 0.8 * att)
    return cl, cd


class AnalyticFoil(object):
    """A user-supplied airfoil implementing the documented interface."""

    def __init__(self, p):
        self.p = p

    def _f(self, Re):
        e = self.p.get("reexp", 0.0)
        return (np.maximum(Re, 1.0) / 1e6) ** e if e else 1.0

    def evaluate(self, alpha, Re, return_cm=False):
        alpha = np.asarray(alpha, float)
        cl, cd = _foil_curve(self.p, alpha, self._f(np.asarray(Re, float)))
        return (cl, cd, 0 * cl) if return_cm else (cl, cd)

    def derivatives(self, alpha, Re):
        # complex step, exact
        h = 1e-30
        alpha = float(np.squeeze(alpha))
        Re = float(np.squeeze(Re))
        cl, cd = _foil_curve(self.p, alpha + 1j * h, self._f(Re))
        dla, dda = cl.imag / h, cd.imag / h
        e = self.p.get("reexp", 0.0)
        if e and Re > 1.0:
            f = ((Re + 1j * h * Re) / 1e6) ** e
            cl, cd = _foil_curve(self.p, alpha, f)
            dlr, ddr = cl.imag / (h * Re), cd.imag / (h * Re)
        else:
            dlr = ddr = 0.0
        return float(dla), float(dlr), float(dda), float(ddr)


def foil_params():
    return st.fixed_dictionaries(dict(
        a0=grid(-8, 4, 0.5), slope=grid(3, 7, 0.1), stall=grid(8, 20, 0.5), width=grid(2, 6, 0.5),
        cdmax=grid(0.6, 2.0, 0.05), cd0=grid(0.008, 0.05, 0.001)))


@st.composite
def foil_spec(draw, kinds=("table", "tableRe", "analytic", "analyticRe", "cyl")):
    k = draw(st.sampled_from(kinds))
    p = draw(foil_params())
    spec = dict(kind=k, p=p)
    if k == "analyticRe":
        p["reexp"] = draw(grid(0.02, 0.12, 0.01))
    if k == "tableRe":
        m = draw(st.integers(2, 5))
        lo = draw(st.sampled_from([1e5, 3e5, 1e6]))
        ratio = draw(st.sampled_from([1.5, 2.0, 4.0]))
        spec["Re"] = [float("%.6g" % (lo * ratio ** j)) for j in range(m)]
        spec["reexp"] = draw(grid(0.02, 0.12, 0.01))
    if k == "cyl":
        spec["cd"] = draw(mix(grid(0.2, 1.2, 0.05), grid(0.2, 1.2, 0.05), grid(0, 1.2, 0.05)))
        if draw(flag(0.15)):
            spec["cd"] = 0.0  # a section without forces
    return spec


def foil_table(spec):
    """(alpha deg, Re list, cl, cd) of a tabular spec"""
    al = np.array(ALPHAS, float)
    if spec["kind"] == "cyl":
        return al, [1e6], np.zeros((len(al), 1)), np.full((len(al), 1), spec["cd"])
    if spec["kind"] == "tableRe":
        cols = []
        for R in spec["Re"]:
            cols.append(_foil_curve(spec["p"], np.deg2rad(al), (R / 1e6) ** spec["reexp"]))
        return al, spec["Re"], np.array([c[0] for c in cols]).T, np.array([c[1] for c in cols]).T
    cl, cd = _foil_curve(spec["p"], np.deg2rad(al))
    return al, [1e6], cl.reshape(-1, 1), cd.reshape(-1, 1)


def build_foil(spec):
    from ccblade.ccblade import CCAirfoil

    if spec["kind"].startswith("analytic"):
        return AnalyticFoil(spec["p"])
    return CCAirfoil(*foil_table(spec))


# ---- rotors ------------------------------------------------------------------
def _r(x, nd=6):
    return float("%.*g" % (nd, x))


@st.composite
def rotor_spec(draw, nmin=2, nmax=7, iterRe=(1,), foil_kinds=("table", "tableRe", "analytic", "analyticRe", "cyl"),
               toggles=True, shape=True, wild=True, usecd=(True, True, True, False), ends=False):
    n = draw(st.integers(nmin, nmax))
    if nmax >= 5 and draw(flag(0.05)):
        n = draw(st.integers(nmax + 1, 4 * nmax))
    Rtip = _r(draw(mix(grid(0.5, 5, 0.25), grid(10, 100, 1))))
    hubfrac = draw(grid(0.02, 0.25, 0.01))
    Rhub = _r(hubfrac * Rtip)
    inc = [draw(st.integers(1, 12)) for _ in range(n + 1)]
    cum = np.cumsum(inc) / float(sum(inc))
    r = [_r(Rhub + (Rtip - Rhub) * f) for f in cum[:-1]]
    if ends and draw(flag(0.15)):  # end stations next to, but not at, hub and tip
        for j, e, sg in ((0, Rhub, 1), (-1, Rtip, -1)):
            d = draw(st.sampled_from([None, 1e-2, 1e-3, 1e-4, 1e-5]))
            v = e + sg * (d or 0) * (Rtip - Rhub)
            if d and (v < r[1] if j == 0 else v > r[-2]):
                r[j] = _r(v, 9)
    # solidity kept to what rotors have: chord below the circumference share
    croot = draw(grid(0.03, 0.2, 0.01))
    ctip = draw(grid(0.005, 0.1, 0.005))
    chord = [_r(Rtip * max(0.004, croot + (ctip - croot) * f + 0.01 * draw(st.integers(-2, 2)))) for f in cum[:-1]]
    tw0 = draw(grid(-5, 30, 0.5))
    tw1 = draw(grid(-10, 10, 0.5))
    theta = [_r(tw0 + (tw1 - tw0) * f + draw(st.integers(-2, 2))) for f in cum[:-1]]
    over = wild and draw(flag(0.1))  # overloaded: propeller brake state
    if over:
        d = _r(max(theta) - draw(grid(-12, 0, 0.5)))
        theta = [_r(v - d) for v in theta]
    reverse = wild and not over and draw(flag(0.05))  # thrust reversed by blades set far negative: inflow angle past 90 deg
    if reverse:
        d = _r(max(theta) - draw(grid(-60, -35, 1)))
        theta = [_r(v - d) for v in theta]
        if draw(flag(0.7)):
            sol = draw(st.sampled_from([1.0, 2.0, 4.0, 8.0]))
            chord = [_r(sol * v * 2 * np.pi / 3) for v in r]
    if wild and draw(flag(0.15)):
        j = draw(st.integers(0, n - 1))
        theta[j] = draw(grid(-60, 90, 1))
    s = dict(r=r, chord=chord, theta=theta, Rhub=Rhub, Rtip=Rtip)
    s["B"] = draw(st.sampled_from([3, 2, 1, 4, 5, 3, 2, 3, 6, 8]))
    s["rho"] = draw(st.sampled_from([1.225, 1.0, 0.9, 1.3, 1025.0]))
    s["mu"] = draw(st.sampled_from([1.81206e-5, 1.5e-5, 1e-3]))
    s["precone"] = draw(mix(st.just(0.0), grid(-12, 12, 0.5), grid(-4, 4, 0.5), grid(-20, 20, 1)))
    s["tilt"] = draw(mix(st.just(0.0), grid(-12, 12, 0.5), grid(-20, 20, 1)))
    s["yaw"] = draw(mix(st.just(0.0), grid(-40, 40, 1), grid(-5, 5, 0.5), grid(-60, 60, 2)))
    s["shearExp"] = draw(mix(st.just(0.0), grid(0.05, 0.5, 0.05), grid(-0.2, -0.05, 0.05)))
    s["nSector"] = draw(st.sampled_from([4, 8, 1, 2, 3, 5, 6, 7, 9, 4, 5, 6, 7, 8, 12, 16, 24, 4, 36, 10]))
    extent = Rtip
    s["precurve"] = s["presweep"] = None
    s["precurveTip"] = s["presweepTip"] = 0.0
    if shape:
        for key in ("precurve", "presweep"):
            if draw(flag(0.5)):
                amp = draw(grid(-0.12, 0.12, 0.01)) * Rtip
                expo = draw(st.sampled_from([1, 2, 3]))
                s[key] = [_r(amp * f ** expo + 0.002 * Rtip * draw(st.integers(-3, 3))) for f in cum[:-1]]
                tipv = _r(amp)
                # a tip value identical to the last station triggers the end-station adjustment: kept for C31
                if tipv == s[key][-1] and amp != 0:
                    tipv = _r(amp + 0.001 * Rtip)
                if tipv == s[key][-1]:
                    tipv = _r(0.001 * Rtip)
                s[key + "Tip"] = tipv
            elif draw(flag(0.1)):
                s[key + "Tip"] = _r(draw(grid(-0.2, 0.2, 0.05)) * Rtip)  # ignored without the curve itself
    s["hubHt"] = _r(draw(mix(grid(1.4, 4, 0.1), grid(1.4, 4, 0.1), grid(1.05, 1.3, 0.05))) * extent)
    s["tiploss"] = s["hubloss"] = s["wakerotation"] = s["usecd"] = True
    if toggles:
        s["tiploss"] = draw(flag(0.75))
        s["hubloss"] = draw(flag(0.75))
        s["wakerotation"] = draw(flag(0.75))
        s["usecd"] = draw(st.sampled_from(usecd))
        if over and draw(flag(0.7)):
            if False in usecd and draw(st.booleans()):
                s["usecd"] = False
            else:
                s["wakerotation"] = False
        if reverse:
            s["wakerotation"] = draw(flag(0.2))
    s["over"] = over
    s["reverse"] = reverse
    s["iterRe"] = draw(st.sampled_from(iterRe))
    if draw(flag(0.2)):  # numbers with more digits
        s["fine"] = True
        for k in ("precone", "tilt", "yaw", "shearExp", "hubHt"):
            s[k] = float("%.9g" % (s[k] * 1.0123457))
        s["theta"] = [float("%.9g" % (t * 1.0012345)) for t in s["theta"]]
    if draw(flag(0.08)):  # angles and shear which are small, but not zero
        for k in ("precone", "tilt", "yaw", "shearExp"):
            s[k] = draw(mix(st.just(0.0), st.sampled_from([0.01, -0.02, 0.04, 0.002, -0.1, 1e-4])))
    nf = draw(st.integers(1, 3))
    s["foils"] = [draw(foil_spec(foil_kinds)) for _ in range(nf)]
    s["afid"] = [min(nf - 1, int(f * nf)) for f in cum[:-1]]
    return s


@st.composite
def condition(draw, rotor, parked=True, reverse=False):
    U = draw(mix(grid(2, 26, 0.5), grid(3, 15, 0.5), grid(4, 25, 1), grid(0.5, 70, 0.5)))
    tsr = draw(mix(grid(3, 10, 0.25), grid(0.5, 16, 0.5)))
    if rotor.get("over"):
        tsr = draw(mix(grid(6, 30, 1), st.sampled_from([40, 60, 80, 120, 200])))
    if rotor.get("reverse"):
        tsr = draw(mix(grid(3, 10, 0.25), grid(0.5, 16, 0.5), grid(2, 30, 1), grid(0.5, 5, 0.5)))
    om = _r(tsr * U / rotor["Rtip"] * 30 / np.pi)
    if draw(flag(0.06)):  # hardly any wind at the same tip speed ratio, or hardly any rotation
        if draw(flag(0.7)):
            f = draw(st.sampled_from([0.1, 0.01, 1e-3, 1e-4, 3e-3]))
            U, om = _r(U * f), _r(om * f)
        else:
            om = _r(om * draw(st.sampled_from([0.1, 0.01, 1e-3, 1e-4, 1e-5, 1e-6])))
    kind = draw(st.integers(0, 19))
    if parked and kind == 19:
        om = 0.0
    if reverse and kind == 18:
        om = -om
    pitch = draw(mix(st.just(0.0), grid(-5, 15, 0.5), grid(-20, 90, 2)))
    if rotor.get("over") or rotor.get("reverse"):
        pitch = draw(mix(st.just(0.0), grid(-5, 5, 0.5)))
    elif draw(flag(0.05)):
        pitch = draw(grid(60, 270, 5))  # past feather
    az = draw(mix(st.just(0.0), grid(0, 360, 5), grid(-360, 720, 15)))
    if rotor.get("fine"):
        U, pitch, az = (float("%.9g" % (v * 1.0123457)) for v in (U, pitch, az))
    return dict(Uinf=U, Omega=om, pitch=pitch, azimuth=az)


@st.composite
def rotor_case(draw, ncond=1, parked=True, reverse=False, perstation=False, **kw):
    rot = draw(rotor_spec(**kw))
    m = draw(st.integers(1, ncond))
    if ncond > 1 and draw(flag(0.05)):
        m = draw(st.integers(ncond + 1, 3 * ncond))
    case = dict(rotor=rot, cond=[draw(condition(rot, parked, reverse)) for _ in range(m)])
    if perstation and draw(flag(0.2)):  # a wind speed for every station
        U = case["cond"][0]["Uinf"]
        d = draw(st.sampled_from([0.5, 0.5, 0.5, 1e-2, 1e-4]))
        case["U"] = [max(1.0, _r(U + draw(st.integers(-4, 4)) * d, 12)) for _ in rot["r"]]
    return case


def build_foils(rot):
    fs = [build_foil(f) for f in rot["foils"]]
    return [fs[i] for i in rot["afid"]]


ROTOR_KW = ("B", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "nSector", "precurveTip", "presweepTip",
            "tiploss", "hubloss", "wakerotation", "usecd", "iterRe")


def build_rotor(rot, afs=None, derivatives=False, **over):
    from ccblade.ccblade import CCBlade

    afs = afs or build_foils(rot)
    kw = {k: rot[k] for k in ROTOR_KW}
    for k in ("precurve", "presweep"):
        kw[k] = None if rot[k] is None else np.array(rot[k], float)
    kw["derivatives"] = derivatives
    args = dict(r=np.array(rot["r"]), chord=np.array(rot["chord"]), theta=np.array(rot["theta"]), af=afs,
                Rhub=rot["Rhub"], Rtip=rot["Rtip"])
    kw.update(args)
    kw.update(over)
    return CCBlade(**kw), afs


def ref_rotor(rot, afs):
    import refbem

    s = dict(rot)
    s["shear"] = rot["shearExp"]
    return refbem.Rotor(s, afs)
