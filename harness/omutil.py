"""OpenMDAO problems around the components, and the direct use of the library they wrap."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import arr, need, sut

UNITS = dict(V_load="m/s", Omega_load="rpm", pitch_load="deg", azimuth_load="deg", Uhub="m/s", pitch="deg", r="m", chord="m",
             theta="deg", theta_in="rad", aoa_op="rad", Rhub="m", Rtip="m", hub_height="m", precone="deg", tilt="deg", yaw="deg",
             precurve="m", precurveTip="m", presweep="m", presweepTip="m", airfoils_aoa="deg", rho="kg/m**3", mu="kg/(m*s)",
             precurve_in="m", presweep_in="m")
OTHER = {"m/s": "km/h", "rpm": "rad/s", "deg": "rad", "m": "ft", "rad": "deg"}
FACTOR = {"m/s": 3.6, "rpm": np.pi / 30, "deg": np.pi / 180, "m": 1 / 0.3048, "rad": 180 / np.pi}
DISCRETE = ("nBlades", "nSector", "tiploss", "hubloss", "wakerotation", "usecd")


@st.composite
def rotor(draw, nre=(1, 1, 1, 2, 3), ntab=1, **kw):
    """a rotor whose polars share the angles and Reynolds numbers, as the components need"""
    rot = draw(gens.rotor_spec(foil_kinds=("table", "tableRe", "cyl"), **kw))
    m = draw(st.sampled_from(nre))
    Re = [float("%.6g" % (draw(st.sampled_from([1e5, 5e5, 1e6])) * 3.0 ** j)) for j in range(m)] if m == 1 else None
    if Re is None:
        lo = draw(st.sampled_from([1e5, 5e5, 1e6]))
        Re = [float("%.6g" % (lo * 3.0 ** j)) for j in range(m)]
    for f in rot["foils"]:
        if f["kind"] == "tableRe":
            f["Re"] = Re
            f["reexp"] = draw(gens.grid(0.02, 0.12, 0.01)) if m > 1 else 0.0
    rot["Re"] = Re
    return rot


def tables(rot, ntab=1, ref=0):
    """airfoils_aoa, airfoils_Re, cl, cd, cm of shape (n_span, n_aoa, n_Re, n_tab); tables other than ref are decoys"""
    n, m = len(rot["r"]), len(rot["Re"])
    al = np.array(gens.ALPHAS, float)
    a = np.deg2rad(al)
    out = [np.zeros((n, len(al), m, ntab)) for _ in range(3)]
    for i in range(n):
        _, _, cl, cd = gens.foil_table(rot["foils"][rot["afid"][i]])
        for t in range(ntab):
            s = 1.0 if t == ref else 0.5 + 0.2 * t
            out[0][i, :, :, t] = cl * s
            out[1][i, :, :, t] = cd * s
            # a break of the moment at stall, so that the unsteady parameters are defined; none for cylinders
            f = rot["foils"][rot["afid"][i]]
            if f["kind"] != "cyl":
                sa, w = np.deg2rad(f["p"]["stall"]), np.deg2rad(f["p"]["width"])
                cm = -0.05 - 0.2 * (1 / (1 + np.exp(-(a - sa) / w)) - 1 / (1 + np.exp((a + sa) / w))) * np.cos(a / 2)
                out[2][i, :, :, t] = s * cm[:, None]
    return al, np.array(rot["Re"]), out[0], out[1], out[2]


CHANGES = ("", "", "drag", "order", "moment", "mirror")


def changed(T, kind):
    """other polars at the same angles and Reynolds numbers: other drag, the stations the other way round, other moment,
    or lift and moment mirrored"""
    al, Re, cl, cd, cm = T
    if kind == "drag":
        cd = 1.25 * cd + 0.004
    elif kind == "order":
        cl, cd, cm = cl[::-1], cd[::-1], cm[::-1]
    elif kind == "moment":
        cm = cm + 0.05
    elif kind == "mirror":
        cl, cm = -cl[:, ::-1], -cm[:, ::-1]
        cd = cd[:, ::-1]
    return al, Re, cl, cd, cm


def afs(rot, T, t=0):
    from ccblade.ccblade import CCAirfoil

    al, Re, cl, cd, cm = T
    return [CCAirfoil(al, Re, cl[i, :, :, t], cd[i, :, :, t], cm[i, :, :, t]) for i in range(len(rot["r"]))]


def options(rot, T, **kw):
    d = dict(n_span=len(rot["r"]), n_aoa=len(T[0]), n_Re=len(T[1]), n_tab=T[2].shape[3])
    d.update(kw)
    return {"WISDEM": {"RotorSE": d}}


def problem(comp):
    import openmdao.api as om

    p = om.Problem(reports=False)
    p.model.add_subsystem("comp", comp, promotes=["*"])
    p.setup()
    return p


def setv(p, name, v, alt=False):
    """set an input; alt: in a different unit of the same quantity"""
    u = UNITS.get(name)
    if name in DISCRETE or u is None:
        p.set_val(name, v)
    elif alt and u in OTHER:
        p.set_val(name, np.asarray(v, float) * FACTOR[u], units=OTHER[u])
    else:
        p.set_val(name, v, units=u)


DEFAULT = dict(precone=0.0, tilt=0.0, yaw=0.0, pitch=0.0, precurve=0.0, precurveTip=0.0, presweep=0.0, presweepTip=0.0, shearExp=0.0,
               tiploss=True, hubloss=True, wakerotation=True, usecd=True)


def left(p, name, v, leave):
    """leave an input unset that is to have the library's default; it has to have it by itself"""
    if not leave or name not in DEFAULT or not np.all(np.asarray(v) == DEFAULT[name]):
        return False
    x = np.asarray(p.get_val(name))
    need(np.all(x == DEFAULT[name]), lambda: "input %s left unset is %s, the library's default is %s" % (name, x, DEFAULT[name]))
    return True


def getv(p, name):
    u = UNITS.get(name)
    if name in DISCRETE:
        return p.get_val(name)
    v = np.array(p.get_val(name, units=u), float)
    return v


ONE = ("chord", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurve", "precurveTip", "rho", "mu", "shearExp", "nBlades",
       "nSector", "tiploss", "hubloss", "wakerotation", "usecd", "V_load", "Omega_load", "pitch_load")


def change_one(p, name):
    """another value for one input of the component"""
    v = p.get_val(name)
    if name in ("tiploss", "hubloss", "wakerotation", "usecd"):
        p.set_val(name, not v)
    elif name in ("nBlades", "nSector"):
        p.set_val(name, int(v) + 1)
    elif name in ("precone", "tilt", "yaw", "pitch_load", "precurve", "precurveTip", "presweep", "presweepTip"):
        setv(p, name, getv(p, name) + 0.3)
    elif name == "shearExp":
        p.set_val(name, v + 0.05)
    elif name == "Rhub":
        setv(p, name, getv(p, name) * 0.9)
    else:
        setv(p, name, getv(p, name) * 1.04)


@st.composite
def one_changes(draw, k, presweep=True):
    """for every later step: the only input that changes, or None for a new condition"""
    names = ONE + (("presweep", "presweepTip") if presweep else ("azimuth_load",))
    return [None] + [draw(st.sampled_from(names)) if draw(gens.flag(0.6)) else None for _ in range(k - 1)]


@st.composite
def to_the_ends(draw, rot):
    """in part the first and last stations are at the very hub and tip, the last curvature is the one of the tip"""
    if draw(gens.flag(0.3)):
        w = draw(st.sampled_from(["both", "both", "hub", "tip"]))
        if w != "tip" and rot["Rhub"] < rot["r"][1]:
            rot["r"][0] = rot["Rhub"]
        if w != "hub" and rot["Rtip"] > rot["r"][-2]:
            rot["r"][-1] = rot["Rtip"]
            for q in ("precurve", "presweep"):
                if rot[q] is not None and draw(st.booleans()):
                    rot[q + "Tip"] = rot[q][-1]
    return rot


def blade_inputs(rot, presweep=True):
    n = len(rot["r"])
    z = [0.0] * n
    d = dict(r=rot["r"], chord=rot["chord"], theta=rot["theta"], Rhub=rot["Rhub"], Rtip=rot["Rtip"], hub_height=rot["hubHt"],
             precone=rot["precone"], tilt=rot["tilt"], yaw=rot["yaw"], precurve=rot["precurve"] or z,
             precurveTip=rot["precurveTip"], rho=rot["rho"], mu=rot["mu"], shearExp=rot["shearExp"], nBlades=rot["B"],
             nSector=rot["nSector"])
    if presweep:
        d.update(presweep=rot["presweep"] or z, presweepTip=rot["presweepTip"])
    for k in ("tiploss", "hubloss", "wakerotation", "usecd"):
        d[k] = bool(rot[k])
    return d


def set_tables(p, T):
    for k, v in zip(("aoa", "Re", "cl", "cd", "cm"), T):
        setv(p, "airfoils_" + k, v)


def direct(p, af, presweep=True, derivatives=False, theta=None):
    """the rotor the component's current inputs describe"""
    from ccblade.ccblade import CCBlade

    g = {k: getv(p, k) for k in ("r", "chord", "precurve", "Rhub", "Rtip", "hub_height", "precone", "tilt", "yaw", "precurveTip",
                                 "rho", "mu", "shearExp") + (("presweep", "presweepTip") if presweep else ())}
    f = lambda k: float(g[k][0])
    g["theta"] = getv(p, "theta") if theta is None else theta
    kw = dict(precone=f("precone"), tilt=f("tilt"), yaw=f("yaw"), shearExp=f("shearExp"), hubHt=f("hub_height"),
              nSector=int(p.get_val("nSector")), precurve=g["precurve"], precurveTip=f("precurveTip"), derivatives=derivatives)
    if presweep:
        kw.update(presweep=g["presweep"], presweepTip=f("presweepTip"))
    for k in ("tiploss", "hubloss", "wakerotation", "usecd"):
        kw[k] = bool(p.get_val(k))
    with sut("constructing the rotor"):
        return CCBlade(g["r"], g["chord"], g["theta"], af, f("Rhub"), f("Rtip"), int(p.get_val("nBlades")), f("rho"), f("mu"), **kw)


def totals(p, of, wrt):
    with sut("compute_totals"):
        J = p.compute_totals(of=list(of), wrt=list(wrt))
    return {k: arr(v, None, "d%s/d%s" % k, finite=False) for k, v in J.items()}
