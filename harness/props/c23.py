"""C23: the twist component: analysis at a given twist and twist from requested angles of attack."""
import numpy as np
from hypothesis import strategies as st

import gens
import omutil
import refbem
from core import arr, close, info, need, skip, sut

ID = "C23"
N = dict(quick=640, thorough=12000)
RULE = ("a random rotor at a tip speed ratio and pitch. Analysis mode (one or three airfoil tables): every output against the library "
        "called directly, lift and drag also against the dynamic pressure, loads in the airfoil frame against an explicit rotation. "
        "Inverse mode (uniform axial inflow): the returned twist must give the requested angle of attack in an independent blade "
        "element model, capped at 20 deg from the tip inwards, smoothed if asked for, and all outputs must be those of that twist; "
        "one evaluation per compared output; non-trivial: a loaded rotor")
ASSUMPTIONS = ["in inverse mode the polars do not depend on the Reynolds number, there is one airfoil table and the inflow is the same at "
               "every azimuth"]


GEOM = ("r", "Rhub", "Rtip", "precurve", "precurveTip", "presweep", "presweepTip")


@st.composite
def strategy_(draw):
    inv = draw(gens.flag(0.5))
    rot = draw(omutil.rotor(nmin=3, nmax=6, nre=(1,) if inv else (1, 1, 2, 3)))
    n = len(rot["r"])
    rot = draw(omutil.to_the_ends(rot))
    if inv:
        rot["tilt"] = rot["yaw"] = rot["shearExp"] = 0.0
    c = dict(Uhub=draw(gens.fgrid(3, 20, 0.5)), tsr=draw(gens.fgrid(2, 12, 0.25)), pitch=draw(gens.mix(st.just(0.0), gens.fgrid(-4, 10, 0.5))))
    case = dict(rotor=rot, cond=c, inverse=inv, ntab=1 if inv else draw(st.sampled_from([1, 1, 3, 2])),
                alt=[draw(st.booleans()) for _ in range(16)],
                s_opt=[0.0] + sorted(draw(st.sets(gens.grid(0.05, 0.95, 0.05), min_size=1, max_size=5))) + [1.0])
    if inv:
        k = draw(st.integers(0, min(2, n - 2)))
        case["rthick"] = [draw(gens.mix(st.just(100.0), gens.fgrid(95, 99.9, 0.7), st.just(95.0))) for _ in range(k)] + [draw(gens.mix(gens.grid(15, 90, 5), gens.grid(15, 90, 5), gens.fgrid(90, 94.9, 0.7), gens.fgrid(95, 99.9, 0.7), st.just(95.0)) if j else gens.grid(15, 90, 5)) for j in range(n - k)]
        case["aoa"] = [draw(gens.mix(gens.fgrid(0, 12, 0.5), gens.fgrid(-15, 12, 0.5), st.just(None), gens.fgrid(12, 40, 1))) for _ in range(n)]
        case["margin"] = draw(gens.fgrid(1, 6, 0.5))
        case["smooth"] = draw(gens.flag(0.4))
    case["leave"] = draw(gens.flag(0.3))
    return case


def strategy():
    return strategy_()


def opts(case, **tw):
    t = dict(n_opt=len(case["s_opt"]), inverse=case["inverse"], flag=False)
    t.update(tw)
    return {"design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": 4}, "twist": t}}},
            "constraints": {"blade": {"stall": {"margin": float(np.radians(case.get("margin", 3.0)))}}}}


def make(case, T, inn=False, **tw):
    from ccblade.ccblade_component import CCBladeTwist

    rot = case["rotor"]
    with sut("setting up the component"):
        p = omutil.problem(CCBladeTwist(modeling_options=omutil.options(rot, T, inn_af=inn), opt_options=opts(case, **tw)))
    omutil.set_tables(p, T)
    ins = omutil.blade_inputs(rot)
    th = ins.pop("theta")
    ins["theta_in"] = np.radians(th)
    ins.update(case["cond"])
    ends = rot["r"][0] == rot["Rhub"] or rot["r"][-1] == rot["Rtip"]
    for j, (k, v) in enumerate(ins.items()):
        # stations at the very hub or tip stay there only without a conversion of units
        with sut("setting " + k):
            if not omutil.left(p, k, v, case.get("leave")):
                omutil.setv(p, k, v, case["alt"][j % 16] and not (ends and k in GEOM))
    omutil.setv(p, "s_opt_theta", case["s_opt"])
    if case["inverse"]:
        omutil.setv(p, "rthick", case["rthick"])
        omutil.setv(p, "aoa_op", [np.pi if a is None else np.radians(a) for a in case["aoa"]])
    return p


def run(p):
    with sut("run_model"):
        p.run_model()
    return p


def judge_outputs(p, case, af, theta):
    """all outputs belong to this twist (rad)"""
    rot = case["rotor"]
    n = len(rot["r"])
    g = lambda k: float(omutil.getv(p, k)[0])
    U, pitch = g("Uhub"), g("pitch")
    r = omutil.getv(p, "r")
    Om = float(p.get_val("tsr")[0]) * U / r[-1] * 30 / np.pi
    b = omutil.direct(p, af, theta=np.degrees(theta))
    with sut("distributedAeroLoads"):
        L, _ = b.distributedAeroLoads(U, Om, pitch, 0.0)
        L = {k: arr(v, (n,), k, finite=False) for k, v in L.items()}
    with sut("evaluate"):
        O, _ = b.evaluate([U], [Om], [pitch], coefficients=True)
    if not all(np.all(np.isfinite(L[k])) for k in ("Np", "W")) or not np.all(np.isfinite(np.asarray(O["CP"]))):
        return None
    ev = 0
    s = (r - r[0]) / (r[-1] - r[0])
    so = np.array(case["s_opt"])
    ld = float(np.max(np.hypot(L["Np"], L["Tp"])))

    def eq(k, ref, units=None, scale=0.0, tol=1e-7):
        nonlocal ev
        close(np.ravel(p.get_val(k, units=units) if units else p.get_val(k)), np.ravel(ref), tol, k, scale=scale)
        ev += 1

    phi = np.radians(L["alpha"] + pitch) + theta
    # a solution at a switch of the model or close to a second one may move with round-off in the twist
    eq("alpha", L["alpha"], "deg", scale=1.0)
    eq("a", L["a"], scale=1.0)
    eq("ap", L["ap"], scale=1.0)
    eq("cl", L["Cl"], scale=1.0)
    eq("cd", L["Cd"], scale=1.0)
    eq("cl_n_opt", np.interp(so, s, L["Cl"]), scale=1.0)
    eq("cd_n_opt", np.interp(so, s, L["Cd"]), scale=1.0)
    eq("Px_b", L["Np"], "N/m", scale=ld)
    eq("Py_b", -L["Tp"], "N/m", scale=ld)
    eq("Pz_b", np.zeros(n), "N/m")
    t = theta + np.radians(pitch)
    c, si = np.cos(t), np.sin(t)
    eq("Px_af", c * L["Np"] + si * L["Tp"], "N/m", scale=ld)
    eq("Py_af", si * L["Np"] - c * L["Tp"], "N/m", scale=ld)
    eq("Pz_af", np.zeros(n), "N/m")
    q = 0.5 * g("rho") * L["W"] ** 2 * omutil.getv(p, "chord")
    eq("LiftF", q * L["Cl"], "N/m", scale=ld)
    eq("DragF", q * L["Cd"], "N/m", scale=ld)
    eq("L_n_opt", np.interp(so, s, q * L["Cl"]), "N/m", scale=ld)
    eq("D_n_opt", np.interp(so, s, q * L["Cd"]), "N/m", scale=ld)
    for k, o in (("CP", "CP"), ("CM", "CMb"), ("P", "P"), ("T", "T"), ("Q", "Q"), ("M", "Mb")):
        sc = {"CP": 1e-3, "CM": 1e-3, "P": abs(Om) * np.pi / 30 * ld * r[-1] ** 2, "T": ld * r[-1], "Q": ld * r[-1] ** 2, "M": ld * r[-1] ** 2}[k]
        eq(k, np.asarray(O[o], float), scale=sc)
    eq("local_airfoil_velocities", np.asarray(O["W"], float), "m/s")
    return ev


def stall(al, cl, cd, cm):
    """alpha1 of the library, checked on its own (C25)"""
    from ccblade.ccblade import CCAirfoil

    a = CCAirfoil(al, [1e6], cl.reshape(-1, 1), cd.reshape(-1, 1), cm.reshape(-1, 1))
    try:
        a.eval_unsteady(al, cl, cd, cm)
    except Exception:
        return None  # no break point of the moment: outside the domain of the extraction (C25)
    return float(a.unsteady["alpha1"])


def check(case):
    rot = case["rotor"]
    n = len(rot["r"])
    nt = case["ntab"]
    ref = nt // 2
    T = omutil.tables(rot, nt, ref)
    af = omutil.afs(rot, T, ref)
    cls = []
    want = []
    for i in range(n if case["inverse"] else 0):
        if case["aoa"][i] is None:
            a1 = stall(T[0], T[2][i, :, 0, 0], T[3][i, :, 0, 0], T[4][i, :, 0, 0])
            if a1 is None:
                return skip("no stall point in the moment data")
            want.append(a1 - case["margin"])
        else:
            want.append(case["aoa"][i])
    p = run(make(case, T))
    theta = arr(p.get_val("theta", units="rad"), (n,), "theta")
    if not case["inverse"]:
        close(theta, omutil.getv(p, "theta_in"), 1e-13, "theta")
        ev = judge_outputs(p, case, af, theta)
        if ev is None:
            return skip("no solution at a station")
        return info(True, ["analysis", "n_tab=%d" % nt, "n_Re=%d" % len(rot["Re"])], ev)
    cls.append("inverse")
    # the same problem with twist also a design variable is refused
    pb = make(case, T, flag=True)
    try:
        pb.run_model()
    except Exception:
        pass
    else:
        need(False, "twist both optimised and obtained by inversion was accepted")
    ev = 1
    first = next(i for i in range(n) if case["rthick"][i] < 95)
    # the independent model at the twist of every station outside the cap
    g = lambda k: float(omutil.getv(p, k)[0])
    r = omutil.getv(p, "r")
    Om = float(p.get_val("tsr")[0]) * g("Uhub") / r[-1] * 30 / np.pi
    spec = dict(inside(rot), theta=list(np.degrees(theta)), shear=rot["shearExp"])
    cap = np.radians(20.0)
    need(np.all(theta <= cap + 1e-9), lambda: "twist above 20 deg: %s" % np.degrees(theta))
    R = refbem.Rotor(spec, af)
    Vx, Vy = R.wind(g("Uhub"), Om, 0.0)
    res = 0
    k = int(np.max(np.flatnonzero(np.abs(theta - cap) < 1e-12))) if np.any(np.abs(theta - cap) < 1e-12) else -1
    if k >= 0:
        need(np.all(np.abs(theta[: k + 1] - cap) < 1e-12), lambda: "twist inboard of a capped station: %s" % np.degrees(theta))
        cls.append("capped")
    worst = 0.0
    for i in range(k + 1, n):
        if i < first:
            # thick sections at the root are set to the angle of the first thinner one; without lift whatever the angle
            if rot["foils"][rot["afid"][i]]["kind"] != "cyl":
                continue
            want[i] = want[first]
        # the twist moves the section to the requested angle of attack: the residual vanishes there
        phi = np.radians(want[i] + g("pitch")) + theta[i]
        h = 1e-7
        f = R.residual_at(i, [phi, phi - h, phi + h], g("pitch"), Vx, Vy)
        if not np.all(np.isfinite(f)):
            continue
        # at fixed coefficients the residual depends on phi only: its step to the root
        S = slope(R, i, phi, theta[i], g("pitch"), Vx, Vy)
        if S is None or abs(S) < 1e-8:
            continue
        err = abs(f[0] / S)
        need(err < 1e-6, lambda: "station %d: with twist %.9g deg the angle of attack %.6g deg asked for is off by %.3g deg" % (
            i, np.degrees(theta[i]), want[i], np.degrees(err)))
        res += 1
        ev += 1
    if any(a is None for a in case["aoa"][first:]):
        cls.append("stall margin")
    if first:
        cls.append("thick root")
    e = judge_outputs(p, case, af, theta)
    if e is None:
        return skip("no solution at a station")
    ev += e
    if case["smooth"]:
        from scipy.interpolate import PchipInterpolator

        p2 = run(make(case, T, inn=True))
        s = (r - r[0]) / (r[-1] - r[0])
        so = np.array(case["s_opt"])
        t2 = PchipInterpolator(so, PchipInterpolator(s, theta)(so))(s)
        close(p2.get_val("theta", units="rad"), t2, 1e-10, "smoothed twist", scale=1e-3)
        e = judge_outputs(p2, case, af, arr(p2.get_val("theta", units="rad"), (n,), "theta"))
        if e is not None:
            ev += e + 1
            cls.append("smoothed")
    return info(res > 0, cls, ev)


def inside(rot):
    """end stations at the very hub and tip behave like stations just inside (C31)"""
    rot = dict(rot)
    r0 = np.array(rot["r"], float)
    f = (r0 - r0[0]) / (r0[-1] - r0[0])
    fh, ft = min(0.01, 0.5 * f[1]), max(0.99, 0.5 * (f[-2] + 1.0))
    rr = list(rot["r"])
    if rr[0] == rot["Rhub"]:
        rr[0] = float(np.interp(fh, f, r0))
    if rr[-1] == rot["Rtip"]:
        rr[-1] = float(np.interp(ft, f, r0))
    for q in ("precurve", "presweep"):
        if rot[q] is not None and rot[q + "Tip"] == rot[q][-1]:
            rot[q] = list(rot[q][:-1]) + [float(np.interp(ft, f, rot[q]))]
    rot["r"] = rr
    return rot


def slope(R, i, phi, theta, pitch, Vx, Vy):
    """derivative of the residual with respect to the inflow angle at fixed lift and drag (twist follows)"""
    h = 1e-6
    old = R.v["theta"][i]
    try:
        f = []
        for d in (-h, h):
            R.v["theta"][i] = np.degrees(theta + d)
            f.append(R.residual_at(i, [phi + d], pitch, Vx, Vy)[0])
        if not np.all(np.isfinite(f)):
            return None
        return (f[1] - f[0]) / (2 * h)
    finally:
        R.v["theta"][i] = old
