"""C33: sections without relative wind carry no load, and this holds for their gradients."""
import warnings

import numpy as np
from hypothesis import strategies as st

import gens
from bemutil import LOADS
from core import arr, info, need, sut

ID = "C33"
N = dict(quick=1200, thorough=30000)
RULE = ("a rotor (parked, or turning without sweep and cone) in still air, or with still air at some of its stations, gradients on or "
        "off; loads, inductions and gradients of stations in still air must be zero, those of the other stations what a rotor without "
        "still stations has (the wind of one station has no influence on another); a batch with calm conditions in it must be zero "
        "there and unchanged elsewhere; one evaluation per compared answer; non-trivial: all")
KEYS = ("T", "Y", "Z", "Q", "My", "Mz", "Mb", "P")


@st.composite
def strategy_(draw):
    rot = draw(gens.rotor_spec(nmin=2, nmax=7))
    mode = draw(st.sampled_from(["still", "still", "stations", "stations", "batch"]))
    parked = draw(gens.flag(0.4))
    if not parked:
        rot["presweep"] = None
        rot["presweepTip"] = 0.0
    c = draw(gens.condition(rot, parked=False))
    if parked:
        c["Omega"] = 0.0
    case = dict(rotor=rot, cond=[c], mode=mode, deriv=draw(st.booleans()))
    if mode == "stations":
        n = len(rot["r"])
        u = [draw(st.sampled_from([0.0, 0.0, 0.0, c["Uinf"], c["Uinf"] * 0.9, c["Uinf"] * 1e-4])) for _ in range(n)]
        if not any(u):
            u[draw(st.integers(0, n - 1))] = c["Uinf"]
        if all(u):
            u[draw(st.integers(0, n - 1))] = 0.0
        case["U"] = u
    if mode == "batch":
        m = draw(st.integers(1, 3))
        cs = [dict(c)] + [dict(draw(gens.condition(rot, parked=False)), Omega=c["Omega"]) for _ in range(m)]
        calm = draw(st.integers(0, m))
        for j, x in enumerate(cs):
            if j == calm or draw(gens.flag(0.3)):
                x["Uinf"] = 0.0
        case["cond"] = cs
    return case


def strategy():
    return strategy_()


def call(b, U, c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with sut("distributedAeroLoads"):
            return b.distributedAeroLoads(U, c["Omega"], c["pitch"], c["azimuth"])


def evals(b, cs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), sut("evaluate"):
            return b.evaluate(*[np.array([x[k] for x in cs]) for k in ("Uinf", "Omega", "pitch")])


def near(x, y, what):
    x, y = np.asarray(x, float), np.asarray(y, float)
    need(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12 * np.max(np.abs(y[np.isfinite(y)]), initial=0.0), equal_nan=True),
         lambda: "%s: %s instead of %s" % (what, x.ravel()[:8], y.ravel()[:8]))


def zero(x, what):
    x = arr(x, None, what)
    need(not np.any(x), lambda: "%s is %s in still air" % (what, x.ravel()[:8]))


def check(case):
    rot, c, mode = case["rotor"], case["cond"][0], case["mode"]
    with sut("constructing the rotor"):
        b, afs = gens.build_rotor(rot, derivatives=case["deriv"])
    n = len(rot["r"])
    cls = [mode, "parked" if c["Omega"] == 0 else "turning"] + (["gradients"] if case["deriv"] else [])
    ev = 1
    if mode == "batch":
        O, E = evals(b, case["cond"])
        for j, x in enumerate(case["cond"]):
            if x["Uinf"] == 0:
                for q in KEYS:
                    zero(np.asarray(O[q])[j], "%s of condition %d" % (q, j))
                    if case["deriv"]:
                        for v, D in E["d" + q].items():
                            D = arr(D, None, "gradient d%s/d%s" % (q, v), finite=False)
                            row = D[j]
                            zero(row, "gradient d%s/%s of condition %d" % (q, v, j))
            else:
                o, e = evals(b, [x])
                for q in KEYS:
                    near(np.asarray(O[q])[j:j + 1], np.asarray(o[q]), "%s of condition %d next to calm ones" % (q, j))
                ev += 1
        return info(True, cls, ev)
    U = 0.0 if mode == "still" else np.array(case["U"])
    L, D = call(b, U, c)
    still = np.full(n, True) if mode == "still" else U == 0
    for q in LOADS:
        x = arr(L[q], (n,), q, finite=False)
        if q in ("Np", "Tp", "a", "ap"):
            zero(x[still], q)
    if case["deriv"]:
        for q in ("Np", "Tp"):
            for v, x in D["d" + q].items():
                x = arr(x, None, "gradient d%s/%s" % (q, v), finite=False)
                need(x.shape[:1] == (n,), lambda: "gradient d%s/%s has shape %s" % (q, v, x.shape))
                zero(x[still], "gradient d%s/%s" % (q, v))
    if mode == "still":
        O, E = evals(b, [dict(c, Uinf=0.0)])
        for q in KEYS:
            zero(O[q], q)
            if case["deriv"]:
                for v, x in E["d" + q].items():
                    zero(x, "gradient d%s/%s" % (q, v))
        ev += 1
    else:
        full = np.where(still, c["Uinf"], U)
        M, G = call(b, full, c)
        for q in LOADS:
            near(np.asarray(L[q])[~still], np.asarray(M[q])[~still], "%s of stations in the wind, next to still ones" % q)
        if case["deriv"]:
            for q in ("Np", "Tp"):
                for v in D["d" + q]:
                    near(np.asarray(D["d" + q][v])[~still], np.asarray(G["d" + q][v])[~still],
                         "gradient d%s/%s of stations in the wind, next to still ones" % (q, v))
        ev += 1
    return info(True, cls, ev)
