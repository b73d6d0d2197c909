"""C12: any array-like form of the inputs gives the same answer and the caller's data is left alone."""
import copy

import numpy as np
from hypothesis import strategies as st

import gens
from bemutil import LOADS
from core import Violation, close, info, need, same, skip, sut

ID = "C12"
N = dict(quick=1600, thorough=40000)
RULE = ("a random rotor whose lengths and angles are whole numbers in part of the cases; every array argument of the constructor and "
        "every condition is given in a random form (list, tuple, integer array, strided view, read-only array, scalar, list, "
        "1-D or 2-D array for the 1-3 conditions) and compared with plain float arrays; arguments by keyword, by "
        "position, or left out where the published default is meant; all caller data is compared with a copy "
        "afterwards; one evaluation per compared output; non-trivial: at least one argument is not a plain float array")
ARGS = ("r", "chord", "theta", "precurve", "presweep")
DEFAULT = dict(B=3, rho=1.225, mu=1.81206e-5, precone=0.0, tilt=0.0, yaw=0.0, shearExp=0.2, hubHt=80.0, nSector=8, precurve=None,
               precurveTip=0.0, presweep=None, presweepTip=0.0, tiploss=True, hubloss=True, wakerotation=True, usecd=True, iterRe=1,
               derivatives=False)  # as published, in the order of the arguments
FORM = ("array", "list", "tuple", "int", "int32", "strided", "readonly", "fortran", "object")


@st.composite
def strategy_(draw):
    rot = draw(gens.rotor_spec(nmax=5))
    if draw(gens.flag(0.5)):
        n = len(rot["r"])
        rot["Rhub"], rot["Rtip"] = 2.0, 30.0
        rot["r"] = [float(x) for x in sorted(draw(st.sets(st.integers(3, 29), min_size=n, max_size=n)))]
        rot["chord"] = [float(draw(st.integers(1, 3))) for _ in range(n)]
        rot["theta"] = [float(round(t)) for t in rot["theta"]]
        rot["hubHt"] = 60.0
        for q in ("precurve", "presweep"):
            if rot[q] is not None:
                rot[q] = [float(draw(st.integers(-2, 2))) for _ in range(n)]
                rot[q + "Tip"] = rot[q][-1] + 1.0
        if draw(gens.flag(0.3)):
            rot["r"][0] = rot["Rhub"]
        if draw(gens.flag(0.3)):
            rot["r"][-1] = rot["Rtip"]
    c = draw(gens.condition(rot))
    c["Uinf"], c["Omega"] = float(round(c["Uinf"])), float(max(0, round(c["Omega"])))
    forms = {q: draw(st.sampled_from(FORM)) for q in ARGS}
    cform = draw(st.sampled_from(["scalar", "list", "array", "int", "np", "nested", "column", "row", "tuple"]))
    cs = [c]
    if cform not in ("scalar", "int", "np"):
        for _ in range(draw(st.integers(0, 2))):
            cs.append(dict(c, Uinf=float(draw(st.integers(3, 20))), Omega=c["Omega"] + draw(st.integers(0, 3)), pitch=draw(gens.grid(-5, 15, 0.5))))
    call = draw(st.sampled_from(["keywords", "keywords", "positions", "defaults left out"]))
    if call == "defaults left out":
        for q in ("B", "rho", "mu", "shearExp", "nSector", "hubHt"):
            if draw(gens.flag(0.3)) and (q != "hubHt" or rot["Rtip"] < 50):
                rot[q] = DEFAULT[q]
    return dict(rotor=rot, cond=cs, forms=forms, cform=cform, deriv=draw(st.booleans()), call=call)


def strategy():
    return strategy_()


def form(x, f):
    a = np.array(x, float)
    whole = np.all(a == np.round(a))
    if f == "list":
        return [int(v) for v in a] if whole else list(x)
    if f == "tuple":
        return tuple(x)
    if f == "int" and whole:
        return a.astype(int)
    if f == "int32" and whole:
        return a.astype(np.int32)
    if f == "fortran":
        return np.array([a, a + 1, a - 1])[:, ::-1][0][::-1]
    if f == "object":
        return [np.float64(v) for v in a]
    if f == "strided":
        b = np.full(2 * len(a), 9e9)
        b[::2] = a
        return b[::2]
    if f == "readonly":
        a.flags.writeable = False
        return a
    return a


def cnd(v, f):
    x = v[0]
    if f == "list":
        return list(v)
    if f == "tuple":
        return tuple(v)
    if f == "array":
        return np.array(v)
    if f == "nested":  # as the OpenMDAO components give them
        return [np.array([y]) for y in v]
    if f == "column":
        return np.array(v).reshape(-1, 1)
    if f == "row":
        return [list(v)]
    if f == "int":
        return int(x) if x == round(x) else x
    if f == "np":
        return np.float64(x)
    return x


def construct(rot, afs, deriv, args, call):
    from ccblade.ccblade import CCBlade

    if call == "keywords":
        return gens.build_rotor(rot, afs=afs, derivatives=deriv, **args)[0]
    first = [args.get(q, rot.get(q)) for q in ("r", "chord", "theta")] + [afs, rot["Rhub"], rot["Rtip"]]
    rest = {q: args[q] if q in args else (deriv if q == "derivatives" else rot[q]) for q in DEFAULT}
    if call == "positions":
        return CCBlade(*first, *rest.values())
    return CCBlade(*first, **{q: v for q, v in rest.items() if q in args or v != DEFAULT[q]})


def check(case):
    rot, cs, forms = case["rotor"], case["cond"], case["forms"]
    c = cs[0]
    afs = gens.build_foils(rot)
    with sut("constructing the rotor from float arrays"):
        b1, _ = gens.build_rotor(rot, afs=afs, derivatives=case["deriv"])
    args = {q: form(rot[q], forms[q]) for q in ARGS if rot[q] is not None}
    kept = copy.deepcopy(args)
    aflist = list(afs)
    with sut("constructing the rotor from %s" % forms):
        b2 = construct(rot, aflist, case["deriv"], args, case.get("call", "keywords"))
    f = case["cform"]
    cc = {q: cnd([x[q] for x in cs], f) for q in ("Uinf", "Omega", "pitch")}
    ckept = copy.deepcopy(cc)
    with sut("distributedAeroLoads with float arrays"):
        L1, D1 = b1.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], c["azimuth"])
        O1, E1 = b1.evaluate(*[np.array([x[q] for x in cs]) for q in ("Uinf", "Omega", "pitch")], coefficients=True)
    with sut("distributedAeroLoads with %s" % forms):
        L2, D2 = b2.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], c["azimuth"])
    with sut("evaluate with conditions as %s" % f):
        O2, E2 = b2.evaluate(cc["Uinf"], cc["Omega"], cc["pitch"], coefficients=True)
    ev = 0
    if np.all(np.isfinite(np.array(L1["W"], float))):
        for q in LOADS:
            close(L2[q], L1[q], 1e-12, "%s (arguments as %s)" % (q, forms), scale=1e-30)
            ev += 1
        for q in ("T", "Y", "Z", "Q", "My", "Mz", "Mb", "P"):
            for x in (q, "C" + q):
                ref = np.asarray(O1[x], float)
                need(np.shape(O2[x]) == (len(cs),), lambda: "%s has shape %s for %d conditions (given as %s)" % (x, np.shape(O2[x]), len(cs), f))
                if np.all(np.isfinite(ref)):
                    close(np.asarray(O2[x], float), ref, 1e-12, "%s (conditions as %s)" % (x, f), scale=1e-30)
                    ev += 1
        if case["deriv"]:
            for q in ("Np", "Tp"):
                for v in D1["d" + q]:
                    ref = np.asarray(D1["d" + q][v], float)
                    if np.all(np.isfinite(ref)):
                        close(D2["d" + q][v], ref, 1e-12, "d%s/%s" % (q, v), scale=1e-30)
                        ev += 1
    for q in args:
        need(type(args[q]) is type(kept[q]), "%s changed type" % q)
        same(np.asarray(args[q]), np.asarray(kept[q]), "the caller's %s" % q)
    for q in cc:
        same(np.asarray(cc[q]), np.asarray(ckept[q]), "the caller's %s" % q)
    need(len(aflist) == len(afs) and all(x is y for x, y in zip(aflist, afs)), "the caller's list of polars was changed")
    odd = [q for q in args if forms[q] != "array"]
    return info(bool(odd) or f not in ("array",), ["form " + forms[q] for q in args] + ["conditions " + f, "arguments by " + case.get("call", "keywords")], ev)
