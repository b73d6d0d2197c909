"""C34: objects own their data: what the caller does to arrays given or returned, or to a copy, does not change them."""
import copy
import pickle
import warnings

import numpy as np
from hypothesis import strategies as st

import gens
import polargen as pg
from core import info, need, same, skip, sut

ID = "C34"
N = dict(quick=1600, thorough=40000)
RULE = ("rotors, splined airfoils, polars, sets of polars and direction vectors are built from the caller's own arrays and used; then the "
        "caller overwrites every array given to the constructors and methods and every array, polar or dictionary got back (or works on a "
        "deep or pickled copy of the object), and uses the object again: the answers must be those of an object built from private "
        "copies of the data, and earlier results stay as they were; one evaluation per compared answer; non-trivial: all")
ASSUMPTIONS = ["left out: the list of airfoils given to CCBlade, the outline (x, y) given to CCAirfoil, and the polar itself returned by "
               "an extrapolation that cannot be done (documented to return the object itself)"]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["rotor", "rotor", "foil", "polar", "airfoil", "airfoil"]))
    case = dict(kind=kind, how=draw(st.sampled_from(["given", "returned", "both", "deepcopy", "pickle"])))
    if kind == "rotor":
        case["rotor"] = draw(gens.rotor_spec(nmin=2, nmax=5))
        case["cond"] = [draw(gens.condition(case["rotor"])) for _ in range(draw(st.integers(1, 3)))]
        case["deriv"] = draw(st.booleans())
        case["perst"] = draw(gens.flag(0.3))
    elif kind == "foil":
        case["foil"] = draw(gens.foil_spec(("table", "tableRe", "tableRe")))
        case["cm"] = draw(st.booleans())
        case["at"] = [[draw(gens.fgrid(-180, 180, 2.5)), draw(gens.grid(1e5, 1e7, 1e5))] for _ in range(draw(st.integers(1, 4)))]
    else:
        case["P"] = draw(pg.airfoil(nmax=3, linear=True))
        case["q"] = draw(pg.polar(linear=True))
        case["Re"] = draw(gens.grid(1e5, 1e7, 1e5))
    return case


def strategy():
    return strategy_()


def spoil(x, depth=0):
    """overwrite all there is in a result"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fiu" and x.flags.writeable:
            x[...] = 77
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        del x[:]
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif hasattr(x, "polars"):
        for p in x.polars:
            spoil(p, depth + 1)
        del x.polars[:]
    elif hasattr(x, "cl") and hasattr(x, "Re"):
        for k in ("alpha", "cl", "cd", "cm"):
            spoil(getattr(x, k))
        x.Re = -5.0


def flat(x, out, path=""):
    """numbers of a result, with where they are"""
    if isinstance(x, dict):
        for k in sorted(x):
            flat(x[k], out, path + "/" + str(k))
    elif isinstance(x, (list, tuple)) and not all(np.isscalar(v) for v in x):
        for k, v in enumerate(x):
            flat(v, out, path + "/" + str(k))
    elif hasattr(x, "polars"):
        flat(list(x.polars), out, path)
    elif hasattr(x, "cl") and hasattr(x, "Re"):
        for k in ("Re", "alpha", "cl", "cd", "cm"):
            flat(getattr(x, k), out, path + "/" + k)
    elif x is not None:
        out.append((path, np.array(x)))
    return out


def agree(got, ref, what):
    need(len(got) == len(ref), lambda: "%s: %d results instead of %d" % (what, len(got), len(ref)))
    for (p, g), (_, r) in zip(got, ref):
        same(g, r, "%s: %s" % (what, p))


# ---- the objects: how they are built from arrays, and what is asked of them ----
def rotor(case):
    rot = case["rotor"]
    args = {k: np.array(rot[k], float) for k in ("r", "chord", "theta", "precurve", "presweep") if rot[k] is not None}
    afs = gens.build_foils(rot)

    def make(a):
        return gens.build_rotor(rot, afs=list(afs), derivatives=case["deriv"], **a)[0]

    def ask(b, keep):
        c = case["cond"][0]
        U = np.array([max(1.0, c["Uinf"] - 0.5 * (j % 3)) for j in range(len(rot["r"]))]) if case["perst"] else c["Uinf"]
        V = [np.array([x[k] for x in case["cond"]]) for k in ("Uinf", "Omega", "pitch")]
        with np.errstate(all="ignore"), sut("distributedAeroLoads"):
            L = b.distributedAeroLoads(U, c["Omega"], c["pitch"], c["azimuth"])
        with np.errstate(all="ignore"), sut("evaluate"):
            E = b.evaluate(*V, coefficients=True)
        keep += [U] + V
        return dict(loads=L, outputs=E)

    return args, make, ask


def foil(case):
    from ccblade.ccblade import CCAirfoil

    al, Re, cl, cd = gens.foil_table(case["foil"])
    args = dict(alpha=np.array(al, float), Re=np.array(Re, float), cl=np.array(cl), cd=np.array(cd))
    if case["cm"]:
        args["cm"] = 0.1 * np.array(cl) - 0.02

    def make(a):
        return CCAirfoil(**a)

    def ask(f, keep):
        x = np.radians([v[0] for v in case["at"]])
        R = np.array([v[1] for v in case["at"]])
        keep += [x, R]
        with sut("the airfoil"):
            out = dict(ev=f.evaluate(x, R, return_cm=case["cm"]), d=f.derivatives(np.array([x[0]]), np.array([R[0]])))
            if np.any(case["foil"].get("cd", 1.0)):
                out.update(best=f.max_eff(R[0]), off=f.awayfromstall(R[0], 3.0))
        return out

    return args, make, ask


def tools(o, q, keep):
    """what polars and sets of polars share"""
    out = dict(mix=o.blend(q, 0.3), rot=o.correction3D(0.4, 0.15, 5.0))
    out["far"] = o.extrapolate(1.3)
    return out


def arrays(p):
    return {k: np.array(p[k], float) for k in ("alpha", "cl", "cd", "cm")}


def cylinder(p):
    return not np.any(p["cl"]) or len(set(p["cl"])) == 1


def polar(case):
    from ccblade.airfoilprep import Polar

    p, q = case["P"][0], case["q"]

    def make(a):
        return Polar(p["Re"], **a)

    def ask(o, keep):
        other = pg.build(q, form="array")
        with sut("the polar"):
            out = tools(o, other, keep)
            out["unsteady"] = o.unsteadyparam()
        keep += [other]
        return out

    return arrays(p), make, ask


def airfoil(case):
    from ccblade.airfoilprep import Airfoil, Polar

    P, q = case["P"], case["q"]
    args = {"%s%d" % (k, j): v for j, p in enumerate(P) for k, v in arrays(p).items()}

    def make(a):
        ps = [Polar(p["Re"], *[a["%s%d" % (k, j)] for k in ("alpha", "cl", "cd", "cm")]) for j, p in enumerate(P)]
        af = Airfoil(ps)
        del ps[:]  # the list is the caller's
        return af

    def ask(o, keep):
        other = pg.build_af([q], form="array")
        grid = np.array([-3.0, 0.0, 2.5, 5.0])
        lo, hi = min(p["Re"] for p in P), max(p["Re"] for p in P)
        with sut("the set of polars"):
            out = tools(o, other, keep)
            out.update(at=o.getPolar(case["Re"]), low=o.getPolar(0.5 * lo), high=o.getPolar(2 * hi), exact=o.getPolar(P[0]["Re"]),
                       same=o.interpToCommonAlpha(grid), all=o.interpToCommonAlpha(), table=o.createDataGrid())
        keep += [other, grid]
        return out

    return args, make, ask


def check(case):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return check_(case)


def check_(case):
    how = case["how"]
    args, make, ask = dict(rotor=rotor, foil=foil, polar=polar, airfoil=airfoil)[case["kind"]](case)
    with sut("building the object"):
        twin = make({k: v.copy() for k, v in args.items()})
        o = make(args)
    what = "%s (%s)" % (case["kind"], how)
    ref = flat(ask(twin, []), [])
    kept = []
    res = ask(o, kept)
    agree(flat(res, []), ref, what + ", first use")
    ev = len(ref)
    if how in ("deepcopy", "pickle"):
        with sut("copying the %s" % case["kind"]):
            c = copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o))
        agree(flat(ask(c, []), []), ref, what + ": the copy")
        if case["kind"] == "rotor":
            for k in ("r", "chord", "theta", "precurve", "presweep"):
                v = getattr(c, k, None)
                if isinstance(v, np.ndarray):
                    v[...] = v * 0.9 + 0.01
        elif case["kind"] != "foil":
            spoil(c)
        ev += len(ref)
    if how in ("given", "both"):
        spoil(list(args.values()))
        spoil(kept)
    if how in ("returned", "both"):
        # an extrapolation which cannot be done returns the object itself
        for k in list(res):
            if res[k] is o:
                del res[k]
            elif hasattr(res[k], "polars"):
                res[k].polars[:] = [p for p in res[k].polars if not any(p is v for v in getattr(o, "polars", []))]
        spoil(res)
    agree(flat(ask(o, []), []), ref, what + ", used again")
    if how not in ("returned", "both"):
        agree(flat(res, []), ref, what + ", results of the first use after the object was used again")
    return info(True, [case["kind"], how], ev + len(ref))
