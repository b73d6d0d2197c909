"""C18: coordinate transformations and their derivatives."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import arr, close, info, need, same, sut

ID = "C18"
N = dict(quick=8000, thorough=200000)
RULE = ("random vectors (one or an array) taken through a random chain of 1-7 of the thirteen transformations with one angle or one per "
        "vector; components and every derivative with respect to the original components and the angles are compared with products of "
        "axis-angle rotation matrices; then the chain is undone; one evaluation per chain; non-trivial: at least two transformations")
ASSUMPTIONS = ["derivatives are compared for chains that use each named angle at most once"]
Z, Y, X = (0, 0, 1), (0, 1, 0), (1, 0, 0)
# method, inverse, axis, sense in which the frame turns, angle
T = [("inertialToWind", "windToInertial", Z, 1, "beta"), ("windToYaw", "yawToWind", Z, 1, "yaw"), ("yawToHub", "hubToYaw", Y, 1, "tilt"),
     ("hubToAzimuth", "azimuthToHub", X, 1, "azimuth"), ("azimuthToBlade", "bladeToAzimuth", Y, -1, "precone"),
     ("bladeToAirfoil", "airfoilToBlade", Z, -1, "theta")]
ALL = [t for t in T] + [(b, a, ax, -s, nm) for a, b, ax, s, nm in T]


@st.composite
def strategy_(draw):
    n = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    m = max(n, 1)
    chain = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, len(ALL)))
        if k == len(ALL):
            chain.append([draw(st.sampled_from(["airfoilToProfile", "profileToAirfoil"])), None])
        else:
            one = n < 2 or draw(st.booleans())
            ang = draw(st.lists(gens.fgrid(-400, 400, 1.5), min_size=1 if one else m, max_size=1 if one else m))
            chain.append([k, ang])
    return dict(n=n, v=[[draw(gens.fgrid(-10, 10, 0.25)) for _ in range(m)] for _ in range(3)], chain=chain,
                ints=draw(gens.flag(0.2)), sarr=draw(st.booleans()))


def strategy():
    return strategy_()


def rot(axis, deg):
    """matrix taking components to those in a frame turned by deg about axis; and its derivative per degree"""
    a = np.radians(deg)
    e = np.array(axis, float)
    K = np.array([[0, -e[2], e[1]], [e[2], 0, -e[0]], [-e[1], e[0], 0]])
    R = np.eye(3) - np.sin(a) * K + (1 - np.cos(a)) * K @ K
    D = (-np.cos(a) * K + np.sin(a) * K @ K) * np.pi / 180
    return R, D


SWAP = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.0]])


def check(case):
    from ccblade.csystem import DirectionVector

    n = case["n"]
    m = max(n, 1)
    V = np.array(case["v"], float)
    if case["ints"]:
        V = np.round(V)
    args = [(V[k].astype(int) if case["ints"] else V[k].copy()) if n else (int(V[k][0]) if case["ints"] else float(V[k][0])) for k in range(3)]
    keep = [np.array(a) for a in args]
    steps = []
    for k, ang in case["chain"]:
        if ang is None:
            steps.append((k, "profileToAirfoil" if k == "airfoilToProfile" else "airfoilToProfile", None, None, None, None))
        else:
            a, b, ax, s, nm = ALL[k]
            steps.append((a, b, ax, s, nm, ang))
    with sut("building a vector"):
        v0 = DirectionVector(*args) if not case["sarr"] else DirectionVector.fromArray(np.array(args) if n else args)
    vs = [v0]
    snap = []
    for name, inv, ax, s, nm, ang in steps:
        with sut(name):
            f = getattr(vs[-1], name)
            snap.append((vs[-1], [np.array(getattr(vs[-1], c)) for c in "xyz"]))
            vs.append(f() if ang is None else f(ang[0] if len(ang) == 1 else np.array(ang)))
    for v, old in snap:
        for c, o in zip("xyz", old):
            same(getattr(v, c), o, "the vector transformed, afterwards: " + c)
    for a, o in zip(args, keep):
        same(np.array(a), o, "the numbers passed in")
    # reference, vector by vector
    names = [t[4] for t in steps if t[4]]
    once = len(set(names)) == len(names)
    out = vs[-1]
    comp = [np.broadcast_to(arr(getattr(out, c), None, "component " + c), (m,)) if np.size(getattr(out, c)) in (1, m) else
            arr(getattr(out, c), (m,), "component " + c) for c in "xyz"]
    ref = np.zeros((3, m))
    J = np.zeros((3, 3, m))
    DA = {nm: np.zeros((3, m)) for nm in names}
    for i in range(m):
        Ms = []
        for name, inv, ax, s, nm, ang in steps:
            if ang is None:
                Ms.append((SWAP, None, None))
            else:
                R, D = rot(ax, s * (ang[0] if len(ang) == 1 else ang[i]))
                Ms.append((R, D * s, nm))
        P = np.eye(3)
        for R, _, _ in Ms:
            P = R @ P
        ref[:, i] = P @ V[:, i]
        J[:, :, i] = P
        for q in range(len(Ms)):
            if Ms[q][2]:
                P = np.eye(3)
                for k, (R, D, _) in enumerate(Ms):
                    P = (D if k == q else R) @ P
                DA[Ms[q][2]][:, i] = P @ V[:, i]
    scale = np.max(np.abs(V)) + 1e-3
    for k, c in enumerate("xyz"):
        close(comp[k], ref[k], 1e-12, "component %s after %s" % (c, [t[0] for t in steps]), scale=scale)
    nj = 0
    if once:
        for k, c in enumerate("xyz"):
            with sut("derivatives of component " + c):
                d = dict(getattr(out, "d" + c))
            for j, w in enumerate(["dx", "dy", "dz"] + ["d" + q for q in DA]):
                r = J[k, j] if j < 3 else DA[w[1:]][k]
                need(w in d, lambda: "no derivative of %s with respect to %s" % (c, w[1:]))
                g = np.asarray(d[w], float)
                if g.size == 1:
                    g = np.full(m, float(g.ravel()[0]))
                close(g, r, 1e-12, "derivative of %s with respect to %s" % (c, w[1:]), scale=1.0 if j < 3 else scale * np.pi / 180)
                nj += 1
            extra = set(d) - {"dx", "dy", "dz"} - {"d" + q for q in DA}
            need(not extra, lambda: "derivatives with respect to %s" % extra)
    # undone
    w = out
    for name, inv, ax, s, nm, ang in reversed(steps):
        with sut(inv):
            f = getattr(w, inv)
            w = f() if ang is None else f(ang[0] if len(ang) == 1 else np.array(ang))
    for k, c in enumerate("xyz"):
        close(np.broadcast_to(getattr(w, c), (m,)), V[k], 1e-12, "component %s after going there and back" % c, scale=scale)
    with sut("toArray"):
        A = np.asarray(out.toArray(), float)
    if n:
        same(A, np.c_[out.x, out.y, out.z], "toArray")
    close(A.ravel(), np.array([comp[0], comp[1], comp[2]]).T.ravel(), 1e-15, "toArray", scale=1e-300) if A.size == 3 * m else need(
        False, "toArray has shape %s" % (A.shape,))
    return info(len(steps) > 1, ["derivatives" if once else "values only", "array" if n else "single"], 1 + nj)
