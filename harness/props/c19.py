"""C19: vector arithmetic."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import Violation, arr, close, info, need, same, sut
from props.c18 import ALL as FRAMES, rot as rotation

ID = "C19"
N = dict(quick=6000, thorough=150000)
RULE = ("a history of 1-10 operations (+, -, *, / with vectors and scalars, their in-place forms, negation, cross product, rotation) on a "
        "pool of vectors (single or arrays), followed by a model that holds plain arrays; after every operation all vectors of the pool "
        "must equal the model, so operands must not change and results must not share memory; cross-product derivatives against the "
        "skew matrix; one evaluation per operation; non-trivial: at least three operations with an in-place one")
OPS = ("add", "sub", "mul", "div", "iadd", "isub", "imul", "idiv", "neg", "cross", "rot", "swap", "frame", "scribble")


@st.composite
def strategy_(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 3]))
    m = max(n, 1)
    pool = draw(st.integers(2, 3))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(st.sampled_from(OPS))
        arg = draw(st.one_of(st.integers(0, pool - 1), gens.fgrid(-5, 5, 0.5)))
        ops.append([op, draw(st.integers(0, pool - 1)), arg, draw(st.integers(0, pool - 1))])
    return dict(n=n, pool=[[[draw(gens.fgrid(-8, 8, 0.25)) for _ in range(m)] for _ in range(3)] for _ in range(pool)], ops=ops)


def strategy():
    return strategy_()


EPS = 1e-14


def whole(e, v):
    """round-off of the components after a rotation"""
    return np.tile(np.sum(e + EPS * np.abs(v), axis=0), (3, 1))


def check(case):
    from ccblade.csystem import DirectionVector

    n = case["n"]
    m = max(n, 1)
    src = [[np.array(c) if n else float(c[0]) for c in v] for v in case["pool"]]
    with sut("building vectors"):
        vec = [DirectionVector(*v) for v in src]
    mod = [np.array(v, float).reshape(3, m) for v in case["pool"]]
    err = [np.zeros((3, m)) for _ in mod]  # bounds of the round-off
    inplace = 0

    def agree(what):
        for k, (v, r) in enumerate(zip(vec, mod)):
            for j, c in enumerate("xyz"):
                g = arr(getattr(v, c), None, "%s: component %s of vector %d" % (what, c, k))
                need(g.size == m, lambda: "%s: component %s has size %d" % (what, c, g.size))
                bad = ~(np.abs(g.ravel() - r[j]) <= err[k][j] + 1e-13 * np.abs(r[j]) + 1e-300)
                need(not bad.any(), lambda: "%s: component %s of vector %d is %s, expected %s" % (what, c, k, g.ravel(), r[j]))

    done = 0
    for op, i, arg, dst in case["ops"]:
        isv = isinstance(arg, int)
        if isv:
            o, ro, eo = vec[arg], mod[arg], err[arg]
        else:
            o, ro, eo = arg, np.full((3, m), arg), np.zeros((3, m))
        if op in ("div", "idiv") and np.any(np.abs(ro) < 0.1):
            continue
        with np.errstate(all="ignore"):
            new = {"add": mod[i] + ro, "sub": mod[i] - ro, "mul": mod[i] * ro, "div": mod[i] / ro, "iadd": mod[i] + ro,
                   "isub": mod[i] - ro, "imul": mod[i] * ro, "idiv": mod[i] / ro, "neg": -mod[i]}.get(op)
        if new is not None and (np.max(np.abs(new)) > 1e6):
            continue
        ei = err[i]
        if op in ("add", "iadd", "sub", "isub"):
            enew = ei + eo
        elif op in ("mul", "imul"):
            enew = ei * np.abs(ro) + eo * np.abs(mod[i]) + ei * eo
        elif op in ("div", "idiv"):
            enew = 2 * (ei / np.abs(ro) + eo * np.abs(mod[i]) / ro ** 2)
        elif op == "neg":
            enew = ei
        if new is not None:
            enew = enew + EPS * np.abs(new)
        done += 1
        what = "%s of vector %d and %s" % (op, i, "vector %d" % arg if isv else arg)
        with sut(what):
            if op in ("iadd", "isub", "imul", "idiv"):
                v = vec[i]
                if op == "iadd":
                    v += o
                elif op == "isub":
                    v -= o
                elif op == "imul":
                    v *= o
                else:
                    v /= o
                vec[i], mod[i], err[i] = v, new, enew
                inplace += 1
            elif op == "cross":
                j = arg if isv else (i + 1) % len(vec)
                v = vec[i].cross(vec[j])
                r = np.cross(mod[i].T, mod[j].T).T
                if np.max(np.abs(r)) < 1e6:
                    A, B = np.abs(mod[i]), np.abs(mod[j])
                    e = np.array([A[p] * (err[j][q] + EPS * B[q]) + ei[p] * (B[q] + err[j][q]) for p, q in ((1, 2), (2, 1), (2, 0), (0, 2), (0, 1), (1, 0))])
                    vec[dst], mod[dst], err[dst] = v, r, e[::2] + e[1::2]
                if n:
                    da = vec[i].cross_deriv_array(vec[j], "p", "q")
            elif op == "rot":
                deg = 10.0 * (i + 1)
                v = vec[i].windToYaw(deg)
                a = np.radians(deg)
                r = np.array([mod[i][0] * np.cos(a) + mod[i][1] * np.sin(a), -mod[i][0] * np.sin(a) + mod[i][1] * np.cos(a), mod[i][2]])
                vec[dst], mod[dst], err[dst] = v, r, whole(ei, mod[i])
            elif op == "swap":
                v = getattr(vec[i], ("airfoilToProfile", "profileToAirfoil")[dst % 2])()
                vec[dst], mod[dst], err[dst] = v, mod[i][[1, 0, 2]].copy(), ei[[1, 0, 2]]
            elif op == "frame":
                k = int(abs(2 * arg)) % len(FRAMES)
                nm, _, axis, sg, _ = FRAMES[k]
                deg = 12.5 * (dst + 1)
                v = getattr(vec[i], nm)(deg)
                vec[dst], mod[dst], err[dst] = v, rotation(axis, sg * deg)[0] @ mod[i], whole(ei, mod[i])
            elif op == "scribble":
                # the arrays a vector was made from stay the caller's
                if n:
                    for c in src[i]:
                        c[...] = 99.0
                s = str(vec[i])
                need(isinstance(s, str) and s.count(",") >= 2, "text of a vector: %r" % s)
            else:
                v = {"add": lambda: vec[i] + o, "sub": lambda: vec[i] - o, "mul": lambda: vec[i] * o, "div": lambda: vec[i] / o,
                     "neg": lambda: -vec[i]}[op]()
                vec[dst], mod[dst], err[dst] = v, new, enew
        agree(what)
    agree("at the end")
    # derivatives of the cross product
    a, b = (np.array(v, float).reshape(3, m) for v in case["pool"][:2])
    with sut("cross_deriv_array"):
        va, vb = DirectionVector(*[np.array(x) for x in a]), DirectionVector(*[np.array(x) for x in b])
        D = va.cross_deriv_array(vb, namea="p", nameb="q")
    for j in range(3):
        for k in range(3):
            e = np.zeros((3, m))
            e[k] = 1.0
            close(D[j]["dp" + "xyz"[k]], np.cross(e.T, b.T)[:, j], 1e-14, "derivative of cross product component %d with p%s" % (j, "xyz"[k]), scale=1e-6)
            close(D[j]["dq" + "xyz"[k]], np.cross(a.T, e.T)[:, j], 1e-14, "derivative of cross product component %d with q%s" % (j, "xyz"[k]), scale=1e-6)
    with sut("cross_deriv_array of single vectors"):
        sa, sb = DirectionVector(*[float(x[0]) for x in a]), DirectionVector(*[float(x[0]) for x in b])
        D = sa.cross_deriv_array(sb, namea="p", nameb="q")
    for j in range(3):
        for k in range(3):
            e = np.eye(3)[k]
            close(np.ravel(D[j]["dp" + "xyz"[k]]), [np.cross(e, b[:, 0])[j]], 1e-14, "derivative of cross product component %d with p%s" % (j, "xyz"[k]), scale=1e-6)
            close(np.ravel(D[j]["dq" + "xyz"[k]]), [np.cross(a[:, 0], e)[j]], 1e-14, "derivative of cross product component %d with q%s" % (j, "xyz"[k]), scale=1e-6)
    with sut("cross_deriv"):
        sa, sb = DirectionVector(*[float(x[0]) for x in a]), DirectionVector(*[float(x[0]) for x in b])
        D = sa.cross_deriv(sb, "p", "q")
    for j in range(3):
        close(np.ravel(D[j]["p"]), [np.cross(e, b[:, 0])[j] for e in np.eye(3)], 1e-14, "derivative of cross product component %d with p" % j, scale=1e-6)
        close(np.ravel(D[j]["q"]), [np.cross(a[:, 0], e)[j] for e in np.eye(3)], 1e-14, "derivative of cross product component %d with q" % j, scale=1e-6)
    return info(done >= 3 and inplace > 0, ["array" if n else "single"], done + 2)
