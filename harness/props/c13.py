"""C13: splined airfoil data: fidelity, smoothness, slopes, behaviour beyond the table."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import Violation, arr, close, info, need, same, skip, sut

ID = "C13"
N = dict(quick=3000, thorough=80000)
RULE = ("random airfoil tables (realistic curves with table noise, exact polynomials, 2-4 point tables; zero, one or several Reynolds "
        "numbers; with and without moments; lists or arrays) and random query points inside and beyond the table; one evaluation "
        "per table; non-trivial: the table has at least 4 angles and the queries include points between table entries")


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["curve", "curve", "curve", "poly", "short"]))
    nre = draw(st.sampled_from([0, 1, 1, 2, 3, 4, 5]))
    lo = draw(st.sampled_from([1e5, 5e5, 1e6]))
    ratio = draw(st.sampled_from([1.3, 2.0, 3.0]))
    Re = [float("%.6g" % (lo * ratio ** j)) for j in range(nre)]
    case = dict(kind=kind, Re=Re, cm=draw(st.booleans()), lists=draw(st.booleans()))
    if kind == "curve":
        case["p"] = draw(gens.foil_params())
        case["reexp"] = draw(gens.grid(0, 0.12, 0.01))
        drop = draw(st.integers(1, 4))
        case["alpha"] = [float(a) for i, a in enumerate(gens.ALPHAS) if i % drop == 0 or i in (0, len(gens.ALPHAS) - 1)]
        m = len(case["alpha"]) * max(1, nre)
        case["noise"] = draw(st.lists(gens.grid(-0.02, 0.02, 0.002), min_size=1, max_size=8))
    elif kind == "poly":
        case["alpha"] = [float(a) for a in range(-180, 181, draw(st.sampled_from([5, 10, 20, 30])))]
        case["coef"] = [draw(gens.grid(-1, 1, 0.1)) for _ in range(14)]
    else:
        case["alpha"] = sorted(draw(st.sets(gens.grid(-180, 180, 5), min_size=2, max_size=4)))
        case["vals"] = [draw(gens.grid(-1.5, 1.5, 0.1)) for _ in range(len(case["alpha"]) * max(1, nre))]
    case["qa"] = [draw(gens.grid(-180, 180, 0.37)) for _ in range(4)] + [draw(gens.grid(-200, 200, 10))]
    case["qr"] = [draw(st.sampled_from([1e-4, 1e-3, 0.03, 30.0, 1e3, 1e4])) if draw(gens.flag(0.25)) else draw(gens.grid(0.3, 3.0, 0.07))
                  for _ in range(5)]
    case["decoy"] = draw(st.sampled_from(["", "", "angles", "Re", "values"]))
    return case


def strategy():
    return strategy_()


def table(case):
    al = np.array(case["alpha"])
    Re = case["Re"]
    m = max(1, len(Re))
    a = np.deg2rad(al)
    cl, cd, cm = (np.zeros((len(al), m)) for _ in range(3))
    if case["kind"] == "curve":
        nz = case["noise"]
        for j in range(m):
            f = (Re[j] / 1e6) ** case["reexp"] if Re else 1.0
            cl[:, j], cd[:, j] = gens._foil_curve(case["p"], a, f)
            e = np.array([nz[(i * 7 + j * 3) % len(nz)] for i in range(len(al))])
            cl[:, j] += e
            cd[:, j] += 0.1 * np.abs(e)
            cm[:, j] = -0.05 - 0.1 * np.sin(a) + 0.05 * e
    elif case["kind"] == "poly":
        c = case["coef"] + [0.0, 0.0]
        for j in range(m):
            x, y = a / np.pi, (j / max(1.0, m - 1.0) if m > 1 else 0.0)
            cl[:, j] = c[0] + c[1] * x + c[2] * x ** 2 + c[3] * x ** 3 + y * (c[8] + c[9] * x)
            cd[:, j] = 1 + c[4] + c[5] * x + c[6] * x ** 2 + c[7] * x ** 3 + y * c[10]
            cm[:, j] = c[1] - c[3] * x + y * c[11] * x
            if m > 2:  # up to cubic in the Reynolds number where there are points enough
                cl[:, j] += c[12] * y ** 2
                cd[:, j] += c[12] * x * y ** 2
            if m > 3:
                cl[:, j] += c[13] * y ** 3
                cm[:, j] += c[13] * y ** 3
    else:
        v = np.array(case["vals"][: len(al)]).reshape(-1, 1) * (1 + 0.03 * np.arange(m)).reshape(1, -1)
        cl, cd, cm = v, np.abs(v) * 0.5 + 0.01, -0.3 * v
    return al, Re, cl, cd, cm


def fits(a, Re, cl, cd, cm):
    from scipy.interpolate import RectBivariateSpline

    try:
        for t, s in ((cl, 0.1), (cd, 0.001), (cm, 0.0001)):
            if t is not None:
                if len(Re) < 2:
                    RectBivariateSpline(a, [1e1, 1e15], np.c_[t, t], kx=min(len(a) - 1, 3), ky=1, s=s)
                else:
                    RectBivariateSpline(a, Re, t, kx=min(len(a) - 1, 3), ky=min(len(Re) - 1, 3), s=s)
        return True
    except ValueError:
        return False


def decoys(case, al, Re, cl, cd, cm):
    from ccblade.ccblade import CCAirfoil

    kind = case.get("decoy")
    if kind == "angles":
        al = 0.8 * al
    elif kind == "Re":
        Re = [2.5 * x for x in Re]
    elif kind == "values":
        cd, cm = cd + 0.1, cm + 0.1
    else:
        return
    if fits(np.deg2rad(al), Re, cl, cd, cm if case["cm"] else None):
        with sut("CCAirfoil (other data)"):
            o = CCAirfoil(al.copy(), np.array(Re, float), cl.copy(), cd.copy(), **(dict(cm=cm.copy()) if case["cm"] else {}))
            o.evaluate(0.1, Re[0] if Re else 1e6)


def check(case):
    from ccblade.ccblade import CCAirfoil

    al, Re, cl, cd, cm = table(case)
    if len(Re) >= 2 and case["kind"] == "poly":
        # exact polynomial in Re needs a uniform spacing of the sample parameter
        Re = [Re[0] * (1 + j) for j in range(len(Re))]
    a0 = np.deg2rad(al)
    conv = (lambda x: np.asarray(x).tolist()) if case["lists"] else (lambda x: np.array(x, float))
    kw = dict(cm=conv(cm)) if case["cm"] else {}
    args = [conv(al), conv(Re), conv(cl), conv(cd)]
    before = [np.array(x, float).copy() for x in args]
    if not fits(a0, Re, cl, cd, cm if case["cm"] else None):
        return skip("the spline library does not fit this table")
    decoys(case, al, Re, cl, cd, cm)  # other airfoils, sharing part of the data, do not affect this one
    with sut("CCAirfoil"):
        af = CCAirfoil(*args, **kw)
    decoys(case, al, Re, cl, cd, cm)
    for x, y in zip(args, before):
        same(np.array(x, float), y, "the caller's table")
    a = np.deg2rad(al)
    one = len(Re) < 2
    Rq = Re if Re else [1e6]

    def ev(alpha, R, n=2, **k):
        with sut("evaluate(%r, %r)" % (alpha, R)):
            out = af.evaluate(alpha, R, **k)
            need(len(out) == n, "evaluate returned %d values" % len(out))
            return [np.array(x, float) for x in out]

    # -- fidelity to the table (bounded sum of squares; exact where a polynomial fits it) --
    got = [[], [], []]
    for j, R in enumerate(Rq):
        o = ev(a, np.full(len(a), R), 3 if case["cm"] else 2, return_cm=True)
        for k in range(len(o)):
            got[k].append(arr(o[k], (len(a),), "coefficients on the table"))
    lim = dict(cl=0.1, cd=0.001, cm=0.0001)
    mult = 2 if one else 1
    for name, g, t in (("cl", got[0], cl), ("cd", got[1], cd), ("cm", got[2], cm)):
        if name == "cm" and not case["cm"]:
            continue
        g = np.array(g).T
        ss = float(np.sum((g - t) ** 2))
        need(mult * ss <= lim[name] * 1.02 + 1e-12, lambda: "sum of squared deviations of %s from the table is %.4g, more than the "
             "smoothing of %g allows" % (name, mult * ss, lim[name]))
        if case["kind"] == "poly":
            close(g, t, 0, name + " of polynomial data", atol=1e-6)
        if case["kind"] == "short":
            need(ss <= lim[name] * 1.02 + 1e-12, "short table")
    # -- scalar queries, slopes, Reynolds number, range --
    lohi = (a[0], a[-1])
    for qa, qr in zip(case["qa"], case["qr"]):
        x = float(np.deg2rad(qa))
        R = float(qr * Rq[0] * (Rq[-1] / Rq[0]) ** 0.5)
        v = ev(x, R)
        vv = np.array([arr(np.squeeze(t), (), "evaluate") for t in v])
        # alone and together
        both = ev(np.array([x, 0.0]), np.array([R, R]))
        close([both[0][0], both[1][0]], vv, 1e-12, "array against scalar evaluation", scale=1e-3)
        if case["cm"]:
            v3 = ev(x, R, 3, return_cm=True)
            close([np.squeeze(v3[0]), np.squeeze(v3[1])], vv, 1e-13, "cl, cd with and without cm", scale=1e-3)
        else:
            ev(x, R, 2, return_cm=True)
        if one:
            w = ev(x, R * 7.3)
            close([np.squeeze(t) for t in w], vv, 1e-9, "data with one Reynolds number at another Reynolds number", atol=1e-9)
        # clamped beyond the table
        xc = min(max(x, lohi[0]), lohi[1])
        Rc = R if one else min(max(R, Re[0]), Re[-1])
        w = ev(xc, Rc)
        close([np.squeeze(t) for t in w], vv, 1e-9, "beyond the table the value at its edge", atol=1e-9)
        # slopes
        h = 1e-5
        if abs(x - lohi[0]) < 4 * h or abs(x - lohi[1]) < 4 * h:
            continue
        kn = np.min(np.abs(a - x))
        with sut("derivatives(%r, %r)" % (x, R)):
            d = [float(np.squeeze(t)) for t in af.derivatives(x, R)]
        need(len(d) == 4 and np.all(np.isfinite(d)), "derivatives returned %r" % (d,))
        f = lambda s, t: np.array([float(np.squeeze(z)) for z in ev(x + s, R * (1 + t))])
        num = (8 * (f(h, 0) - f(-h, 0)) - (f(2 * h, 0) - f(-2 * h, 0))) / (12 * h)
        if len(al) > 3 or kn > 4 * h:
            close([d[0], d[2]], num, 1e-5, "slope against angle of attack at %.6g deg, Re %.4g" % (qa, R), atol=2e-6)
        if not one and min(abs(R / z - 1) for z in Re) > 4 * h:
            num = (8 * (f(0, h) - f(0, -h)) - (f(0, 2 * h) - f(0, -2 * h))) / (12 * h)
            close([d[1] * R, d[3] * R], num, 1e-5, "slope against Reynolds number (times Re) at %.6g deg, Re %.4g" % (qa, R), atol=2e-6)
        if one:
            need(d[1] == 0 and d[3] == 0, "slope against Reynolds number of data with one Reynolds number: %r" % (d,))
        # continuously differentiable: one-sided slopes agree
        if len(al) > 3:
            k = int(np.argmin(np.abs(a - x)))
            if 0 < k < len(a) - 1:
                g = lambda s: np.array([float(np.squeeze(z)) for z in ev(a[k] + s, R)])
                g0 = g(0)
                right = (-3 * g0 + 4 * g(h) - g(2 * h)) / (2 * h)
                left = (3 * g0 - 4 * g(-h) + g(-2 * h)) / (2 * h)
                need(np.all(np.abs(right - left) <= 1e-4 * (1 + np.abs(right))), lambda: "slope jumps at table angle %.6g deg: %s / %s"
                     % (np.rad2deg(a[k]), left, right))
    return info(len(al) >= 4, ["table " + case["kind"], "%d Reynolds numbers" % len(Re), "with cm" if case["cm"] else ""], 1)
