"""C10: an answer depends only on the rotor and the condition, not on what was asked before."""
import numpy as np
from hypothesis import strategies as st

import gens
from bemutil import LOADS
from core import Violation, arr, close, info, need, same, sut

ID = "C10"
N = dict(quick=960, thorough=24000)
RULE = ("a history of 2-8 calls (distributed loads, batched evaluations with and without coefficients, polar look-ups, overwriting "
        "the arrays of an earlier answer) on one or two rotors sharing polars (the second another blade, or the same but for one parameter), partly asked the same questions, with gradients on or off; every answer is compared "
        "with that of a newly built rotor asked only this one question without batching, and must not change later; one evaluation per compared answer; "
        "non-trivial: a rotor answers at least two different questions")
TWIN = ("theta", "chord", "precurve", "presweep", "r", "tiploss", "hubloss", "wakerotation", "usecd") + ("scalar",) * 8
KEYS = ("T", "Y", "Z", "Q", "My", "Mz", "Mb", "P")


def twin(draw, r):
    """changes a rotor in one respect"""
    q = draw(st.sampled_from(TWIN))
    if q in ("theta", "chord", "precurve", "presweep", "r"):
        v = r[q]
        if v is None:
            q = "theta"
            v = r[q]
        j = draw(st.sampled_from([0, -1, draw(st.integers(0, len(v) - 1)), None]))
        f = draw(st.sampled_from([1.01, 0.97]))
        v = [gens._r(x * f, 9) if j is None or i == j % len(v) else x for i, x in enumerate(v)]
        if q == "r" and not (r["Rhub"] <= v[0] and v[-1] <= r["Rtip"] and all(x < y for x, y in zip(v, v[1:]))):
            return twin_scalar(draw, r)
        r[q] = v
    elif q in ("tiploss", "hubloss", "wakerotation", "usecd"):
        r[q] = not r[q]
    else:
        twin_scalar(draw, r)


def twin_scalar(draw, r):
    q = draw(st.sampled_from(["B", "nSector", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "Rtip", "precurveTip", "presweepTip"]))
    if q in ("B", "nSector"):
        r[q] = r[q] % 8 + 1
    elif q in ("rho", "mu", "hubHt"):
        r[q] = gens._r(r[q] * draw(st.sampled_from([1.02, 1.3])), 9)
    elif q == "Rtip":
        r[q] = gens._r(r[q] * 1.02, 9)
    elif q in ("precurveTip", "presweepTip"):
        r[q] = gens._r(r[q] + 0.02 * r["Rtip"], 9)
    elif q == "shearExp":
        r[q] = gens._r(r[q] + 0.03, 9)
    else:
        r[q] = gens._r(r[q] + draw(st.sampled_from([-1.0, 2.0, 0.01])), 9)


@st.composite
def strategy_(draw):
    r1 = draw(gens.rotor_spec(nmax=5, iterRe=(1, 1, 2), ends=True))
    rots = [r1]
    if draw(st.booleans()):
        r2 = dict(r1)
        if draw(st.booleans()):
            # same polars, another blade
            r2["theta"] = [gens._r(t + draw(st.integers(-4, 4))) for t in r1["theta"]]
            r2["yaw"] = draw(gens.grid(-20, 20, 5))
            r2["B"] = draw(st.sampled_from([2, 3]))
        else:
            twin(draw, r2)
        rots.append(r2)
    deriv = [r["iterRe"] == 1 and draw(st.booleans()) for r in rots]
    ops = []
    seen = [[], []]
    if draw(st.booleans()):  # the rotors asked the same questions
        seen = [seen[0], seen[0]]

    def cond(k):
        """a new condition, or one that differs from an earlier one in a single respect, if at all"""
        c = draw(gens.condition(rots[k]))
        if seen[k] and draw(gens.flag(0.5)):
            old = draw(st.sampled_from(seen[k]))
            q = draw(st.sampled_from(["Uinf", "Omega", "pitch", "azimuth"]))
            how = draw(st.sampled_from(["new", "nudge", "same"]))
            if how == "new":
                c = dict(old, **{q: c[q]})
            elif how == "nudge":
                c = dict(old, **{q: old[q] + (draw(st.sampled_from([1e-6, -1e-4, 3e-3, 0.4])) if q != "Omega" or old[q] else 0.0)})
            else:
                c = dict(old)
        seen[k].append(c)
        return c

    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.integers(0, len(rots) - 1))
        kind = draw(st.sampled_from(["loads", "loads", "eval", "eval", "polar", "scribble"]))
        if kind == "loads":
            n = len(r1["r"])
            U = None
            if draw(gens.flag(0.25)):
                U = draw(st.permutations([6.0, 8.0] + [7.0] * (n - 2)) if n >= 2 else st.just([7.0]))
            ops.append(["loads", k, cond(k), U])
        elif kind == "eval":
            cs = [cond(k) for _ in range(draw(st.integers(1, 3)) if not draw(gens.flag(0.1)) else draw(st.integers(6, 16)))]
            ops.append(["eval", k, cs, draw(st.booleans())])
        elif kind == "polar":
            ops.append(["polar", k, draw(gens.grid(-180, 180, 15)), draw(st.sampled_from([1e5, 1e6, 5e6]))])
        else:
            ops.append(["scribble"])
    return dict(rotors=rots, deriv=deriv, ops=ops)


def strategy():
    return strategy_()


def flat(prefix, x):
    out = {}
    if isinstance(x, dict):
        for k, v in x.items():
            out.update(flat(prefix + "/" + str(k), v))
    else:
        out[prefix] = x
    return out


def scribble(x):
    for v in flat("", x).values():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = -777


def eq(got, ref, what):
    a, b = np.asarray(got, float), np.asarray(ref, float)
    ok = a.shape == b.shape and np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * np.abs(b)))
    if not ok:
        raise Violation("%s: %s after this history, %s from a new rotor" % (what, a.ravel()[:6], b.ravel()[:6]))


def check(case):
    rots = case["rotors"]
    with sut("constructing the rotors"):
        afs = gens.build_foils(rots[0])
        bs = [gens.build_rotor(r, afs=afs, derivatives=d)[0] for r, d in zip(rots, case["deriv"])]
    last = None
    ev = 0
    asked = {}
    cls = set()
    given = []  # answers and what they were
    for step, op in enumerate(case["ops"]):
        what = "call %d (%s)" % (step, op[0])
        if op[0] == "scribble":
            if last is not None:
                scribble(last)
                given = [v for v in given if v[1] is not last]
                cls.add("earlier answer overwritten")
            continue
        k = op[1]
        if op[0] == "polar":
            with sut("evaluating a polar"):
                afs[0].evaluate(np.deg2rad(op[2]), op[3])
            continue
        with sut("constructing a rotor"):
            fresh, _ = gens.build_rotor(rots[k], derivatives=case["deriv"][k])
            plain, _ = gens.build_rotor(rots[k], derivatives=False)
        asked.setdefault(k, set()).add(str(op))
        if op[0] == "loads":
            c = dict(op[2])
            if len(op) > 3 and op[3] is not None:
                c["Uinf"] = np.array(op[3])
                cls.add("wind per station")
            with sut(what):
                L, D = bs[k].distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], c["azimuth"])
            with sut("distributedAeroLoads of a new rotor"):
                L2, D2 = fresh.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], c["azimuth"])
                L3, _ = plain.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], c["azimuth"])
            for q in LOADS:
                eq(L[q], L2[q], what + " " + q)
                eq(L[q], L3[q], what + " with and without gradients: " + q)
                ev += 1
            f1, f2 = flat("", D), flat("", D2)
            need(set(f1) == set(f2), what + ": different sets of gradients")
            for q in f1:
                eq(f1[q], f2[q], what + " gradient " + q)
                ev += 1
            last = dict(a=L, b=D)
            given.append((what, last, {q: np.array(v) for q, v in flat("", last).items()}))
        else:
            cs, coefs = op[2], op[3]
            U, Om, p = ([c[x] for c in cs] for x in ("Uinf", "Omega", "pitch"))
            with sut(what):
                O, D = bs[k].evaluate(U, Om, p, coefficients=coefs)
            keys = KEYS if not coefs else tuple("C" + q for q in KEYS)
            for i in range(len(cs)):
                with sut("evaluate of a new rotor"):
                    O2, D2 = fresh.evaluate([U[i]], [Om[i]], [p[i]], coefficients=coefs)
                    O3, _ = plain.evaluate([U[i]], [Om[i]], [p[i]], coefficients=coefs)
                for q in keys:
                    eq(np.asarray(O[q])[i], np.asarray(O2[q])[0], "%s condition %d %s" % (what, i, q))
                    eq(np.asarray(O[q])[i], np.asarray(O3[q])[0], "%s condition %d, with and without gradients: %s" % (what, i, q))
                    ev += 1
                    if case["deriv"][k]:
                        g1, g2 = D["d" + q], D2["d" + q]
                        need(set(g1) == set(g2), what + ": different sets of gradients")
                        for v in g1:
                            a, b_ = np.asarray(g1[v]), np.asarray(g2[v])
                            x = a[i, i] if v in ("dUinf", "dOmega", "dpitch") else a[i]
                            y = b_[0, 0] if v in ("dUinf", "dOmega", "dpitch") else b_[0]
                            eq(x, y, "%s condition %d gradient d%s/%s" % (what, i, q, v))
                            ev += 1
            if len(cs) > 1:
                cls.add("batch of conditions")
            last = dict(a=O, b=D)
            given.append((what, last, {q: np.array(v) for q, v in flat("", last).items()}))
    for what, obj, was in given:
        now = flat("", obj)
        need(set(now) == set(was), what + ": later calls changed the set of results")
        for q in was:
            same(now[q], was[q], "%s: the answer given, %s, after later calls" % (what, q))
    if len(rots) > 1:
        cls.add("two rotors sharing polars")
    if any(case["deriv"]):
        cls.add("gradients on")
    return info(any(len(v) > 1 for v in asked.values()), cls, ev)
