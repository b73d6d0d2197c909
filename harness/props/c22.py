"""C22: the rotor evaluation component."""
import numpy as np
from hypothesis import strategies as st

import gens
import omutil
from core import arr, close, info, sut

ID = "C22"
N = dict(quick=400, thorough=8000)
RULE = ("as C21 for the component that returns power, hub forces and moments, the root moment and their coefficients: outputs and "
        "total derivatives with respect to all seventeen design and operating inputs against the library called directly with "
        "the same numbers; one evaluation per compared output or Jacobian; non-trivial: a rotating, loaded rotor")
ASSUMPTIONS = ["one airfoil table per station"]
WRT = dict(r="r", chord="chord", theta="theta", precurve="precurve", presweep="presweep", Rhub="Rhub", Rtip="Rtip",
           hub_height="hubHt", precone="precone", tilt="tilt", yaw="yaw", shearExp="shear", V_load="Uinf", Omega_load="Omega",
           pitch_load="pitch", precurveTip="precurveTip", presweepTip="presweepTip")
OUT = dict(P=("P",), Mb=("Mb",), CP=("CP",), CMb=("CMb",), Fhub=("T", "Y", "Z"), Mhub=("Q", "My", "Mz"),
           CFhub=("CT", "CY", "CZ"), CMhub=("CQ", "CMy", "CMz"))


@st.composite
def strategy_(draw):
    rot = draw(omutil.rotor(nmax=4))
    rot = draw(omutil.to_the_ends(rot))
    k = draw(st.integers(1, 3))
    return dict(rotor=rot, cond=[draw(gens.condition(rot)) for _ in range(k)],
                one=draw(omutil.one_changes(k, True)), polars=[""] + [draw(st.sampled_from(omutil.CHANGES)) for _ in range(k - 1)],
                dtheta=[0.0] + [draw(gens.grid(-3, 3, 0.5)) for _ in range(k - 1)],
                alt=[draw(st.booleans()) for _ in range(16)], lin=[draw(st.booleans()) for _ in range(k - 1)] + [True],
                leave=draw(gens.flag(0.3)))


def strategy():
    return strategy_()


def check(case):
    from ccblade.ccblade_component import CCBladeEvaluate

    rot = case["rotor"]
    T = omutil.tables(rot)
    af = omutil.afs(rot, T)
    n = len(rot["r"])
    with sut("setting up the component"):
        p = omutil.problem(CCBladeEvaluate(modeling_options=omutil.options(rot, T)))
    omutil.set_tables(p, T)
    ins = omutil.blade_inputs(rot)
    for j, (k, v) in enumerate(ins.items()):
        with sut("setting " + k):
            if not omutil.left(p, k, v, case.get("leave")):
                omutil.setv(p, k, v, case["alt"][j % 16])
    ev, some = 0, False
    cls = {"inputs with the default left unset"} if case.get("leave") else set()
    for j, c in enumerate(case["cond"]):
        one = case["one"][j] if "one" in case else None
        if one:
            omutil.change_one(p, one)
            cls.add("one input changed: " + one)
        else:
            if case.get("polars") and case["polars"][j]:
                T = omutil.changed(T, case["polars"][j])
                af = omutil.afs(rot, T)
                omutil.set_tables(p, T)
                cls.add("polars changed: " + case["polars"][j])
            omutil.setv(p, "theta", np.array(rot["theta"]) + case["dtheta"][j])
            for q, (k, v) in enumerate((("V_load", c["Uinf"]), ("Omega_load", c["Omega"]), ("pitch_load", c["pitch"]))):
                omutil.setv(p, k, v, case["alt"][(7 * j + q) % 16])
        with sut("run_model"):
            p.run_model()
        b = omutil.direct(p, af, derivatives=True)
        x = [omutil.getv(p, k) for k in ("V_load", "Omega_load", "pitch_load")]
        with sut("evaluate"):
            L, D = b.evaluate(*x, coefficients=True)
        ref = {o: np.array([float(np.squeeze(L[k])) for k in ks]) for o, ks in OUT.items()}
        if not all(np.all(np.isfinite(v)) for v in ref.values()):
            cls.add("condition set aside: no solution at a station")
            continue
        for o in OUT:
            close(np.ravel(p.get_val(o)), ref[o], 1e-9, o, scale=1e-300)
            ev += 1
        some = some or (omutil.getv(p, "Omega_load")[0] != 0 and np.any(ref["Fhub"] != 0))
        if not omutil.getv(p, "Omega_load")[0]:
            cls.add("parked")
        if not case["lin"][j]:
            continue
        d = {k: {v: np.asarray(D["d" + k]["d" + v], float) for v in WRT.values()} for ks in OUT.values() for k in ks}
        if any(not np.all(np.isfinite(v)) for k in d for v in d[k].values()):
            cls.add("derivatives set aside: not finite")
            continue
        J = omutil.totals(p, OUT, WRT)
        for w, v in WRT.items():
            m = n if w in ("r", "chord", "theta", "precurve", "presweep") else 1
            for o, ks in OUT.items():
                R = np.array([d[k][v].reshape(m) for k in ks])
                close(J[o, w], R, 1e-9, "d%s/d%s" % (o, w), scale=1e-300)
                ev += 1
        cls.add("linearised at step %d of %d" % (j + 1, len(case["cond"])))
    cls.add("n_Re=%d" % len(rot["Re"]))
    return info(some and ev > 8, cls, ev)
