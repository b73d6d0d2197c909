"""C21: the blade loads component."""
import numpy as np
from hypothesis import strategies as st

import gens
import omutil
from core import arr, close, info, sut

ID = "C21"
N = dict(quick=480, thorough=12000)
RULE = ("a random rotor (polars with up to three Reynolds numbers, parked ones, every switch) given to the component in random "
        "units, with up to three successive conditions and designs on the same component; outputs and total derivatives against "
        "the library called directly with the same numbers; one evaluation per compared output or Jacobian; non-trivial: loads "
        "and derivatives are not all zero")
ASSUMPTIONS = ["one airfoil table per station"]
WRT = dict(r="r", chord="chord", theta="theta", precurve="precurve", Rhub="Rhub", Rtip="Rtip", hub_height="hubHt",
           precone="precone", tilt="tilt", yaw="yaw", shearExp="shear", V_load="Uinf", Omega_load="Omega", pitch_load="pitch",
           azimuth_load="azimuth")


@st.composite
def strategy_(draw):
    rot = draw(omutil.rotor(nmax=5))
    rot = draw(omutil.to_the_ends(rot))
    k = draw(st.integers(1, 3))
    return dict(rotor=rot, cond=[draw(gens.condition(rot)) for _ in range(k)],
                one=draw(omutil.one_changes(k, False)), polars=[""] + [draw(st.sampled_from(omutil.CHANGES)) for _ in range(k - 1)],
                dtheta=[0.0] + [draw(gens.grid(-3, 3, 0.5)) for _ in range(k - 1)],
                alt=[draw(st.booleans()) for _ in range(16)], lin=[draw(st.booleans()) for _ in range(k - 1)] + [True],
                leave=draw(gens.flag(0.3)))


def strategy():
    return strategy_()


def check(case):
    from ccblade.ccblade_component import CCBladeLoads

    rot = case["rotor"]
    T = omutil.tables(rot)
    af = omutil.afs(rot, T)
    n = len(rot["r"])
    with sut("setting up the component"):
        p = omutil.problem(CCBladeLoads(modeling_options=omutil.options(rot, T)))
    omutil.set_tables(p, T)
    ins = omutil.blade_inputs(rot, presweep=False)
    for j, (k, v) in enumerate(ins.items()):
        with sut("setting " + k):
            if not omutil.left(p, k, v, case.get("leave")):
                omutil.setv(p, k, v, case["alt"][j % 16])
    ev, some = 0, False
    cls = {"inputs with the default left unset"} if case.get("leave") else set()
    for j, c in enumerate(case["cond"]):
        one = case["one"][j] if "one" in case else None
        if one:
            omutil.change_one(p, one)
            cls.add("one input changed: " + one)
        else:
            if case.get("polars") and case["polars"][j]:
                T = omutil.changed(T, case["polars"][j])
                af = omutil.afs(rot, T)
                omutil.set_tables(p, T)
                cls.add("polars changed: " + case["polars"][j])
            omutil.setv(p, "theta", np.array(rot["theta"]) + case["dtheta"][j])
            for q, (k, v) in enumerate((("V_load", c["Uinf"]), ("Omega_load", c["Omega"]), ("pitch_load", c["pitch"]),
                                        ("azimuth_load", c["azimuth"]))):
                omutil.setv(p, k, v, case["alt"][(7 * j + q) % 16])
        with sut("run_model"):
            p.run_model()
        b = omutil.direct(p, af, presweep=False, derivatives=True)
        x = [float(omutil.getv(p, k)[0]) for k in ("V_load", "Omega_load", "pitch_load", "azimuth_load")]
        with sut("distributedAeroLoads"):
            L, D = b.distributedAeroLoads(*x)
        Np, Tp = arr(L["Np"], (n,), "Np", finite=False), arr(L["Tp"], (n,), "Tp", finite=False)
        if not np.all(np.isfinite(Np + Tp)):
            cls.add("condition set aside: no solution at a station")
            continue
        s = float(np.max(np.hypot(Np, Tp)))
        close(p.get_val("loads_r", units="m"), omutil.getv(p, "r"), 1e-13, "loads_r")
        close(p.get_val("loads_Px", units="N/m"), Np, 1e-9, "loads_Px", scale=s)
        close(p.get_val("loads_Py", units="N/m"), -Tp, 1e-9, "loads_Py", scale=s)
        close(p.get_val("loads_Pz", units="N/m"), np.zeros(n), 0, "loads_Pz")
        ev += 4
        some = some or s > 0
        if not omutil.getv(p, "Omega_load")[0]:
            cls.add("parked")
        if not case["lin"][j]:
            continue
        if any(not np.all(np.isfinite(np.asarray(D[q][v], float))) for q in ("dNp", "dTp") for v in D[q]):
            cls.add("derivatives set aside: not finite")
            continue
        J = omutil.totals(p, ("loads_r", "loads_Px", "loads_Py", "loads_Pz"), WRT)
        for w, v in WRT.items():
            dN, dT = np.asarray(D["dNp"]["d" + v], float), np.asarray(D["dTp"]["d" + v], float)
            sc = max(np.max(np.abs(dN)), np.max(np.abs(dT)))
            m = n if w in ("r", "chord", "theta", "precurve") else 1
            close(J["loads_Px", w], dN.reshape(n, m), 1e-9, "dloads_Px/d" + w, scale=sc)
            close(J["loads_Py", w], -dT.reshape(n, m), 1e-9, "dloads_Py/d" + w, scale=sc)
            close(J["loads_Pz", w], np.zeros((n, m)), 0, "dloads_Pz/d" + w)
            close(J["loads_r", w], np.eye(n) if w == "r" else np.zeros((n, m)), 0, "dloads_r/d" + w)
            ev += 4
        cls.add("linearised at step %d of %d" % (j + 1, len(case["cond"])))
    cls.add("n_Re=%d" % len(rot["Re"]))
    return info(some and ev > 8, cls, ev)
