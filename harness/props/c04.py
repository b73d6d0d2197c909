"""C04: rotor forces, moments and power are the integral of the section loads."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import close, info, need, sut

ID = "C04"
N = dict(quick=1600, thorough=40000)
RULE = ("a random rotor at 1-3 conditions; the section loads the code returns at each azimuth sector are integrated by an "
        "independent trapezoidal rule along the curved axis (zero at hub and tip), resolved and averaged over the sectors, and "
        "compared with every rotor output; one evaluation per output and condition; non-trivial: the rotor is loaded")
KEYS = ("T", "Y", "Z", "Q", "My", "Mz", "Mb")


@st.composite
def strategy_(draw):
    case = draw(gens.rotor_case(ncond=3, iterRe=(1, 1, 2), usecd=(True, True, True, False), nmax=8, ends=True))
    if draw(gens.flag(0.05)):  # many sectors, with numbers for which steps of a sector do not add up to a turn
        case["rotor"]["nSector"] = draw(st.sampled_from([37, 45, 48, 60, 61, 72, 90, 122]))
        case["cond"] = case["cond"][:1]
    return case


def strategy():
    return strategy_()


def families(k):
    return ("T", "Y", "Z") if k in ("T", "Y", "Z") else ("Q", "My", "Mz", "Mb")


def check(case):
    rot, cs = case["rotor"], case["cond"]
    with sut("constructing the rotor"):
        b, afs = gens.build_rotor(rot)
    R = gens.ref_rotor(rot, afs)
    m = len(cs)
    with sut("evaluate"):
        O, _ = b.evaluate([c["Uinf"] for c in cs], [c["Omega"] for c in cs], [c["pitch"] for c in cs])
        O = {k: O[k] for k in KEYS + ("P",)}
    S = {k: np.zeros(m) for k in KEYS}
    mag = dict(F=0.0, M=0.0)
    azs = R.azimuths()
    for i, c in enumerate(cs):
        parts = []
        for az in azs:
            with sut("distributedAeroLoads"):
                L, _ = b.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], np.rad2deg(az))
                Np, Tp = np.array(L["Np"], float), np.array(L["Tp"], float)
            parts.append(R.integrate(Np, Tp))
            t = R.integrate(np.abs(Np), np.abs(Tp))
            mag["F"] = max(mag["F"], R.B * (abs(t[0]) + abs(t[1])))
            mag["M"] = max(mag["M"], R.B * (abs(t[3]) + abs(t[4])))
        s = R.rotor_sum(parts, azs)
        for k in KEYS:
            S[k][i] = s[k]
    S["P"] = S["Q"] * np.array([c["Omega"] for c in cs]) * np.pi / 30
    for k in KEYS:
        close(O[k], S[k], 1e-12, k, atol=1e-10 * (mag["F"] if k in ("T", "Y", "Z") else mag["M"]))
    om = max(abs(c["Omega"]) for c in cs) * np.pi / 30
    close(O["P"], S["P"], 1e-12, "P", atol=1e-10 * mag["M"] * om)
    cls = ["nSector=%d" % R.nSector, "conditions=%d" % m]
    if rot["precurve"]:
        cls.append("precurve")
    if rot["presweep"]:
        cls.append("presweep")
    if rot["precone"]:
        cls.append("precone")
    return info(mag["F"] > 0, cls, m * 8)
