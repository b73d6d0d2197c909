"""C05: nondimensional coefficients are the documented normalisations of the dimensional outputs."""
import numpy as np

import gens
from core import close, info, need, skip, sut

ID = "C05"
N = dict(quick=2400, thorough=60000)
RULE = ("a random rotor (cone and precurve together in many of them) at 1-3 conditions, evaluated with and without coefficients; "
        "each coefficient is compared with the documented formula using R = Rtip cos(cone) + precurveTip sin(cone), and C_P with "
        "C_Q times tip-speed ratio; one evaluation per coefficient and condition; non-trivial: loaded rotor")
FORCE, MOM = ("T", "Y", "Z"), ("Q", "My", "Mz", "Mb")


def strategy():
    return gens.rotor_case(ncond=3, nmax=5)


def check(case):
    rot, cs = case["rotor"], case["cond"]
    with sut("constructing the rotor"):
        b, afs = gens.build_rotor(rot)
    U = np.array([c["Uinf"] for c in cs], float)
    Om = np.array([c["Omega"] for c in cs], float)
    p = np.array([c["pitch"] for c in cs], float)
    with sut("evaluate"):
        O, _ = b.evaluate(U, Om, p, coefficients=True)
        D, _ = b.evaluate(U, Om, p, coefficients=False)
        O = {k: np.array(O[k], float) for k in ["C" + k for k in ("P",) + FORCE + MOM]}
        D = {k: np.array(D[k], float) for k in ("P",) + FORCE + MOM}
    pc = np.deg2rad(rot["precone"])
    tip = rot["precurveTip"] if rot["precurve"] is not None else 0.0
    Rr = rot["Rtip"] * np.cos(pc) + tip * np.sin(pc)
    q = 0.5 * rot["rho"] * U ** 2
    A = np.pi * Rr ** 2
    for k in FORCE:
        close(O["C" + k], D[k] / (q * A), 1e-11, "C" + k)
    for k in MOM:
        close(O["C" + k], D[k] / (q * A * Rr), 1e-11, "C" + k)
    close(O["CP"], D["P"] / (q * A * U), 1e-11, "CP")
    close(O["CP"], O["CQ"] * Om * np.pi / 30 * Rr / U, 1e-10, "CP against CQ times tip-speed ratio")
    cls = ["cone and precurve"] if rot["precone"] and tip else []
    cls.append("conditions=%d" % len(cs))
    return info(np.abs(D["T"]).max() > 0, cls, 8 * len(cs))
