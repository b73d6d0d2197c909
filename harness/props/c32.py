"""C32: gradients are refused, not approximated, where they are not implemented."""
import numpy as np
from hypothesis import strategies as st

import gens
from core import info, need, skip, sut

ID = "C32"
N = dict(quick=800, thorough=8000)
RULE = ("a random turning rotor with gradients requested and 2-5 Reynolds passes: distributed loads and rotor outputs must raise "
        "ValueError; the same rotor without gradients must answer; one evaluation per call; non-trivial: all")


@st.composite
def strategy_(draw):
    case = draw(gens.rotor_case(iterRe=(2, 3, 4, 5), parked=False, nmax=4))
    case["how"] = draw(st.sampled_from(["loads", "evaluate", "coefficients"]))
    return case


def strategy():
    return strategy_()


def call(b, how, c):
    if how == "loads":
        return b.distributedAeroLoads(c["Uinf"], c["Omega"], c["pitch"], c["azimuth"])
    return b.evaluate([c["Uinf"]], [c["Omega"]], [c["pitch"]], coefficients=how == "coefficients")


def check(case):
    rot, c = case["rotor"], case["cond"][0]
    if c["Omega"] == 0:
        return skip("parked")
    with sut("constructing the rotor"):
        b, afs = gens.build_rotor(rot, derivatives=True)
        plain, _ = gens.build_rotor(rot, afs=afs, derivatives=False)
    with sut(case["how"]):
        out, d = call(plain, case["how"], c)
    need(d == {}, "gradients returned although they were not requested: %r" % (d,))
    try:
        call(b, case["how"], c)
    except ValueError:
        return info(True, ["iterRe=%d" % rot["iterRe"], case["how"]], 2)
    except Exception as e:
        need(False, "%s with gradients and %d Reynolds passes raised %r instead of ValueError" % (case["how"], rot["iterRe"], e))
    need(False, "%s returned gradients for %d Reynolds passes" % (case["how"], rot["iterRe"]))
