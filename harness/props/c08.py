"""C08: gradients of the rotor coefficients."""
import rotorgrad

ID = "C08"
N = dict(quick=800, thorough=20000)
RULE = ("a random rotor with gradients on at 1-3 conditions (every switch, Re-dependent polars); exact derivatives by complex step "
        "through an independent model with the implicit function theorem at the returned solutions, summed over the sectors; one "
        "evaluation per gradient entry of the rotor coefficients; non-trivial: at least one condition judged")
ASSUMPTIONS = ["one Reynolds pass (the documented limit)",
               "conditions at a switch of the induction model, at a kink of a polar or without a solution are set aside"]
strategy = rotorgrad.strategy


def check(case):
    return rotorgrad.check(case, True)
