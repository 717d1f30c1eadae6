from hypothesis import strategies as st
from .common import seeds

QUICK, THOROUGH = 6000, 40000
RULE = ("calls of every optimizer, layer and Pauli constructor with a random set of valid options and at most one invalid value "
        "(wrong type, out of range, unknown direction, wrong qubit number, wrong circuit); invalid ones must be refused with an "
        "assertion before anything is computed or changed, valid ones - boundary values included - accepted; non-trivial = an "
        "invalid value together with at least one valid option, or a boundary value")
ASSUMPTIONS = ["invalid numbers are numbers, not strings: comparing a string with a number is refused by Python itself"]

BADBOOL = [1, 0, "yes", None, 1.0, []]
BAD_ETA = [-0.1, 1.1, 1, 0, "nan", -1e-12, 1.0000001, 2.5]
GOOD_ETA = [0.1, 0.0, 1.0, 0.5, 1e-9]
BAD_TOL = [-1.0, 1, -1e-9, "nan", 0]
GOOD_TOL = [1e-3, 0.0, "inf", 0.5]
BAD_STEPS = [0, -1, 2.5, 3.0, -7]
GOOD_STEPS = [1, 2]
OPT = {
    "ps": {"nsteps": (GOOD_STEPS, BAD_STEPS), "eta": (GOOD_ETA, BAD_ETA), "tol": (GOOD_TOL, BAD_TOL),
           "return_state": ([True, False], BADBOOL), "return_params": ([True, False], BADBOOL)},
    "exact": {"nsteps": (GOOD_STEPS, BAD_STEPS), "eta": (GOOD_ETA, BAD_ETA), "tol": (GOOD_TOL, BAD_TOL),
              "return_state": ([True, False], BADBOOL), "perturbation": ([True, False], BADBOOL),
              "return_perturbations": ([False], BADBOOL + [True]), "return_unitary": ([True, False], BADBOOL)},
    "approx": {"nsteps": (GOOD_STEPS, BAD_STEPS), "eta": (GOOD_ETA, BAD_ETA), "tol": (GOOD_TOL + [None], BAD_TOL),
               "escape_tol": ([0.1], [1, None, "x"]), "return_state": ([True, False], BADBOOL),
               "return_omegas": ([True, False], BADBOOL), "return_unitary": ([True, False], BADBOOL),
               "return_gates": ([True, False], BADBOOL), "perturb": ([True, False], BADBOOL),
               "return_perturbations": ([True, False], BADBOOL), "return_zassenhaus": ([True, False], BADBOOL)},
}
COMMON = {"eta": (GOOD_ETA, BAD_ETA), "unitary_error_check": ([True, False], BADBOOL), "trotterize": ([True, False], BADBOOL)}
LAY = {
    "local1": dict(COMMON, directions=([["X"], ["Y", "Z"], None], [["XX"], ["X", "Q"], ["x"], ["I"]])),
    "local2": dict(COMMON, directions=([["XX"], ["YZ", "XX"], None], [["X"], ["XX", "XYZ"], ["IX"], ["xx"]]),
                   stride=([0, 1], [2, -1, 0.5, None, "0"])),
    "custom": dict(COMMON), "stochastic": dict(COMMON), "squared": dict(COMMON), "adapt": dict(COMMON),
    "su8": dict(COMMON), "zass": dict(COMMON), "zass2": dict(COMMON),
}
SPECIAL = ["circuit-ps-state", "circuit-ps-expval", "circuit-exact-expval", "circuit-exact-none", "circuit-approx-expval",
           "circuit-approx-none", "layers-tuple", "layers-single", "layers-object", "layers-class", "locality-0", "locality-3",
           "locality-none", "local2-odd", "local2-odd5", "su8-2", "zass-2", "su8-1", "custom-dirs", "custom-dirs2", "kw-state", "kw-obs",
           "kw-obs2", "pauli-alpha", "pauli-alphaf", "pauli-gamma", "pauli-gammai", "pauli-gammaf", "pauli-coeff", "pauli-coeffs",
           "mono-dup", "mono-type", "sum-len", "sum-type", "sum-scalar", "comm-type", "commutes-type", "wires-big", "wires-count",
           "abstract-call", "abstract-repr"]


@st.composite
def case(draw, tier):
    k = draw(st.sampled_from(["opt", "opt", "opt", "layer", "layer", "layer", "special"]))
    c = {"k": k, "rng": draw(seeds), "n": draw(st.integers(1, 3))}
    if k == "special":
        c["what"] = draw(st.sampled_from(SPECIAL))
        return c
    table = OPT if k == "opt" else LAY
    t = draw(st.sampled_from(sorted(table)))
    names = sorted(table[t])
    some = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names)))
    c["t"] = t
    c["kw"] = dict((x, draw(st.sampled_from(table[t][x][0]))) for x in some)
    if draw(st.sampled_from([True, True, False])):
        x = draw(st.sampled_from(names))
        c["kw"][x] = draw(st.sampled_from(table[t][x][1]))
        c["bad"] = x
        if t == "exact" and x == "return_perturbations" and c["kw"][x] is True:
            c["kw"]["perturbation"] = False
    return c


def cases(tier):
    return case(tier)
