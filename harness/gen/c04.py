from hypothesis import strategies as st
from .common import any_obs, obs_list, seeds

QUICK, THOROUGH = 5000, 40000
RULE = ("random lists of 0-45 observables (Pauli words on unordered wires, Hermitian matrices, Hadamard, duplicates, "
        "spin-chain models; n <= 6) with no, float, integer, complex or mixed coefficients; non-trivial = at least two "
        "observables")
ASSUMPTIONS = ["one coefficient per observable"]
NUM = st.one_of(st.floats(-5, 5).map(lambda x: round(x, 5)), st.sampled_from([0.0, 1.0, -1.0, 1e-6, 100.0]))


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 3, 1, 4, 5] * 6 + [6]))
    obs = draw(st.one_of(obs_list(n, 5, True), st.lists(any_obs(n), min_size=0, max_size=draw(st.sampled_from([12] * 9 + [45])))))
    m = len(obs)
    ct = draw(st.sampled_from([None, "list", "np", "tuple", "int", "complex", "mixed"]))
    co = None
    if ct == "int":
        co = draw(st.lists(st.integers(-3, 3), min_size=m, max_size=m))
    elif ct == "mixed":     # kinds of numbers side by side in one list
        co = draw(st.lists(st.tuples(st.sampled_from(["int", "float", "npf", "complex", "npi"]), NUM).map(list), min_size=m, max_size=m))
    elif ct is not None:
        co = draw(st.lists(NUM, min_size=m, max_size=m))
    return {"n": n, "obs": obs, "ct": ct, "co": co, "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-10, 1e7])), "again": draw(st.booleans()), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
