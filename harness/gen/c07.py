from hypothesis import strategies as st
from .common import obs_list, seeds, unitary

QUICK, THOROUGH = 1050, 10000
RULE = ("random unitaries and observable lists (duplicates, Hermitian, multi-qubit, unordered wires), n <= 5 (more of these in "
        "thorough runs), full 4^n table through the function and through every layer class; non-trivial = at least "
        "one non-zero gradient component")
ASSUMPTIONS = ["device wires are 0..n-1"]


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4] * 8 + [5] + ([4, 5] * 8 if tier == "thorough" else [])))
    lay = ["fn", "local1", "local2", "custom", "stochastic", "squared", "adapt", "base"] + (["su8", "zass"] if n >= 3 else [])
    if n % 2:
        lay.remove("local2")
    if n < 2:
        lay.remove("adapt")
    return {"n": n, "us": draw(st.lists(unitary(n), min_size=1, max_size=3 if n < 3 else 2 if n < 4 else 1)),
            "same": draw(st.booleans()),
            "obs": draw(obs_list(n, 4, True)), "via": draw(st.sampled_from(lay)), "fd": draw(st.booleans()),
            "rng": draw(seeds)}


def cases(tier):
    return case(tier)
