from hypothesis import strategies as st
from .common import angle, obs_list, seeds, unitary

QUICK, THOROUGH = 1050, 10000
RULE = ("histories of 1-7 calls of the adaptive layer (n 2-5) on chained or fresh unitaries with a stub optimizer that inspects the "
        "circuit it is given and returns scripted parameters, and short runs with the real optimizer; non-trivial = at least two "
        "calls, or three or more qubits with a unique steepest group")
ASSUMPTIONS = ["the parameter list starts empty", "group gradients within 1e-9 of the largest count as ties"]


@st.composite
def case(draw, tier):
    real = draw(st.sampled_from([False] * 40 + [True]))
    n = 2 if real else draw(st.sampled_from([3, 2, 4, 3] * 5 + [5]))
    return {"n": n, "obs": draw(obs_list(n, 3, True)), "U": draw(unitary(n)), "real": real, "rng": draw(seeds),
            "t": draw(st.floats(0.3, 1.2).map(lambda x: round(x, 3))),
            "steps": draw(st.lists(st.one_of(st.just("chain"), unitary(n), st.just("same")), min_size=0, max_size=1 if real else 3 if n > 3 else 6 if n > 2 else 11)),
            "angles": draw(st.lists(angle(), min_size=2, max_size=7))}


def cases(tier):
    return case(tier)
