from hypothesis import strategies as st
from .common import pick, obs_list, seeds, unitary

QUICK, THOROUGH = 700, 10000
RULE = ("histories of 1-10 calls, step-size changes in between, of the alternating SU(4)/SU(8) layer (n 3-4, ratios 1-6 : 1-5, with and without one- and two-qubit words) on chained and fresh unitaries, "
        "and calls of its two-qubit variant; phase, word and angle of every step are recovered from the output; non-trivial = "
        "at least one step of each phase moved the unitary")
ASSUMPTIONS = ["three-qubit steps are judged only while the previous two-qubit word can be read off the output and the last "
               "line-search angle exceeds 1e-4", "step size at least 0.05"]


def unscaled(obs):
    # the fit of the two-qubit variant is recovered up to full turns only while the gradients are moderate
    for o in obs:
        if o["t"] == "H":
            o["m"].pop("scale", None)
    return obs


@st.composite
def case(draw, tier):
    v2 = draw(st.sampled_from([False] * 5 + [True]))
    n = draw(st.sampled_from([2, 3])) if v2 else draw(st.sampled_from([3, 3, 3, 3, 4]))
    return {"v2": v2, "n": n, "obs": unscaled(draw(obs_list(n, 3, True))) if v2 else draw(obs_list(n, 3, True)), "U": draw(unitary(n)), "rng": draw(seeds),
            "eta": draw(st.one_of(st.sampled_from([0.3, 0.1, 1.0]), st.floats(0.05, 1).map(lambda x: round(x, 3)), st.none())),
            "ratio": draw(st.one_of(st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), st.none(), st.tuples(st.integers(1, 6), st.integers(1, 5)).map(list))),
            "su": draw(st.sampled_from([[None, None]] * 6 + [[True, True], [True, False], [False, True], [True, None]])),
            "steps": draw(st.lists(pick(*[st.just("chain")] * 9, *[unitary(n)] * 3, st.floats(0.05, 1).map(lambda x: round(x, 3))), min_size=1,
                                   max_size=2 if v2 else draw(st.sampled_from([9] * 8 + [26])) if n == 3 else 4))}


def cases(tier):
    return case(tier)
