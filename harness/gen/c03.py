from hypothesis import strategies as st
from .common import any_obs, hermitian3, pick, seeds, unitary

QUICK, THOROUGH = 3200, 24000
RULE = ("histories of 1-5 evaluations of random unitaries (gates, Haar, permutation, global phase; n <= 6) and "
        "observables (Pauli words on unordered wires, Hermitian matrices, Hadamard) on one pair of circuits; "
        "non-trivial = the state is not a computational basis state")
ASSUMPTIONS = ["the unitary acts on all wires of the device",
               "no Hermitian observable on three wires in cyclic order (PennyLane 0.15.1 measures these wrongly)"]


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 3, 1, 4, 5] * 6 + [6]))
    step = st.fixed_dictionaries({"u": unitary(n), "o": pick(any_obs(n), any_obs(n), any_obs(n), hermitian3(n)) if n >= 3 else any_obs(n), "which": st.sampled_from(["state", "obs", "both"]),
                                  "fresh": st.booleans()})
    return {"n": n, "steps": draw(st.lists(step, min_size=1, max_size=40 if n < 3 and draw(st.integers(0, 29)) == 28 else 5)),
            "missing": draw(st.sampled_from([None, None, None, "s", "u", "o", "uo"])), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
