from hypothesis import strategies as st
from .common import etas, involution, obs_list, pauli_obs, seeds, start_gates

QUICK, THOROUGH = 560, 9000
RULE = ("random initial circuits (n <= 5), 1-6 involutory observables (Pauli words of any weight on unordered wires, "
        "Hadamard, random reflections, duplicates, spin chains), eta in [0,1] incl. the ends and the default, 1-110 steps, all combinations of "
        "what to return; every recorded step compared with the reference flow; non-trivial = the state moved and at "
        "least one step was compared")
ASSUMPTIONS = ["observables square to the identity (for other observables the parameter-shift rule is not the commutator)"]
ETA = etas(none=True)


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 1, 2, 2, 3, 3, 2, 1, 4, 5]))
    obs = draw(obs_list(n, 4))
    if draw(st.integers(0, 5)) == 0:
        obs = obs + [{"t": "Had", "q": [draw(st.integers(0, n - 1))]}]
    if draw(st.integers(0, 3)) == 0:
        obs = [draw(pauli_obs(n, n))]
    if draw(st.integers(0, 2)) == 0:
        extra = draw(st.lists(involution(n), min_size=1, max_size=3))
        if draw(st.booleans()):
            # different observables of the same kind on the same wires
            extra.append({"t": "H", "m": dict(extra[0]["m"], s=extra[0]["m"]["s"] + 1), "q": list(extra[0]["q"])})
        obs = obs[:2] + extra
    return {"n": n, "gates": draw(start_gates(n)), "obs": obs, "eta": draw(ETA),
            "nsteps": draw(st.one_of(st.integers(1, 8), st.integers(6, 30), st.none(), st.integers(45, 110) if n == 1 else st.integers(1, 8)) if n < 4 else st.integers(1, 8 if n == 4 else 3)),
            "tol": draw(st.sampled_from([1e-6, 1e-3, 0.0, 1e-8, None])),
            "flags": draw(st.lists(st.booleans(), min_size=2, max_size=2)), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
