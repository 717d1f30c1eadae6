from hypothesis import strategies as st
from .common import pick, etas, involution, obs_list, pauli_obs, seeds, start_gates, unitary

QUICK, THOROUGH = 1000, 16000
RULE = ("(a) exact flow of one involutory observable from random circuits, any eta in [0,1], up to 60 steps: the cost "
        "follows the closed form and never rises; (b) one step of the local, custom and stochastic layers with a small "
        "eta from a random unitary: the energy change is the predicted descent within a second-order bound; (c) costs of "
        "multi-observable runs stay inside the Hamiltonian's spectrum; non-trivial = a visible predicted decrease")
ASSUMPTIONS = ["exact arithmetic up to 1e-8"]


@st.composite
def exact(draw, tier):
    n = draw(st.sampled_from([2, 1, 3, 4] * 8 + [5]))
    o = draw(st.one_of(pauli_obs(n, n), involution(n), st.builds(lambda q: {"t": "Had", "q": [q]}, st.integers(0, n - 1))))
    return {"mode": "exact", "n": n, "gates": draw(start_gates(n)), "obs": [o],
            "eta": draw(etas()),
            "nsteps": draw(st.one_of(st.just(8), st.integers(1, 60 if n < 3 else 12))), "tol": draw(st.sampled_from([0.0, 1e-6])), "rng": draw(seeds)}


@st.composite
def spectrum(draw, tier):
    n = draw(st.integers(1, 3))
    return {"mode": "spectrum", "n": n, "gates": draw(start_gates(n)), "obs": draw(obs_list(n, 4)),
            "eta": draw(st.sampled_from([1.0, 0.5, 0.1])), "nsteps": draw(st.integers(1, 20)), "tol": 0.0,
            "which": draw(st.sampled_from(["exact", "approx", "ps"])), "rng": draw(seeds)}


@st.composite
def layer(draw, tier):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    kind = draw(st.sampled_from(["local1", "custom", "stochastic"] + (["local2"] if n % 2 == 0 else [])))
    return {"mode": "layer", "n": n, "u": draw(unitary(n)), "obs": draw(obs_list(n, 4, True)), "kind": kind,
            "eta": draw(st.sampled_from([1e-2, 3e-3, 1e-3, 1e-4])), "trotter": draw(st.booleans()), "rng": draw(seeds)}


def cases(tier):
    return pick(exact(tier), layer(tier), layer(tier), spectrum(tier))
