from hypothesis import strategies as st
from .common import obs_list, pauli_obs, seeds, unitary

QUICK, THOROUGH = 320, 2500
RULE = ("figures of gradient components for random sequences of unitaries and random observables (two and four qubits), and cost "
        "landscapes over random grids (each inner grid point is looked up in the drawn contours); every plotted line is read back and compared, by its label, with independently computed "
        "gradients; non-trivial = at least two unitaries with a non-zero gradient, or a grid of at least 3x3")
ASSUMPTIONS = ["the SU(8) figures are defined for two qubits and the SU(16) figures for four, as in their only uses"]


@st.composite
def case(draw, tier):
    k = draw(st.sampled_from(["individual", "su8", "su16", "landscape", "font", "separate"]))
    n = 2 if k in ("individual", "su8") else 4
    c = {"k": k, "n": n, "rng": draw(seeds)}
    if k in ("landscape", "font"):
        c["shape"] = [draw(st.integers(2, 6)), draw(st.integers(2, 6))]
        c["s"] = draw(seeds)
        c["size"] = draw(st.integers(4, 30))
    else:
        c["obs"] = draw(obs_list(n, 3, True))
        if draw(st.integers(0, 2)) == 0:
            # mirrored pairs: gradients that change sign from one unitary to the next
            c["obs"] = draw(st.lists(pauli_obs(n), min_size=1, max_size=2))
            g = st.tuples(st.sampled_from(["RX", "RY"]), st.integers(0, n - 1), st.floats(0.1, 1.5)).map(
                lambda t: {"g": t[0], "q": [t[1]], "a": [round(t[2], 3)]})
            gs = draw(st.lists(g, min_size=1, max_size=3))
            c["us"] = [{"k": "gates", "gates": gs, "ph": 0.0},
                       {"k": "gates", "gates": [dict(x, a=[-x["a"][0]]) for x in gs], "ph": 0.0}]
        else:
            c["us"] = draw(st.lists(unitary(n), min_size=1, max_size=draw(st.sampled_from([8, 8, 8, 26])) if n == 2 else 3))
        if draw(st.integers(0, 3)) == 3:
            # a sequence that stands still or comes back
            i = draw(st.integers(0, len(c["us"]) - 1))
            c["us"] = c["us"][:i + 1] + draw(st.sampled_from([c["us"][i:], c["us"][i:i + 1] + c["us"], [c["us"][i]] * 2]))
    return c


def cases(tier):
    return case(tier)
