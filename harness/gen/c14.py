from hypothesis import strategies as st
from .common import pick, etas, angle, gate, obs_list, seeds

QUICK, THOROUGH = 480, 8000
RULE = ("random parametrised circuits (shared, scaled and unused parameters; lists, nested lists and arrays), 1-4 observables (random and large Hermitians included), "
        "eta in [0,1] or default, 1-8 steps (up to 40 in some), n <= 4, up to 12 parameters; every step compared with plain gradient descent on a reference energy "
        "differentiated by a fourth-order rule; non-trivial = a gradient component above 1e-4")
ASSUMPTIONS = ["single- and two-qubit rotations, controlled rotations and Pauli rotations"]
NAMES = {"RX": 1, "RY": 1, "RZ": 1, "Rot": 3, "CRX": 1, "CRZ": 1, "PhaseShift": 1}


@st.composite
def heavy(draw, n):
    """A total energy, and so gradients, far above one."""
    q = draw(st.integers(0, n - 1))
    return draw(obs_list(n, 2)) + [{"t": "H", "m": {"k": "gin", "n": 1, "s": draw(seeds), "scale": draw(st.sampled_from([20.0, 6.0, 60.0]))}, "q": [q]}]


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 3, 1] * 5 + [4]))
    m = draw(st.sampled_from([2, 3, 1, 4] * 4 + [7, 12]))
    ref = st.tuples(st.just("p"), st.integers(0, m - 1), st.sampled_from([1.0, 1.0, 2.0, -1.0, 0.5])).map(list)
    g = draw(st.lists(gate(n, draw(st.booleans()), pick(ref, ref, angle())), min_size=1, max_size=6))
    g = [x for x in g if not x.get("inv")]
    for i in range(m):
        if draw(st.integers(0, 3)):
            g.append({"g": draw(st.sampled_from(["RX", "RY", "RZ"])), "q": [draw(st.integers(0, n - 1))], "a": [["p", i, 1.0]]})
    if n > 1:
        g.append({"g": "CNOT", "q": [0, 1], "a": []})
        g.append({"g": "RY", "q": [1], "a": [["p", 0, 1.0]]})
    shape = draw(st.sampled_from(["list", "list", "pnp", "nested"]))
    # bounds the number of circuits one run evaluates
    steps = pick(st.just(4), st.integers(1, 8), st.integers(1, 8), st.integers(1, 8) if m > 4 or n > 3 else st.sampled_from([None, 15, 25]))
    obs = draw(pick(obs_list(n, 3), obs_list(n, 3, True), heavy(n)))
    return {"n": n, "gates": g, "params": draw(st.lists(angle(), min_size=m, max_size=m)), "shape": shape,
            "obs": obs[-6:], "eta": draw(etas(none=True)),
            "nsteps": draw(steps),
            "tol": draw(st.sampled_from([1e-6, 1e-3, 0.0])), "state": draw(st.booleans()), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
