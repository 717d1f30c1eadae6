from hypothesis import strategies as st
from .common import pick, obs_list, seeds, start_gates

QUICK, THOROUGH = 1280, 10000
RULE = ("runs of the approximate optimizer over 1-9 layers in random order, repeated objects included, up to 70 steps: scripted layers "
        "that log their calls (also as an adaptive layer that receives parameters) and real deterministic layers replayed by hand; perturbed runs check the inserted rotation; non-trivial = "
        "at least two layers and more steps than layers, or a perturbation")
ASSUMPTIONS = ["layers are instances of the abstract layer class"]


@st.composite
def scripted(draw, tier):
    n = draw(st.sampled_from([2, 1, 2, 3] * 5 + [4]))
    k = draw(st.integers(1, 6))
    kinds = draw(st.lists(st.sampled_from(["set", "mul", "mul", "eye"] + (["adapt"] if n > 1 else [])), min_size=k, max_size=k))
    order = draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=12))
    return {"mode": "script", "n": n, "gates": draw(start_gates(n, 3)), "obs": draw(obs_list(n, 3, True)), "kinds": kinds,
            "order": order, "us": draw(st.lists(seeds, min_size=1, max_size=4)), "nsteps": draw(pick(st.just(7), st.integers(1, 25), st.integers(1, 25), st.integers(1, 70 if n == 1 else 40))),
            "tol": draw(st.sampled_from([1e-3, 0.5, 0.0, None])), "eta": draw(st.sampled_from([0.3, 0.1, 0.0, 1.0])),
            "perturb": draw(st.booleans()), "params": draw(st.lists(st.floats(-1, 1), max_size=2)), "rng": draw(seeds)}


@st.composite
def real(draw, tier):
    n = draw(st.sampled_from([2, 1, 2, 3]))
    kinds = ["local1", "custom", "squared"] + (["local2"] if n % 2 == 0 else []) + (["su8", "zass"] if n >= 3 else [])
    return {"mode": "real", "n": n, "gates": draw(start_gates(n, 3)), "obs": draw(obs_list(n, 3, True)),
            "layers": draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=5)), "leta": draw(st.sampled_from([0.1, 0.7])),
            "nsteps": draw(st.one_of(st.just(4), st.integers(1, 12 if n < 3 else 5))), "tol": draw(st.sampled_from([None, 1e-3])),
            "eta": draw(st.sampled_from([0.1, 1.0])), "rng": draw(seeds)}


def cases(tier):
    return pick(scripted(tier), scripted(tier), real(tier))
