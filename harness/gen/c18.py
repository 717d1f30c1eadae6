from hypothesis import strategies as st
from .common import pick, etas, obs_list, seeds, unitary, wires

QUICK, THOROUGH = 2400, 16000
RULE = ("histories of the stochastic layer (1-30 calls, n 1-4, step-size changes in between) and of the direction sampler on its "
        "own (10-600 draws, n 1-6); every draw is checked against a model of the sweep over qubits and words and every step "
        "against the exponential of the gradient along the drawn word; long sampler histories must reach every word and every "
        "pair of qubits; non-trivial = the history crosses a sweep boundary and n >= 2")
ASSUMPTIONS = ["no claim about the probabilities, only that every word and every pair occurs in long histories "
               "(false-alarm probability below 1e-10)"]


@st.composite
def layer(draw, tier):
    n = draw(st.sampled_from([2, 3, 1, 2, 3] * 6 + [4, 4, 5]))
    c = {"mode": "layer", "n": n, "obs": draw(obs_list(n, 3, True)), "U": draw(unitary(n)), "rng": draw(seeds),
         "eta": draw(etas(0.0, True)), "check": draw(st.booleans()),
         "steps": draw(st.lists(pick(st.just("call"), st.just("call"), st.just("call"), etas(0.0)), min_size=1, max_size=14 if n > 2 else draw(st.sampled_from([30] * 8 + [90]))))}
    if draw(st.integers(0, 6)) == 6:
        k = draw(st.integers(1, min(n, 2)))
        c["obs"] = c["obs"][:1] + [{"t": "H", "m": {"k": "gin", "n": k, "s": draw(seeds), "scale": draw(st.sampled_from([10.0, 1e11, 1e12]))},
                                    "q": draw(wires(n, k))}]
    return c


@st.composite
def sampler(draw, tier):
    su2 = draw(st.sampled_from([True, True, True, False]))
    n = draw(st.sampled_from([3, 4, 2, 5, 1, 6] if su2 else [2, 4]))
    return {"mode": "sampler", "n": n, "su2": su2, "draws": draw(st.one_of(st.just(30), st.integers(10, 60), st.just(600))), "rng": draw(seeds)}


def cases(tier):
    return pick(layer(tier), layer(tier), sampler(tier))
