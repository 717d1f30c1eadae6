from hypothesis import strategies as st
from .common import pick, etas, obs_list, seeds, unitary, wires

QUICK, THOROUGH = 2000, 15000
RULE = ("random unitaries, observables and direction lists (any subset of one- and two-letter words, or none given), several "
        "consecutive calls with step-size changes; every call is compared with an independently computed exponential over all "
        "qubits and ascending pairs; non-trivial = at least one non-zero gradient, eta > 0 and n >= 2")
ASSUMPTIONS = ["observables of norm above 1e6: unitarity only, with the unitary check on"]
WORDS = list("XYZ") + [a + b for a in "XYZ" for b in "XYZ"]


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([3, 2, 1, 2] * (1 if tier == "thorough" else 6) + [4]))
    names = WORDS
    c = {"n": n, "obs": draw(obs_list(n, 3, True)), "rng": draw(seeds),
         "U": draw(unitary(n)), "eta": draw(etas(0.0, True)),
         "trotter": draw(st.booleans()), "check": draw(st.booleans()),
         "dirs": draw(pick(st.lists(st.sampled_from(names), min_size=1, max_size=5), st.none(), st.lists(st.sampled_from(names), max_size=5))),
         "steps": draw(st.lists(pick(st.just("call"), etas(0.0)), min_size=0, max_size=3))}
    if n < 3 and draw(st.integers(0, 24)) == 23:
        c["steps"] = draw(st.lists(pick(st.just("call"), st.just("call"), etas(0.0)), min_size=20, max_size=45))
    if draw(st.integers(0, 5)) == 5:
        k = draw(st.integers(1, min(n, 2)))
        c["obs"] = c["obs"][:1] + [{"t": "H", "m": {"k": "gin", "n": k, "s": draw(seeds),
                                                    "scale": draw(st.sampled_from([10.0, 1e3, 1e11, 1e12]))},
                                    "q": draw(wires(n, k))}]
    return c


def cases(tier):
    return case(tier)
