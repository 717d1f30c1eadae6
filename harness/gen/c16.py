from hypothesis import strategies as st
from .common import pick, etas, obs_list, seeds, unitary, wires

QUICK, THOROUGH = 1800, 20000
RULE = ("random unitaries, observables (Pauli words, Hadamards, random Hermitians, huge Hermitians), SU(2)- and SU(4)-local "
        "layers with every option, several consecutive calls with step-size changes in between; every call is compared with "
        "an independently computed product of exponentials; non-trivial = at least one non-zero gradient, eta > 0 and n >= 2")
ASSUMPTIONS = ["for observables of norm above 1e6 the matrix exponential itself loses accuracy: there only unitarity is required, "
               "and only with the unitary check switched on"]
W1, W2 = list("XYZ"), [a + b for a in "XYZ" for b in "XYZ"]


@st.composite
def case(draw, tier):
    loc = draw(st.sampled_from([1, 2]))
    big = tier == "thorough"
    n = draw(st.sampled_from([3, 2, 1, 4] * (3 if big else 15) + [5] * 3 + [6])) if loc == 1 else draw(st.sampled_from([2, 2, 2, 4] * 12 + [6]))
    names = W1 if loc == 1 else W2
    c = {"n": n, "loc": loc, "obs": draw(obs_list(n, 3, True)), "rng": draw(seeds),
         "U": draw(unitary(n)), "eta": draw(etas(0.0, True)),
         "trotter": draw(st.booleans()), "check": draw(st.booleans()),
         "stride": draw(st.sampled_from([None, 0, 1])) if loc == 2 else None,
         "dirs": draw(pick(st.none(), st.lists(st.sampled_from(names), min_size=1, max_size=5), st.lists(st.sampled_from(names), max_size=5))),
         "steps": draw(st.lists(pick(st.just("call"), etas(0.0)), min_size=0, max_size=3 if n < 5 else 1))}
    if n < 3 and draw(st.integers(0, 24)) == 23:
        c["steps"] = draw(st.lists(pick(st.just("call"), st.just("call"), etas(0.0)), min_size=20, max_size=45))
    if draw(st.integers(0, 4)) == 4:
        k = draw(st.integers(1, min(n, 2)))
        c["obs"] = c["obs"][:1] + [{"t": "H", "m": {"k": "gin", "n": k, "s": draw(seeds),
                                                    "scale": draw(st.sampled_from([10.0, 1e3, 1e10, 1e11, 1e12]))},
                                    "q": draw(wires(n, k))}]
    return c


def cases(tier):
    return case(tier)
