from hypothesis import strategies as st
from .common import seeds

QUICK, THOROUGH = 4800, 40000
RULE = ("random matrices rho (pure and mixed states, arbitrary complex matrices) and random involutions O (Pauli "
        "words, V diag(+-1) V+), n <= 6; non-trivial = [rho, O] is not zero")
ASSUMPTIONS = ["O*O = 1"]


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 3, 1, 4, 5] * 6 + [6]))
    kind = draw(st.sampled_from(["word", "word", "inv"]))
    o = {"k": kind}
    if kind == "word":
        o["w"] = "".join(draw(st.lists(st.sampled_from("IXYZ"), min_size=n, max_size=n)))
    else:
        o.update(s=draw(seeds), m=draw(st.integers(0, 2 ** n)))
    return {"n": n, "o": o, "rho": {"k": draw(st.sampled_from(["pure", "pure", "mixed", "gin", "basis", "real"])), "s": draw(seeds),
                                                  "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e6]))},
            "lay": draw(st.sampled_from(["C", "F", "ro", "f"])), "cache": draw(st.booleans()), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
