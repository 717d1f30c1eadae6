from hypothesis import strategies as st
from .common import seeds

QUICK, THOROUGH = 700, 8000
RULE = ("one to four generators (three-qubit Pauli strings, real or imaginary unit coefficient, given in any site order, sparse and "
        "dense, repeated, commuting and not), closed under commutators by both graph builders; nodes, edges and depths are compared "
        "with a breadth-first closure over words; non-trivial = at least one commutator outside the generators")
ASSUMPTIONS = ["generators are full strings on qubits 0, 1, 2 with coefficient +-1 or +-i, the register the graph builders are written for"]


@st.composite
def case(draw, tier):
    kind = draw(st.sampled_from(["sparse", "any", "sparse", "pair"]))
    if kind == "any":
        words = draw(st.lists(st.tuples(*[st.sampled_from("XYZI")] * 3).map("".join), min_size=2, max_size=3))
    elif kind == "pair":
        words = [draw(st.sampled_from([a + b + "I" for a in "XYZ" for b in "XYZ"])),
                 draw(st.sampled_from(["I" + a + b for a in "XYZ" for b in "XYZ"]))]
    else:
        words = draw(st.lists(st.sampled_from(["XII", "ZZI", "IZZ", "IXI", "IIX", "YII", "ZIZ", "IIZ", "III", "XXI", "IYZ"]),
                              min_size=2, max_size=4))
    return {"gens": [{"w": w, "c": draw(st.sampled_from(["1", "1", "1", "-1", "i", "-i"])), "perm": draw(st.permutations([0, 1, 2]))}
                     for w in words], "dir": draw(st.booleans()), "su4": draw(st.integers(0, 15)) == 7, "rng": draw(seeds)}


def cases(tier):
    return case(tier)
