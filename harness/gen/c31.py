from hypothesis import strategies as st
from .common import pick, seeds

QUICK, THOROUGH = 4000, 60000
RULE = ("random complex, real and integer matrices (square and rectangular, dimension 1-32; dense, single-entry, rank one, unitary, nilpotent; "
        "scales 1e-8..1e8; several memory layouts) with a scalar and a second matrix; the norm is compared with the sum of squared "
        "entries and with the norm axioms; non-trivial = a non-diagonal matrix with an imaginary part")
ASSUMPTIONS = ["finite entries"]


@st.composite
def case(draw, tier):
    a = draw(st.sampled_from([2, 4, 3, 8, 1, 16, 32, 5, 64]))
    b = draw(pick(st.just(a), st.just(a), st.integers(1, 9)))
    return {"a": a, "b": b, "kind": draw(st.sampled_from(["dense", "dense", "nil", "rank1", "unitary", "single", "real", "int", "herm"])),
            "s": draw(seeds), "scale": draw(st.sampled_from([1.0, 3.5, 1e-8, 1e8, 1e-3])), "layout": draw(st.sampled_from(["C", "F", "T"])),
            "c": [draw(st.floats(-5, 5).map(lambda x: round(x, 4))), draw(st.floats(-5, 5).map(lambda x: round(x, 4)))]}


def cases(tier):
    return case(tier)
