from hypothesis import strategies as st
from .common import seeds
from .pauli import monomial

QUICK, THOROUGH = 6000, 50000
RULE = ("Pauli operators and strings (real, imaginary, complex, unit, zero and symbolic coefficients; sites up to 112, in any order; "
        "identities) and the products, commutators and conjugates made of them; printed and TeX forms, with and without coefficient, "
        "are read back and compared with the object; non-trivial = a string of at least two operators with a coefficient other than one")
ASSUMPTIONS = ["symbols are named x, y, z"]
SITES = st.sampled_from([[0, 1, 2], [2, 10], [1, 12, 3], [0, 2, 5, 7], [3], [112, 11, 1]])


@st.composite
def case(draw, tier):
    sites = draw(SITES)
    kinds = draw(st.sampled_from([("re", "one", "im", "cx"), ("re", "im", "cx"), ("one", "sym", "re"), ("one",)]))
    exact = draw(st.booleans())
    return {"mons": draw(st.lists(monomial(sites, exact, kinds, zero=draw(st.integers(0, 5)) == 0), min_size=1, max_size=3)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(["show", "mul", "comm", "conj", "show"]), st.integers(0, 9),
                                           st.integers(0, 9)).map(list), max_size=5)), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
