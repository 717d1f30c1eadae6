from hypothesis import strategies as st
from .common import seeds
from .pauli import monomial, pauli

QUICK, THOROUGH = 8000, 80000
RULE = ("Pauli operators and strings on up to six sites with real, imaginary, complex and symbolic coefficients; products, "
        "commutators, commutation tests and conjugates, nested (a result is used again as operand); every result is compared with "
        "the matrices, and every operand is compared with its state before; non-trivial = two strings overlapping on at least one "
        "site, or a nested operation")
ASSUMPTIONS = ["commutation is tested on coefficients whose products are exact in binary floating point",
               "symbols stand for real numbers"]
SITES = st.sampled_from([[0, 1, 2], [0, 1], [1, 4], [0, 2, 5, 7], [3], [2, 3, 11], [0, 1, 2, 3, 4, 5], [9, 10, 100]])


@st.composite
def case(draw, tier):
    sites = draw(SITES)
    kinds = draw(st.sampled_from([("one", "re", "im", "cx"), ("one", "re", "im", "cx"), ("one", "sym", "re"), ("one",)]))
    exact = draw(st.booleans())
    ops = draw(st.lists(st.tuples(st.sampled_from(["mul", "comm", "commutes", "conj", "mul"]), st.integers(0, 9), st.integers(0, 9)).map(list),
                        min_size=1, max_size=draw(st.sampled_from([5] * 9 + [14]))))
    s = draw(st.sampled_from(sites))
    return {"sites": sites, "mons": draw(st.lists(monomial(sites, exact, kinds, zero=draw(st.integers(0, 5)) == 4), min_size=2, max_size=3)), "exact": exact,
            "ops": ops, "p": [draw(pauli(s, exact, True, kinds)), draw(pauli(s, exact, True, kinds))],
            "other": draw(st.sampled_from([x for x in range(9) if x != s])), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
