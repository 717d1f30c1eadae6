from hypothesis import strategies as st
from .common import seeds
from .pauli import monomial

QUICK, THOROUGH = 4800, 50000
RULE = ("lists of 2-8 Pauli strings on the same sites with real and imaginary coefficients, many sharing letters; equality, hashing, "
        "ordering, sorting, sets and conversion to operator-table keys are compared with a model that only looks at sites, letters "
        "and coefficients; non-trivial = the list contains two strings that are equal, or that differ only in the coefficient")
# coefficients are dyadic so that their products are exact in any order
TINY = 2.0 ** -33
ASSUMPTIONS = ["coefficients are real or purely imaginary, the two classes the ordering is documented for; for other complex "
               "coefficients only symmetry of equality and equality of the hashes of equal strings are required"]


@st.composite
def case(draw, tier):
    sites = draw(st.sampled_from([[0, 1], [0], [0, 1, 2], [1, 5], [0, 2, 3, 7], [2, 11], [9, 10, 100]]))
    kinds = ("one", "re", "im")
    ms = draw(st.lists(monomial(sites, True, ("one", "re"), True), min_size=1, max_size=4))
    out = list(ms)
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, len(out) - 1))
        m = [dict(p) for p in draw(st.permutations(out[k]))]
        z = draw(st.integers(0, len(m) - 1))
        if draw(st.booleans()):
            c = draw(st.sampled_from([{"re": 1.5}, {"re": -0.25}, {"re": 0.0, "im": 2.0}, {"re": 0.0, "im": -0.5}, None,
                                           {"re": 0.0, "im": TINY}, {"re": TINY}, {"re": 0.0, "im": -2.0 ** -13}]))
            if all("im" not in (p["c"] or {}) for p in m) or "im" not in (c or {}):
                m[z]["c"] = c
        else:
            m[z]["g"] = draw(st.sampled_from("IXYZ"))
        out.append(m)
    # strings whose coefficient is neither real nor imaginary, only used to relate equality and hashes
    mixed = []
    for _ in range(draw(st.integers(0, 2))):
        m = [dict(p) for p in draw(st.sampled_from(out))]
        for p in m:
            p["c"] = None
        m[0]["c"] = draw(st.sampled_from([{"re": 1.0, "im": 1e-10}, {"re": 1.0, "im": 2.0}, {"re": 1e-12, "im": 1.0},
                                          {"re": -1.0, "im": 1.0}, {"re": 3.0, "im": -1e-5}]))
        mixed.append(m)
    return {"sites": sites, "mons": out, "mixed": mixed, "short": draw(monomial(sites, True, kinds, False)), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
