from hypothesis import strategies as st
from .common import pick, seeds
from .pauli import DYADIC, monomial

QUICK, THOROUGH = 4800, 50000
RULE = ("programs over sums of Pauli strings (1-6 sites, 1-9 strings with repeats and cancelling coefficients): sums, differences, "
        "products, in-place scaling, results used again; after every operation all sums in the pool are compared with their matrices; "
        "non-trivial = at least two operations, one of which merges or cancels strings")
ASSUMPTIONS = ["all strings of one sum act on the same sites", "coefficients are exact in binary floating point"]


@st.composite
def psum(draw, sites, kinds, near):
    ms = draw(st.lists(monomial(sites, True, kinds, True), min_size=1, max_size=8))
    if near:
        # strings that cancel up to a small (exact) difference
        k, c = draw(st.integers(0, len(ms) - 1)), draw(DYADIC)
        cs = draw(st.permutations([c, -c * (1 + 2.0 ** -18), draw(pick(DYADIC, st.just(c)))]))
        ms = [m for i, m in enumerate(ms) if i != k] + [[dict(p, c={"re": x} if j == 0 else None) for j, p in enumerate(ms[k])] for x in cs]
        return draw(st.permutations(ms))
    if draw(st.booleans()):
        k = draw(st.integers(0, len(ms) - 1))
        dup = [dict(p) for p in ms[k]]
        mode = draw(st.sampled_from(["same", "minus", "other"]))
        if mode == "minus" and dup:
            c = dup[0]["c"]
            dup[0]["c"] = {"re": -1.0} if c is None else dict((a, -v) for a, v in c.items())
        elif mode == "other":
            dup[0]["c"] = {"re": draw(DYADIC)}
        ms.append(dup)
    return ms


@st.composite
def case(draw, tier):
    sites = draw(st.sampled_from([[0, 1], [0], [0, 1, 2], [1, 5], [0, 2, 3, 7], [0, 1, 2, 3, 4, 10]]))
    kinds = draw(st.sampled_from([("one", "re"), ("one", "re", "im"), ("one", "re", "im", "cx")]))
    near = draw(st.integers(0, 5)) == 4
    op = st.one_of(st.tuples(st.sampled_from(["add", "sub"] if near else ["add", "sub", "mul", "sub", "self"]), st.integers(0, 9), st.integers(0, 9)).map(list),
                   st.tuples(st.just("scale"), st.integers(0, 9), st.sampled_from([2, -1, -3.0] if near else [2, -1, 0.5, "i", -3.0])).map(list))
    return {"sites": sites, "sums": draw(st.lists(psum(sites, kinds, near), min_size=1, max_size=3)),
            "real": kinds == ("one", "re"), "ops": draw(st.lists(op, min_size=1, max_size=draw(st.sampled_from([6] * 9 + [12])))), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
