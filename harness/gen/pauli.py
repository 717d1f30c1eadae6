"""Strategies for the Pauli-string classes."""
from hypothesis import strategies as st

DYADIC = st.integers(-16, 16).filter(lambda k: k != 0).map(lambda k: k / 4.0)
_F = st.floats(-3, 3).map(lambda x: round(x, 5)).filter(lambda x: abs(x) > 1e-3)
GENERIC = st.one_of(_F, _F.map(lambda x: x / 3), _F.map(lambda x: -x), st.sampled_from([1.0000001, -1.0, 1e-7, 0.999999, 1e4, -1.0000001, 1.0]))


@st.composite
def coeff(draw, exact=True, zero=False, kinds=("one", "re", "im", "cx")):
    """[re, im]; a plain float in the case of kind 're' (type float), complex otherwise."""
    k = draw(st.sampled_from(list(kinds) + (["zero"] if zero else [])))
    f = DYADIC if exact else GENERIC
    if k == "one":
        return None
    if k == "zero":
        return {"re": 0.0}
    if k == "re":
        return {"re": draw(f)}
    if k == "im":
        return {"re": 0.0, "im": draw(f)}
    if k == "sym":
        return {"sym": draw(st.sampled_from("xyz")), "re": draw(DYADIC), "im": draw(st.booleans()), "pow": draw(st.integers(1, 2))}
    return {"re": draw(f), "im": draw(f)}


@st.composite
def pauli(draw, site, exact=True, identity=True, kinds=("one", "re", "im", "cx"), zero=False):
    return {"s": site, "g": draw(st.sampled_from("XYZI" if identity else "XYZ")), "int": draw(st.booleans()),
            "c": draw(coeff(exact, zero, kinds))}


@st.composite
def monomial(draw, sites, exact=True, kinds=("one", "re", "im", "cx"), full=False, zero=False):
    """A monomial on some of the sites (all of them when full), in any order."""
    k = len(sites) if full else draw(st.integers(1, len(sites)))
    chosen = draw(st.permutations(sites))[:k]
    return [draw(pauli(s, exact, True, kinds, zero)) for s in chosen]
