from hypothesis import strategies as st
from .common import etas, obs_list, seeds, unitary

QUICK, THOROUGH = 900, 8000
RULE = ("layers of every class with random options (direction subsets in any order and with repetitions, none, step size, "
        "trotterisation), asked for their direction names and printed form before, between and after steps and step-size changes, "
        "several layers side by side; the names are compared with the words the options allow; non-trivial = a proper subset of "
        "directions, or at least one step")
ASSUMPTIONS = ["device wires are 0..n-1"]
ONE = ["X", "Y", "Z"]
TWO = [a + b for a in "XYZ" for b in "XYZ"]


@st.composite
def layer(draw, n):
    ts = ["local1", "custom", "stochastic", "squared"] + (["local2"] if n % 2 == 0 else []) + (["adapt"] if n > 1 else []) + (
        ["su8", "zass", "zass2"] if n >= 3 else [])
    t = draw(st.sampled_from(ts))
    kw = {}
    if draw(st.booleans()):
        kw["eta"] = draw(etas())
    if t in ("local1", "local2", "custom", "stochastic") and draw(st.booleans()):
        kw["trotterize"] = draw(st.booleans())
    if t == "local2" and draw(st.booleans()):
        kw["stride"] = draw(st.integers(0, 1))
    pool = {"local1": ONE, "local2": TWO, "custom": ONE + TWO}.get(t)
    dirs = None
    if pool and draw(st.integers(0, 3)):
        dirs = draw(st.lists(st.sampled_from(pool), max_size=6))
    return {"t": t, "kw": kw, "dirs": dirs}


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 2, 3, 1, 4] * 8 + [5]))
    ls = draw(st.lists(layer(n), min_size=1, max_size=3))
    ops = draw(st.lists(st.tuples(st.sampled_from(["call", "show", "eta", "call"]), st.integers(0, 5),
                                  st.sampled_from([0.3, 0.0, 1.0, 0.05])).map(list), max_size=5))
    return {"n": n, "layers": ls, "ops": ops, "U": draw(unitary(n)), "obs": draw(obs_list(n, 3)), "rng": draw(seeds)}


def cases(tier):
    return case(tier)
