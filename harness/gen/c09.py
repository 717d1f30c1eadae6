from hypothesis import strategies as st
from .common import pick, seeds

QUICK, THOROUGH = 6000, 30000
RULE = ("random simple graphs (up to 14 nodes, string or int labels, isolated nodes, regular/complete/bipartite "
        "families) with D between the maximum degree and twice it, random repetition/iteration limits, and random "
        "(proper, improper, out-of-range) colourings for the verifier; non-trivial = maximum degree >= 2")
ASSUMPTIONS = ["edges carry no attributes before colouring", "D is at least the maximum degree"]


@st.composite
def case(draw, tier):
    kind = draw(st.sampled_from(["random", "random", "complete", "bipartite", "cycle", "star", "tree"]))
    n = draw(pick(st.integers(2, 10), st.integers(2, 10), st.integers(2, 10), st.integers(11, 14)))
    if kind == "random":
        pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
        e = draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=22, unique_by=tuple))
    elif kind == "complete":
        m = min(n, 6)
        e = [[i, j] for i in range(m) for j in range(i + 1, m)]
    elif kind == "bipartite":
        a = draw(st.integers(1, n - 1))
        pairs = [[i, j] for i in range(a) for j in range(a, n)]
        e = draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=22, unique_by=tuple))
    elif kind == "cycle":
        e = [[i, (i + 1) % n] for i in range(n if n > 2 else 1)]
    elif kind == "star":
        e = [[0, i] for i in range(1, n)]
    else:
        e = [[draw(st.integers(0, i - 1)), i] for i in range(1, n)]
    return {"n": n, "edges": e, "isolated": draw(st.integers(0, 2)), "extra": draw(st.integers(0, 11)),
            "greedy": draw(st.integers(0, 3)) == 0, "rep": draw(st.integers(0, 12)), "it": draw(st.integers(0, 6)), "strs": draw(st.booleans()),
            "cols": draw(st.lists(st.integers(-1, 6), min_size=len(e), max_size=len(e))),
            "proper": draw(st.booleans()), "trace": draw(st.integers(0, 3)) == 0, "kind": kind, "rng": draw(seeds)}


def cases(tier):
    return case(tier)
