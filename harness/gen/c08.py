from hypothesis import strategies as st
from .common import pick, seeds

QUICK, THOROUGH = 4000, 60000
RULE = ("random edge lists (random graphs, stars, cycles, paths, complete graphs, matchings; 1-qubit 'edges'; any "
        "orientation and order, up to 16 vertices) with 1-3 repeated requests; non-trivial = some vertex is in two edges")
ASSUMPTIONS = ["edges are distinct as unordered pairs and join two different qubits (what the layers produce)"]


@st.composite
def case(draw, tier):
    kind = draw(st.sampled_from(["random", "random", "random", "star", "cycle", "path", "complete", "matching", "single", "two"]))
    n = draw(pick(st.integers(2, 10), st.integers(2, 10), st.integers(2, 10), st.integers(11, 16)))
    lab = draw(st.permutations(list(range(max(n, 10)))))
    if kind == "single":
        e = [[q] for q in range(draw(st.integers(1, n)))]
    else:
        pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
        if kind == "random":
            e = draw(st.lists(st.sampled_from(pairs), min_size=1, max_size=18, unique_by=tuple))
        elif kind == "star":
            e = [[0, i] for i in range(1, n)]
        elif kind == "cycle":
            e = [[i, (i + 1) % n] for i in range(n if n > 2 else 1)]
        elif kind == "path":
            e = [[i, i + 1] for i in range(n - 1)]
        elif kind == "complete":
            m = min(n, 6)
            e = [[i, j] for i in range(m) for j in range(i + 1, m)]
        elif kind == "matching":
            e = [[i, i + 1] for i in range(0, n - 1, 2)]
        else:  # two components
            e = [[0, 1], [1, 2]] + [[3 + i, 4 + i] for i in range(n - 4)] if n > 4 else [[0, 1], [1, 2]]
    e = draw(st.permutations(e))
    flips = draw(st.lists(st.booleans(), min_size=len(e), max_size=len(e)))
    out = []
    for x, f in zip(e, flips):
        x = [lab[v] for v in x]
        out.append(x[::-1] if f else x)
    return {"edges": out, "reps": draw(st.integers(1, 3)), "kind": kind, "rng": draw(seeds)}


def cases(tier):
    return case(tier)
