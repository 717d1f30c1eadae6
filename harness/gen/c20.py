from hypothesis import strategies as st
from .common import pick, angle, obs_list, seeds, unitary

QUICK, THOROUGH = 900, 12000
RULE = ("calls of the commuting line-search layer on symmetric and random unitaries, with model Hamiltonians (many tied words) and "
        "random ones, in histories of ordinary and commuting calls of one layer, with a stub or the real optimizer; non-trivial = more than one rotation in "
        "the layer, or tied words that overlap so that some must be dropped")
ASSUMPTIONS = ["words whose gradient lies within 5% of the tie threshold 1e-3 are not judged"]


@st.composite
def sym(draw):
    pool = st.tuples(st.sampled_from(["RY", "Hadamard", "RX", "RZ"]), angle(), st.booleans()).map(list)
    return {"k": "sym", "layers": draw(st.lists(pool, min_size=1, max_size=3))}


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([3, 4, 2, 3, 1, 4] * (1 if tier == "thorough" else 8) + [5]))
    kind = draw(st.sampled_from(["ring", "field", "free", "free"]))
    if kind == "free":
        obs = draw(obs_list(n, 3, True))
    else:
        a = draw(st.sampled_from("ZXY"))
        obs = [{"t": "P", "w": a, "q": [i]} for i in range(n)]
        if kind == "ring" and n > 1:
            b = draw(st.sampled_from("XZY"))
            m = n if n > 2 and draw(st.booleans()) else n - 1
            obs += [{"t": "P", "w": b + b, "q": [i, (i + 1) % n]} for i in range(m)]
    real = draw(st.sampled_from([False] * 30 + [True])) and n <= 3
    comm = ["comm", "chain"]
    src = pick(st.just("chain"), st.just("again"), pick(sym(), unitary(n)))
    call = st.tuples(st.sampled_from(["comm", "plain"]), src).map(list)
    calls = draw(pick(st.just([comm]), st.just([["plain", "chain"], comm]), st.lists(call, min_size=2, max_size=4 if n > 3 else 7)))
    return {"n": n, "obs": obs, "U": draw(pick(sym(), sym(), unitary(n))), "calls": calls[:2] if real else calls,
            "angles": draw(st.lists(angle(), min_size=3, max_size=6)), "real": real, "rng": draw(seeds)}


def cases(tier):
    return case(tier)
