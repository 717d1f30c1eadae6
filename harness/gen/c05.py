from hypothesis import strategies as st
from .common import seeds

QUICK, THOROUGH = 400, 6000
RULE = ("histories of 1-6 requests for operator bases (2x2, 4x4, N = 2..64; with/without identity and names, "
        "keyword or positional), where the caller may overwrite what it received; non-trivial = a basis of dimension "
        ">= 4, or a request after a caller overwrote an earlier answer")
ASSUMPTIONS = ["N is a power of two, at most 64 (64 without identity only: 729 operators)"]


def cases(tier):
    call = st.fixed_dictionaries({
        "fn": st.sampled_from(["su2", "su4", "sun", "sun"]), "k": st.sampled_from([1, 2, 3, 4, 2, 3, 1, 5] * 6 + [6]),
        "identity": st.booleans(), "names": st.booleans(), "spoil": st.booleans(), "pos": st.booleans()}).map(lambda c: dict(c, identity=False) if c["k"] == 6 else c)
    return st.fixed_dictionaries({"calls": st.lists(call, min_size=1, max_size=6), "rng": seeds})
