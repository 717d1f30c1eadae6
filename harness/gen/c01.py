from hypothesis import strategies as st
from .common import pick, seeds, wires

QUICK, THOROUGH = 6000, 40000
RULE = ("random local operators (Haar, Ginibre, single-entry, Pauli word, permutation; several memory layouts and "
        "dtypes) on random wire subsets in random order, n <= 8, several promotions per case, plus inputs that must "
        "be refused; non-trivial = a promotion with n > number of wires, or wires out of order")
ASSUMPTIONS = ["wires are distinct", "operator dimensions are powers of two"]


@st.composite
def op(draw, k):
    kind = draw(st.sampled_from(["gin", "gin", "haar", "unit", "word", "perm", "near"]))
    o = {"k": kind, "n": k}
    if kind == "unit":
        o.update(i=draw(st.integers(0, 2 ** k - 1)), j=draw(st.integers(0, 2 ** k - 1)),
                 v=draw(st.sampled_from([1.0, -1.0, 0.5, 1e-3])))
    elif kind == "word":
        o["w"] = "".join(draw(st.lists(st.sampled_from("IXYZ"), min_size=k, max_size=k)))
    else:
        o["s"] = draw(seeds)
        if kind == "near":      # almost real, almost symmetric or almost the identity
            o["base"] = draw(st.sampled_from(["real", "sym", "eye"]))
        elif kind == "gin":
            o["scale"] = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e8]))
    return o


@st.composite
def item(draw):
    n = draw(pick(st.integers(1, 6), st.integers(1, 6), st.integers(1, 8)))
    k = draw(pick(st.integers(1, min(n, 4)), st.integers(1, min(n, 6))))
    return {"n": n, "q": draw(wires(n, k)), "op": draw(op(k)),
            "cont": draw(st.sampled_from(["tuple", "list", "wires", "array"])),
            "lay": draw(st.sampled_from(["C", "F", "T", "stride", "real"]))}


@st.composite
def bad(draw):
    n = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["range", "range", "size"]))
    if kind == "range":
        k = draw(st.integers(1, min(n, 3)))
        q = draw(wires(n, k))
        q[draw(st.integers(0, k - 1))] = draw(st.sampled_from([n, n + 1, -1, -n, n + 3, -n - 1]))
        return {"bad": kind, "n": n, "q": q, "k": k}
    k = draw(st.integers(1, n))
    m = draw(st.integers(1, 3).filter(lambda x: True))
    if m == k:
        m = k + 1
    return {"bad": kind, "n": n, "q": draw(wires(n, k)), "k": m}


def cases(tier):
    return st.fixed_dictionaries({"items": st.lists(item(), min_size=1, max_size=4),
                                  "bad": st.one_of(st.none(), bad()), "rng": seeds})
