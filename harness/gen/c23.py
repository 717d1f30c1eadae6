from hypothesis import strategies as st
from .common import seeds

QUICK, THOROUGH = 2400, 12000
RULE = ("histories over the operator tables of the SU(2), SU(4) and SU(8) algebras (every switch, n 1-6): build the table, rebuild it, "
        "add words on arbitrary (unsorted) qubits, draw random words; after every "
        "operation every key and every matrix is compared with independently built Kronecker products; non-trivial = n >= 3 and at "
        "least two operations")
ASSUMPTIONS = ["tables are built before any random draw, as all layers do"]


@st.composite
def case(draw, tier):
    kind = draw(st.sampled_from(["su4", "su8", "su2"]))
    n = draw(st.sampled_from([3, 4, 2, 1, 5] * 10 + [6] if kind != "su8" else [3, 4, 2, 3, 1] * (2 if tier == "thorough" else 16) + [5]))
    flags = [draw(st.sampled_from([None, True, False])), draw(st.sampled_from([None, True, False]))]
    size = draw(st.lists(st.integers(1, min(n, 3)), min_size=0, max_size=6))
    ops = []
    for k in size:
        r = draw(st.sampled_from(["add", "add", "all", "draw"]))
        if r == "add":
            ops.append(["add", "".join(draw(st.lists(st.sampled_from("XYZ"), min_size=k, max_size=k))),
                        draw(st.permutations(list(range(n))))[:k]])
        else:
            ops.append([r])
    return {"kind": kind, "n": n, "flags": flags, "ops": ops, "rng": draw(seeds)}


def cases(tier):
    return case(tier)
