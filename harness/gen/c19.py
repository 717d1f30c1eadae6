from hypothesis import strategies as st
from .common import pick, etas, obs_list, seeds, unitary

QUICK, THOROUGH = 1400, 12000
RULE = ("histories of the line-search layers (SU(4) and SU(8), every switch) on chained, repeated and fresh unitaries, and direct "
        "line searches along Pauli words of weight 1-n; the word is recovered from the output alone; non-trivial = the step "
        "moved the unitary and lowered the energy by more than 1e-6")
ASSUMPTIONS = ["gradients within 1e-9 of the largest count as ties"]


@st.composite
def layer(draw, tier):
    kind = draw(st.sampled_from(["squared", "squared", "su8"]))
    n = draw(st.sampled_from([2, 3, 1] * 5 + [4] if kind == "squared" else [3, 3, 3, 4] if tier == "thorough" else [3] * 25 + [4]))
    c = {"mode": kind, "n": n, "obs": draw(obs_list(n, 3, True)), "rng": draw(seeds), "eta": draw(etas(0.0, True)),
         "steps": draw(st.lists(pick(st.just("chain"), st.just("same"), st.just("chain"), unitary(n)), min_size=0,
                                max_size=(draw(st.sampled_from([12] * 8 + [50])) if n < 3 else 5 if n == 3 else 1) if kind == "squared" else 2 if n == 3 else 0)),
         "U": draw(unitary(n))}
    if kind == "su8":
        c["su2"], c["su4"] = draw(st.sampled_from([[None, None], [True, True], [True, False], [False, True], [False, False]]))
    return c


@st.composite
def direct(draw, tier):
    n = draw(st.sampled_from([2, 3, 1, 4] * 5 + [5]))
    w = draw(st.lists(st.sampled_from("IXYZ"), min_size=n, max_size=n).filter(lambda w: set(w) != {"I"}))
    return {"mode": "rotosolve", "n": n, "obs": draw(obs_list(n, 4, True)), "U": draw(unitary(n)), "word": "".join(w),
            "rng": draw(seeds)}


def cases(tier):
    return pick(layer(tier), layer(tier), direct(tier))
