from hypothesis import strategies as st
from .common import angle, pick, obs_list, seeds, start_gates, gate

QUICK, THOROUGH = 960, 10000
RULE = ("runs of the three optimizers from random circuits with every combination of the return switches, with real layers "
        "(local, custom, stochastic, line-search, Zassenhaus) and scripted ones, with and without perturbation; every recorded "
        "cost, state, unitary, gradient table and phase is recomputed from the other records; non-trivial = at least two "
        "optional records returned and at least two steps taken")
ASSUMPTIONS = ["with perturbation the final unitary of the exact optimizer may include a perturbation after the last recorded cost"]


def pick_len(n):
    return 7 if n == 1 else 4


@st.composite
def case(draw, tier):
    opt = draw(st.sampled_from(["approx", "approx", "approx", "exact", "ps"]))
    n = draw(st.sampled_from([2, 1, 2, 3] * 6 + [4]))
    c = {"opt": opt, "n": n, "obs": draw(obs_list(n, 3, opt == "approx")), "rng": draw(seeds),
         "tol": draw(st.sampled_from([1e-3, 0.0, 0.2] + ([None] if opt == "approx" else []))),
         "eta": draw(st.sampled_from([0.1, 0.5, 1.0])), "perturb": draw(st.booleans())}
    if opt == "ps":
        m = draw(st.integers(1, 3))
        ref = st.tuples(st.just("p"), st.integers(0, m - 1), st.just(1.0)).map(list)
        c["gates"] = draw(st.lists(gate(n, False, st.one_of(ref, angle())), min_size=1, max_size=6)) + [
            {"g": "RY", "q": [0], "a": [["p", i, 1.0]]} for i in range(m)]
        c["params"] = draw(st.lists(angle(), min_size=m, max_size=m))
        c["flags"] = draw(st.lists(st.booleans(), min_size=2, max_size=2))
        c["nsteps"] = draw(st.sampled_from([4, 1, 2, 3, 5, 6, 7]))
        return c
    c["gates"] = draw(start_gates(n, 4))
    if opt == "exact":
        c["flags"] = draw(st.lists(st.booleans(), min_size=3, max_size=3))
        c["nsteps"] = draw(st.sampled_from([6, 1, 2, 3, 4, 5, 8, 10, 12]))
        return c
    c["flags"] = draw(st.lists(st.booleans(), min_size=6, max_size=6))
    kinds = ["local1", "local1", "custom", "stochastic", "squared", "script"] + (["local2"] if n % 2 == 0 else []) + (
        ["zass", "su8"] if n >= 3 else [])
    c["layers"] = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=pick_len(n)))
    c["nsteps"] = draw(pick(st.just(4), st.integers(1, 16 if n < 3 else 6 if n < 4 else 3), st.integers(1, {1: 60, 2: 24, 3: 8, 4: 3}[n])))
    return c


def cases(tier):
    return case(tier)
