from hypothesis import strategies as st
from .common import pick, etas, obs_list, seeds, start_gates, unitary

QUICK, THOROUGH = 720, 8000
RULE = ("programs of 3-14 operations (n <= 4) over up to four layers of any class and with various options that share one device and one or two lists of observables: calls on "
        "fresh, chained and foreign unitaries, step-size changes, gradient tables, and whole optimizer runs in between; every "
        "result is compared with the same layer's history replayed alone on a device of its own (a quarter of them in a process in which nothing else has run); non-trivial = at least two "
        "layers called alternately, or a step-size change followed by a call")
ASSUMPTIONS = ["numpy's global random generator is seeded before every call, in both executions"]


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 3, 2, 3, 1] * 8 + [4]))
    kinds = ["local1", "custom", "squared", "stochastic"] + (["local2"] if n % 2 == 0 else []) + (
        ["zass", "su8"] if n >= 3 else []) + (["adapt"] if n >= 2 else []) + (["zass2"] if n == 2 and tier == "thorough" else [])
    ls = draw(st.lists(st.tuples(st.sampled_from(kinds), etas(0.0), st.integers(0, 7)).map(list), min_size=2, max_size=4))
    m = len(ls)
    idx = st.integers(0, m - 1)
    call = st.tuples(st.just("call"), idx, st.one_of(st.just("chain"), st.just("foreign"), unitary(n)), seeds).map(list)
    op = pick(call, call, call, call, call, call, call, call, call, call, st.tuples(st.just("eta"), idx, etas(0.0)).map(list),
                   st.tuples(st.just("table"), idx, unitary(n)).map(list),
                   st.tuples(st.just("exact"), etas(0.0), st.integers(1, 3)).map(list),
                   st.tuples(st.just("ps"), etas(0.0), st.integers(1, 2)).map(list),
                   st.tuples(st.just("approx"), idx, st.integers(1, 3), seeds).map(list))
    return {"n": n, "obs": draw(obs_list(n, 3, True)), "obs2": draw(st.one_of(obs_list(n, 2, True), st.none())), "layers": ls, "U": draw(unitary(n)), "gates": draw(start_gates(n, 3)),
            "ops": draw(st.lists(op, min_size=3, max_size=9 if n > 2 else 14)), "iso": draw(st.integers(0, 3)) == 0}


def cases(tier):
    return case(tier)
