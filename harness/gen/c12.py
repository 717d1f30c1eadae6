from hypothesis import strategies as st
from .common import etas, obs_list, pick, seeds, start_gates

QUICK, THOROUGH = 1000, 16000
RULE = ("runs of the three optimizers with random tolerances (0, tiny, moderate, huge, disabled), step limits 1-90 and "
        "perturbation switched on or off; the approximate optimizer is also driven through a scripted layer that "
        "produces arbitrary cost traces with plateaus; the step at which a run stops and the list of perturbed steps are "
        "recomputed from the returned cost trace; non-trivial = the trace contains a stall inside the window where it counts, or "
        "a stall before it that must be ignored")
ASSUMPTIONS = ["a stall is numpy's isclose(new, old, atol=tol) with its default relative part; decisions within 1e-12 of the "
               "threshold are not judged"]
TOL = st.one_of(st.sampled_from([1e-3, 0.0, 1e-8, 1e-2, 0.05, 0.3, 10.0, None]), st.floats(0, 0.5).map(lambda x: round(x, 5)))


@st.composite
def script(draw, tier):
    """Angles of RY on a single qubit: cost = cos(angle)."""
    segs = draw(st.lists(st.tuples(st.integers(1, 12), st.sampled_from(["flat", "flat", "ramp", "jump", "two", "five"]),
                                   st.floats(0, 3.1).map(lambda x: round(x, 4)), st.floats(0.001, 0.4).map(lambda x: round(x, 4))),
                         min_size=1, max_size=5))
    out, a = [], 0.4
    for ln, kind, v, d in segs:
        base = a
        for i in range(ln):
            if kind == "ramp":
                a = a + d
            elif kind == "jump":
                a = (v + 1.7 * i) % 3.1
            elif kind == "two":
                a = base + (d if i % 2 else 0.0)
            elif kind == "five":
                a = base + d * (i % 5)
            out.append(round(a, 6))
    return {"mode": "script", "angles": out, "tol": draw(TOL), "give_tol": True,
            "nsteps": draw(st.integers(1, len(out) + 3)), "perturb": draw(st.booleans()), "eta": draw(st.sampled_from([0.3, 0.0, 1.0])),
            "rng": draw(seeds)}


@st.composite
def real(draw, tier):
    mode = draw(st.sampled_from(["exact", "exact", "ps", "local"]))
    n = draw(st.sampled_from([1, 2, 1, 2, 1, 2, 3]))
    tol = draw(TOL.filter(lambda t: mode == "local" or t is not None))
    return {"mode": mode, "n": n, "gates": draw(start_gates(n, 4)), "obs": draw(obs_list(n, 3)), "tol": tol,
            "give_tol": draw(st.booleans()), "nsteps": draw(pick(st.integers(1, 14), st.integers(1, 14), st.integers(10, 40), st.none(), st.integers(41, 90))),
            "eta": draw(etas()),
            "perturb": draw(st.booleans()), "rng": draw(seeds)}


def cases(tier):
    return st.one_of(script(tier), real(tier))
