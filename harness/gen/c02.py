from hypothesis import strategies as st
from .common import any_obs, pick, angle, gate, seeds, wires

QUICK, THOROUGH = 3200, 24000
RULE = ("random circuits (1-40 gates, fixed/parametrised/controlled/multi-qubit, inverted gates, arbitrary "
        "unitaries, wires in any order, n <= 6), ending in a state, expectation values or variances of any observable, or probabilities, whose angles are constants or functions of the parameters, extracted "
        "with several parameter vectors, also alternating with another circuit; non-trivial = at least two non-commuting-looking gates (>= 2 gates sharing a "
        "wire)")
ASSUMPTIONS = ["circuits on default.qubit with integer wires 0..n-1, ending in one measurement"]


@st.composite
def rare_gate(draw, n, ang):
    k = draw(st.sampled_from(["QFT", "DiagonalQubitUnitary"] + (["ControlledPhaseShift", "SingleExcitation",
                                                               "ControlledQubitUnitary"] if n >= 2 else [])
                             + (["MultiControlledX"] if n >= 3 else [])))
    if k in ("QFT", "DiagonalQubitUnitary"):
        g = {"g": k, "q": draw(wires(n, draw(st.integers(1, min(3, n))))), "a": []}
        if k != "QFT":
            g["t"] = draw(angle())
        elif draw(st.booleans()):
            g["inv"] = True
    elif k == "ControlledQubitUnitary":
        g = {"g": k, "q": draw(wires(n, draw(st.integers(2, min(3, n))))), "a": [], "s": draw(seeds)}
    elif k == "MultiControlledX":
        m = draw(st.integers(3, min(4, n)))
        g = {"g": k, "q": draw(wires(n, m)), "a": [], "v": "".join(draw(st.lists(st.sampled_from("10"), min_size=m - 1, max_size=m - 1)))}
    else:
        g = {"g": k, "q": draw(wires(n, 2)), "a": [draw(ang)]}
        if draw(st.integers(0, 3)) == 0:
            g["inv"] = True
    return g


@st.composite
def measurement(draw, n):
    k = draw(st.sampled_from(["state", "state", "expval", "expval", "var", "probs", "several"]))
    if k in ("expval", "var"):
        return {"k": k, "obs": [draw(any_obs(n))]}
    if k == "probs":
        return {"k": k, "q": draw(wires(n, draw(st.integers(1, n))))}
    if k == "several":
        q = draw(wires(n, min(n, 3)))
        return {"k": k, "obs": [draw(pauli_obs_on(x)) for x in q]}
    return {"k": k}


def pauli_obs_on(q):
    return st.sampled_from("XYZ").map(lambda c: {"t": "P", "w": c, "q": [q]})


@st.composite
def case(draw, tier):
    n = draw(st.sampled_from([2, 1, 3, 4, 5] * 6 + [6]))
    m = draw(st.sampled_from([2, 1, 3, 4] * 4 + [11]))
    ref = st.tuples(st.just("p"), st.integers(0, m - 1), st.sampled_from([1.0, 1.0, 0.5, -1.0, 2.0])).map(list)
    ang = pick(angle(), ref, ref)
    gates = draw(st.lists(pick(gate(n, True, ang), gate(n, True, ang), gate(n, True, ang), rare_gate(n, ang)), min_size=1, max_size=draw(st.sampled_from([14, 14, 14, 40]))))
    ps = draw(st.lists(st.lists(angle(), min_size=m, max_size=m), min_size=1, max_size=3))
    return {"n": n, "gates": gates, "params": ps, "ptype": draw(st.sampled_from(["list", "np", "pnp", "tuple"])),
            "ret": draw(measurement(n)), "other": draw(st.lists(gate(n, True, ang), min_size=1, max_size=3)) if draw(st.booleans()) else None,
            "rng": draw(seeds)}


def cases(tier):
    return case(tier)
