"""Hypothesis strategies shared by the properties.  Every strategy yields plain JSON values."""
import math

from hypothesis import strategies as st

PI = math.pi
seeds = st.integers(0, 10 ** 6)
SPECIAL = [0.0, PI / 4, PI / 2, PI, -PI / 2, -PI / 4, -PI, 3 * PI / 4, 2 * PI, 13.3, -40.7, 6 * PI]


def angle():
    # the simplest values are generic ones: an all-simplest case must not be a stationary point
    return st.one_of(st.sampled_from([0.7, 1.3, 2.2, -0.9]), st.floats(-7, 7).map(lambda x: round(x, 6)),
                     st.floats(-7, 7).map(lambda x: round(x, 6)), st.sampled_from(SPECIAL))


def etas(lo=0.0, none=False):
    """Step sizes in [lo, 1], ends included."""
    ends = [1.0] + ([0.0] if lo == 0.0 else []) + ([None] if none else [])
    return st.one_of(st.sampled_from([0.3, 0.1, 0.65]), st.floats(max(lo, 0.001), 1).map(lambda x: round(x, 4)),
                     st.sampled_from(ends))


@st.composite
def pick(draw, *strategies):
    """Like one_of, but a strategy listed twice is drawn twice as often."""
    return draw(strategies[draw(st.integers(0, len(strategies) - 1))])


def wires(n, k, ordered=False):
    s = st.permutations(list(range(n))).map(lambda p: p[:k])
    return s.map(sorted) if ordered else s


ONE_F = ["Hadamard", "PauliX", "PauliY", "PauliZ", "S", "T", "SX"]
ONE_P = {"RX": 1, "RY": 1, "RZ": 1, "PhaseShift": 1, "U1": 1, "U2": 2, "U3": 3, "Rot": 3}
TWO_F = ["CNOT", "CZ", "CY", "SWAP"]
TWO_P = {"CRX": 1, "CRY": 1, "CRZ": 1, "CRot": 3}
THREE_F = ["Toffoli", "CSWAP"]
BASIC1 = {"RX": 1, "RY": 1, "RZ": 1}


@st.composite
def gate(draw, n, rich=False, angles=None):
    angles = angle() if angles is None else angles
    kinds = ["p1", "p1", "f1"]
    if n >= 2:
        kinds += ["f2", "f2"] + (["p2", "prot", "qu2", "mrz"] if rich else ["prot"])
    if n >= 3 and rich:
        kinds += ["f3", "qu3"]
    if rich:
        kinds += ["qu1"]
    k = draw(st.sampled_from(kinds))
    g = {}
    if k == "f1":
        g = {"g": draw(st.sampled_from(ONE_F if rich else ["Hadamard", "PauliX", "S"])), "q": draw(wires(n, 1)), "a": []}
    elif k == "p1":
        t = ONE_P if rich else BASIC1
        name = draw(st.sampled_from(sorted(t)))
        g = {"g": name, "q": draw(wires(n, 1)), "a": [draw(angles) for _ in range(t[name])]}
    elif k == "f2":
        g = {"g": draw(st.sampled_from(TWO_F if rich else ["CNOT", "CZ"])), "q": draw(wires(n, 2)), "a": []}
    elif k == "p2":
        name = draw(st.sampled_from(sorted(TWO_P)))
        g = {"g": name, "q": draw(wires(n, 2)), "a": [draw(angles) for _ in range(TWO_P[name])]}
    elif k == "prot":
        m = draw(st.integers(1, min(n, 3)))
        g = {"g": "PauliRot", "w": "".join(draw(st.lists(st.sampled_from("XYZ"), min_size=m, max_size=m))),
             "q": draw(wires(n, m)), "a": [draw(angles)]}
    elif k == "mrz":
        m = draw(st.integers(2, min(n, 3)))
        g = {"g": "MultiRZ", "q": draw(wires(n, m)), "a": [draw(angles)]}
    elif k == "f3":
        g = {"g": draw(st.sampled_from(THREE_F)), "q": draw(wires(n, 3)), "a": []}
    else:
        m = int(k[2])
        g = {"g": "QubitUnitary", "q": draw(wires(n, m)), "a": [], "s": draw(seeds)}
    if rich and k not in ("qu1", "qu2", "qu3") and draw(st.integers(0, 7)) == 0:
        g["inv"] = True
    return g


def gates(n, max_size=10, rich=False, min_size=0):
    return st.lists(gate(n, rich), min_size=min_size, max_size=max_size)


@st.composite
def unitary(draw, n, special=True):
    k = draw(st.sampled_from(["haar", "haar", "gates", "gates"] + (["sym", "sym", "eye", "perm", "near"] if special else [])))
    if k == "gates":
        u = {"k": k, "gates": draw(gates(n, 3 * n + 3))}
    elif k in ("haar", "perm"):
        u = {"k": k, "s": draw(seeds)}
    elif k == "sym":
        u = {"k": k, "layers": draw(st.lists(st.tuples(
            st.sampled_from(["Hadamard", "RX", "RY", "RZ"]), angle(), st.booleans()).map(
                lambda t: [t[0], t[1], t[2]]), min_size=1, max_size=3))}
    elif k == "near":
        # close to a basis state or a symmetric state: gradients that are small but not zero
        u = {"k": k, "s": draw(seeds), "base": draw(st.sampled_from(["eye", "perm", "had"])), "eps": draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6]))}
    else:
        u = {"k": k}
    if draw(st.integers(0, 3)) == 0:
        u["ph"] = draw(angle())
    lay = draw(st.integers(0, 9))
    if lay > 6:
        u["lay"] = ["F", "ro", "real"][lay - 7]
    return u


@st.composite
def pauli_obs(draw, n, maxw=5):
    k = draw(st.integers(1, min(n, maxw)))
    return {"t": "P", "w": "".join(draw(st.lists(st.sampled_from("XYZ"), min_size=k, max_size=k))),
            "q": draw(wires(n, k))}


@st.composite
def any_obs(draw, n):
    t = draw(st.sampled_from(["P", "P", "P", "H", "Had", "P", "P", "P", "H", "Had", "H", "T", "I"]))
    if t == "I":
        # identity factors; ascending wires, because PennyLane 0.15.1 itself measures a tensor product that
        # has an Identity or Hermitian factor wrongly when its wires are not in ascending order
        k = draw(st.integers(1, min(n, 3)))
        return {"t": "P", "w": "".join(draw(st.lists(st.sampled_from("IXYZI"), min_size=k, max_size=k))), "q": sorted(draw(wires(n, k)))}
    if t == "T":
        # tensor product of factors of different kinds
        k = draw(st.integers(1, min(n, 3)))
        f = []
        for q in sorted(draw(wires(n, k))):
            u = draw(st.sampled_from(["Had", "H", "P"]))
            f.append({"t": "Had", "q": [q]} if u == "Had" else {"t": "H", "m": {"k": "gin", "n": 1, "s": draw(seeds)}, "q": [q]} if u == "H"
                     else {"t": "P", "w": draw(st.sampled_from("XYZI")), "q": [q]})
        return f[0] if k == 1 else {"t": "T", "f": f, "q": [x["q"][0] for x in f]}
    if t == "P":
        return draw(pauli_obs(n))
    if t == "Had":
        return {"t": "Had", "q": draw(wires(n, 1))}
    k = draw(st.integers(1, min(n, 2)))
    m = {"k": "gin", "n": k, "s": draw(seeds)}
    v = draw(st.integers(0, 5))
    if v == 3:
        m["scale"] = draw(st.sampled_from([0.05, 20.0]))
    elif v == 4:
        # projectors, negated and weighted Pauli words and the like
        m = {"k": "sum", "n": k, "t": draw(st.lists(st.tuples(st.sampled_from([0.5, -1.0, 0.25, -0.5, 2.0]), st.text("IXYZ", min_size=k, max_size=k)).map(list),
                                                    min_size=1, max_size=3))}
    return {"t": "H", "m": m, "q": draw(wires(n, k))}


@st.composite
def involution(draw, n):
    """Hermitian observable V diag(+-1) V+ on one or two wires."""
    k = draw(st.integers(1, min(n, 2)))
    return {"t": "H", "m": {"k": "refl", "n": k, "s": draw(seeds), "m": draw(st.integers(1, 2 ** k - 1))}, "q": draw(wires(n, k))}


@st.composite
def hermitian3(draw, n):
    """Hermitian observable on three wires. PennyLane 0.15 itself measures it wrongly if the order of the wires is a 3-cycle."""
    q = sorted(draw(wires(n, 3)))
    a, b, c = draw(st.sampled_from([(0, 1, 2), (0, 2, 1), (2, 1, 0), (1, 0, 2)]))
    return {"t": "H", "m": {"k": "gin", "n": 3, "s": draw(seeds)}, "q": [q[a], q[b], q[c]]}


@st.composite
def obs_list(draw, n, max_size=4, generic=False, maxw=5):
    kind = draw(st.sampled_from(["free", "free", "model", "dup"]))
    if kind == "model":
        a, b = draw(st.sampled_from(["ZX", "XZ", "YZ", "XY"]))
        out = []
        if n >= 2:
            ring = draw(st.booleans())
            out = [{"t": "P", "w": a + a, "q": [i, (i + 1) % n]} for i in range(n if ring and n > 2 else n - 1)]
        out += [{"t": "P", "w": b, "q": [i]} for i in range(n)]
        return out
    many = draw(st.integers(0, 24)) == 23
    out = draw(st.lists(any_obs(n) if generic else pauli_obs(n, maxw), min_size=6 if many else 1, max_size=11 if many else max_size))
    if kind == "dup":
        o = out[draw(st.integers(0, len(out) - 1))]
        if generic and o["t"] == "P" and len(o["q"]) < 3 and draw(st.booleans()):
            # the opposite of one of them
            o = {"t": "H", "m": {"k": "sum", "n": len(o["q"]), "t": [[-1.0, o["w"]]]}, "q": o["q"]}
        out = out + [o]
    return out


@st.composite
def start_gates(draw, n, max_size=6):
    """Initial circuit: mostly generic states, sometimes structured ones (stationary points, basis states)."""
    k = draw(st.sampled_from(["haar", "haar", "rot", "plain", "haar", "rot", "plain", "near"]))
    out = draw(gates(n, max_size)) if k != "near" else []
    if k == "near":
        eps = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6]))
        if draw(st.booleans()):
            out = [{"g": "Hadamard", "q": [q], "a": []} for q in range(n)]
        out += [{"g": draw(st.sampled_from(["RX", "RY", "RZ"])), "q": [q], "a": [round(eps * draw(st.integers(1, 9)), 9)]} for q in range(n)]
    if k == "rot":
        pre = []
        for q in range(n):
            pre.append({"g": "RY", "q": [q], "a": [draw(st.floats(0.1, 3.0).map(lambda x: round(x, 4)))]})
            pre.append({"g": "RZ", "q": [q], "a": [draw(st.floats(0.1, 3.0).map(lambda x: round(x, 4)))]})
        out = pre + out
    elif k == "haar":
        out = out + [{"g": "QubitUnitary", "q": list(range(n)), "a": [], "s": draw(seeds)}]
    return out
