"""Reference quantum mechanics, written without oranssi and without PennyLane.
Wire 0 is the most significant bit."""
import itertools as it

import numpy as np

I2 = np.eye(2, dtype=complex)
PAULI = {
    "I": I2,
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.array([[1, 0], [0, -1]], dtype=complex),
}


def word(w):
    m = np.eye(1, dtype=complex)
    for c in w:
        m = np.kron(m, PAULI[c])
    return m


def full_word(letters, qubits, n):
    """Pauli word with letters[i] on qubits[i], identity elsewhere."""
    s = ["I"] * n
    for c, q in zip(letters, qubits):
        s[q] = c
    return word(s)


def embed(op, wires, n):
    """op on `wires` (any order), identity elsewhere: kron then permute the tensor factors."""
    op = np.asarray(op, dtype=complex)
    wires = [int(w) for w in wires]
    k = len(wires)
    rest = [q for q in range(n) if q not in wires]
    m = np.kron(op, np.eye(2 ** (n - k), dtype=complex)).reshape([2] * (2 * n))
    order = wires + rest
    pos = [order.index(q) for q in range(n)]
    return m.transpose(pos + [n + p for p in pos]).reshape(2 ** n, 2 ** n)


def expmh(H, t):
    """exp(-i t H) for Hermitian H."""
    w, v = np.linalg.eigh(H)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def prot(P, theta):
    """exp(-i theta P) for P*P = 1."""
    return np.cos(theta) * np.eye(P.shape[0]) - 1j * np.sin(theta) * P


def rx(t): return prot(PAULI["X"], t / 2)
def ry(t): return prot(PAULI["Y"], t / 2)
def rz(t): return prot(PAULI["Z"], t / 2)
def phase(t): return np.diag([1, np.exp(1j * t)])


def rot(a, b, c): return rz(c) @ ry(b) @ rz(a)


def ctrl(u):
    k = u.shape[0]
    m = np.eye(2 * k, dtype=complex)
    m[k:, k:] = u
    return m


SWAP = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
HAD = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
FIXED = {
    "Hadamard": HAD, "PauliX": PAULI["X"], "PauliY": PAULI["Y"], "PauliZ": PAULI["Z"],
    "S": np.diag([1, 1j]), "T": np.diag([1, np.exp(1j * np.pi / 4)]),
    "SX": 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]),
    "CNOT": ctrl(PAULI["X"]), "CY": ctrl(PAULI["Y"]), "CZ": ctrl(PAULI["Z"]), "SWAP": SWAP,
    "CSWAP": ctrl(SWAP), "Toffoli": ctrl(ctrl(PAULI["X"])),
}
PARAM = {
    "RX": rx, "RY": ry, "RZ": rz, "PhaseShift": phase, "U1": phase, "Rot": rot,
    "U2": lambda p, l: np.array([[1, -np.exp(1j * l)], [np.exp(1j * p), np.exp(1j * (p + l))]]) / np.sqrt(2),
    "U3": lambda t, p, l: np.array(
        [[np.cos(t / 2), -np.exp(1j * l) * np.sin(t / 2)],
         [np.exp(1j * p) * np.sin(t / 2), np.exp(1j * (p + l)) * np.cos(t / 2)]]),
    "CRX": lambda t: ctrl(rx(t)), "CRY": lambda t: ctrl(ry(t)), "CRZ": lambda t: ctrl(rz(t)),
    "CRot": lambda a, b, c: ctrl(rot(a, b, c)),
    "ControlledPhaseShift": lambda t: ctrl(phase(t)),
    "SingleExcitation": lambda t: np.array([[1, 0, 0, 0], [0, np.cos(t / 2), -np.sin(t / 2), 0],
                                            [0, np.sin(t / 2), np.cos(t / 2), 0], [0, 0, 0, 1]], dtype=complex),
}


def qft(d):
    k = np.arange(d)
    return np.exp(2j * np.pi * np.outer(k, k) / d) / np.sqrt(d)


def controlled_x(values):
    """X on the last qubit if the others are in the basis state `values`."""
    k = 2 * int(values, 2)
    m = np.eye(2 ** (len(values) + 1), dtype=complex)
    m[k:k + 2, k:k + 2] = PAULI["X"]
    return m


def haar(seed, dim):
    rs = np.random.RandomState(seed % (2 ** 32))
    a = rs.randn(dim, dim) + 1j * rs.randn(dim, dim)
    q, r = np.linalg.qr(a)
    d = np.diag(r)
    return q * (d / np.abs(d))


def cmat(spec):
    """Complex matrix from a spec: haar / ginibre seeds, elementary matrices, Pauli words, integer entries."""
    k = spec["k"]
    d = 2 ** spec["n"]
    if k == "haar":
        return haar(spec["s"], d)
    if k == "gin":
        rs = np.random.RandomState(spec["s"] % (2 ** 32))
        return (rs.randn(d, d) + 1j * rs.randn(d, d)) * spec.get("scale", 1.0)
    if k == "near":
        rs = np.random.RandomState(spec["s"] % (2 ** 32))
        a = rs.randn(d, d)
        base = {"real": a, "sym": a + a.T, "eye": np.eye(d)}[spec["base"]]
        return base + 1e-7 * (rs.randn(d, d) + 1j * rs.randn(d, d))
    if k == "unit":
        m = np.zeros((d, d), dtype=complex)
        m[spec["i"] % d, spec["j"] % d] = spec.get("v", 1.0)
        return m
    if k == "word":
        return word(spec["w"])
    if k == "perm":
        rs = np.random.RandomState(spec["s"] % (2 ** 32))
        return np.eye(d, dtype=complex)[rs.permutation(d)]
    raise ValueError(k)


def herm(spec):
    if spec["k"] == "refl":
        # V diag(+-1) V+, squares to the identity
        d = 2 ** spec["n"]
        v = haar(spec["s"], d)
        m = (v * np.array([1.0 if i < spec["m"] else -1.0 for i in range(d)])) @ v.conj().T
        return (m + m.conj().T) / 2
    if spec["k"] == "sum":
        # a combination of Pauli words
        return sum(c * word(w) for c, w in spec["t"])
    m = cmat(spec)
    return (m + m.conj().T) / 2


def gate_matrix(g, params=None):
    """g = {"g": name, "q": wires, "a": [angles or ["p", i, scale]], "inv": bool, ...}"""
    name = g["g"]
    a = [angle_value(x, params) for x in g.get("a", [])]
    if name in FIXED:
        m = FIXED[name]
    elif name in PARAM:
        m = PARAM[name](*a)
    elif name == "PauliRot":
        m = prot(word(g["w"]), a[0] / 2) if set(g["w"]) != {"I"} else np.exp(-0.5j * a[0]) * np.eye(2 ** len(g["w"]))
    elif name == "MultiRZ":
        m = prot(word("Z" * len(g["q"])), a[0] / 2)
    elif name == "QubitUnitary":
        m = haar(g["s"], 2 ** len(g["q"]))
    elif name == "QFT":
        m = qft(2 ** len(g["q"]))
    elif name == "ControlledQubitUnitary":
        m = ctrl(haar(g["s"], 2 ** (len(g["q"]) - 1)))
    elif name == "DiagonalQubitUnitary":
        m = np.diag(np.exp(1j * np.arange(2 ** len(g["q"])) * g["t"]))
    elif name == "MultiControlledX":
        m = controlled_x(g["v"])
    else:
        raise ValueError(name)
    return m.conj().T if g.get("inv") else m


def angle_value(x, params):
    if isinstance(x, list):
        return params[x[1]] * x[2]
    return x


def circuit_matrix(gates, n, params=None):
    U = np.eye(2 ** n, dtype=complex)
    for g in gates:
        U = embed(gate_matrix(g, params), g["q"], n) @ U
    return U


def unitary(spec, n):
    """Unitary on n qubits from a spec drawn by the generator."""
    k = spec["k"]
    if k == "gates":
        U = circuit_matrix(spec["gates"], n)
    elif k == "haar":
        U = haar(spec["s"], 2 ** n)
    elif k == "eye":
        U = np.eye(2 ** n, dtype=complex)
    elif k == "sym":
        U = np.eye(2 ** n, dtype=complex)
        for g in spec["layers"]:
            for q in range(n):
                U = embed(PARAM[g[0]](g[1]) if g[0] in PARAM else FIXED[g[0]], [q], n) @ U
            if len(g) > 2 and g[2] and n > 1:
                for q in range(n if n > 2 else 1):
                    U = embed(FIXED["CZ"], [q, (q + 1) % n], n) @ U
    elif k == "perm":
        U = np.eye(2 ** n, dtype=complex)[np.random.RandomState(spec["s"] % (2 ** 32)).permutation(2 ** n)]
    elif k == "near":
        d = 2 ** n
        U = np.eye(d, dtype=complex)
        if spec["base"] == "perm":
            U = U[np.random.RandomState(spec["s"] % (2 ** 32)).permutation(d)]
        elif spec["base"] == "had":
            for q in range(n):
                U = embed(HAD, [q], n) @ U
        V = haar(spec["s"] + 1, d)
        x = np.random.RandomState((spec["s"] + 2) % (2 ** 32)).randn(d)
        U = (V * np.exp(1j * spec["eps"] * x)) @ V.conj().T @ U
    else:
        raise ValueError(k)
    if spec.get("ph"):
        U = np.exp(1j * spec["ph"]) * U
    lay = spec.get("lay")
    if lay == "F":
        U = np.asfortranarray(U)
    elif lay == "ro":
        U = U.copy()
        U.setflags(write=False)
    elif lay == "real" and not np.any(U.imag):
        U = U.real.copy()
    return U


class Feed(object):
    """Hands over unitaries; in every third case as one array that the caller overwrites between the calls."""

    def __init__(self, case):
        self.on = case.get("rng", 0) % 3 == 1
        self.buf = None

    def __call__(self, U):
        if not self.on:
            return U
        if self.buf is None:
            self.buf = np.array(U, dtype=complex)
        else:
            self.buf[...] = U
        return self.buf


def obs_matrix(o):
    """Local matrix of an observable spec."""
    t = o.get("t", "P")
    if t == "P":
        return word(o["w"])
    if t == "H":
        return herm(o["m"])
    if t == "Had":
        return HAD
    if t == "T":
        m = np.eye(1)
        for f in o["f"]:
            m = np.kron(m, obs_matrix(f))
        return m
    raise ValueError(t)


def obs_full(o, n):
    return embed(obs_matrix(o), o["q"], n)


def ham(obs, n, coeffs=None):
    H = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for i, o in enumerate(obs):
        H = H + (1.0 if coeffs is None else coeffs[i]) * obs_full(o, n)
    return H


def energy(U_or_psi, H):
    psi = U_or_psi[:, 0] if np.ndim(U_or_psi) == 2 else U_or_psi
    return float(np.real(np.vdot(psi, H @ psi)))


def omega(psi, P, O):
    """<[P, O]> / i, a real number."""
    return 2.0 * float(np.imag(np.vdot(psi, P @ (O @ psi))))


def all_words(n, alphabet="IXYZ"):
    return ["".join(c) for c in it.product(alphabet, repeat=n)]


def su_tables(n, sizes, pairs=None):
    """{(word, *qubits): full matrix} for every identity-free word on every ascending qubit subset."""
    out = {}
    for r in sizes:
        for w in all_words(r, "XYZ"):
            for qs in it.combinations(range(n), r):
                out[(w,) + qs] = full_word(w, qs, n)
    return out


def line(psi, P, H):
    """(a, b, c) with <H>(t) = a + b cos t + c sin t after exp(-i t P / 2)."""
    p = P @ psi
    h00 = float(np.real(np.vdot(psi, H @ psi)))
    h11 = float(np.real(np.vdot(p, H @ p)))
    # <psi| (cos + i sin P) H (cos - i sin P) |psi>
    cross = float(np.real(1j * np.vdot(p, H @ psi) - 1j * np.vdot(psi, H @ p))) / 2.0
    return (h00 + h11) / 2.0, (h00 - h11) / 2.0, cross
