"""The commutator closure of Pauli strings as a graph (experiments_paper/algebra_graphs.py)."""
import importlib.util
import itertools as it
import os

import oranssi
from oranssi.pauli import Pauli, PauliMonomial

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(oranssi.__file__)))
_spec = importlib.util.spec_from_file_location("algebra_graphs", os.path.join(ROOT, "experiments_paper", "algebra_graphs.py"))
G = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(G)
CHR = "IXYZ"
C = {"1": 1.0, "-1": -1.0, "i": 1j, "-i": -1j}
MUL = {}
for a in range(4):
    for b in range(4):
        MUL[a, b] = b if a == 0 else a if b == 0 else 0 if a == b else 6 - a - b


def comm(x, y):
    """Commutator of (word, is_real) elements, or None if it vanishes."""
    anti = sum(1 for p, q in zip(x[0], y[0]) if p and q and p != q) % 2
    if not anti:
        return None
    # [P, Q] = 2 i R up to sign: two real or two imaginary strings give an imaginary one
    return tuple(MUL[p, q] for p, q in zip(x[0], y[0])), x[1] != y[1]


def closure(gens):
    depth = dict((g, 0) for g in gens)
    d = 0
    while True:
        new = set(c for x, y in it.product(depth, repeat=2) for c in [comm(x, y)] if c is not None and c not in depth)
        if not new:
            return depth
        d += 1
        for c in new:
            depth[c] = d


def key(m):
    c = complex(m.coeff)
    return tuple(int(p.gamma) for p in m.monomial), c.imag == 0


def check(case, ctx):
    if case["su4"]:
        for got, sites in zip(ctx.sut("SU4_to_SU8_algebra", G.SU4_to_SU8_algebra), ((0, 1), (1, 2))):
            words = set(tuple(dict(zip(sites, w)).get(q, 0) for q in range(3)) for w in it.product((1, 2, 3), repeat=2))
            ctx.require(sorted(key(m) for m in got) == sorted((w, True) for w in words), "words on %s: %s" % (sites, got))
            ctx.require(all(complex(m.coeff) == 1 and list(m.locations) == [0, 1, 2] for m in got), "words on %s: %s" % (sites, got))
        ctx.label("su4")
    gens = []
    for g in case["gens"]:
        ps = [Pauli(q, g["w"][q], coeff=C[g["c"]]) if i == 0 else Pauli(q, g["w"][q]) for i, q in enumerate(g["perm"])]
        gens.append(ctx.sut("PauliMonomial", PauliMonomial, ps))
    start = [key(m) for m in gens]
    want = closure(start)
    fn = G.generate_product_algebra_digraph if case["dir"] else G.generate_product_algebra_graph
    graph = ctx.sut("closure", fn, list(gens))
    ctx.require([key(m) for m in gens] == start, "the generators were changed")
    nodes = [key(m) for m in graph.nodes]
    ctx.require(len(nodes) == len(set(nodes)), "a string occurs twice among the nodes")
    for m in graph.nodes:
        ctx.close(abs(complex(m.coeff)), 1.0, "magnitude of the coefficient of %r" % m, 1e-12)
        ctx.require(list(m.locations) == [0, 1, 2], "sites of %r" % m)
    ident = ((0, 0, 0), True)
    full = set(want) | (set() if case["dir"] else {ident})
    ctx.require(set(nodes) == full, "missing from the algebra: %s; too many: %s" % (
        sorted(full - set(nodes))[:3], sorted(set(nodes) - full)[:3]))
    edges = set((key(a), key(b)) for a, b in graph.edges())
    if case["dir"]:
        for m in graph.nodes:
            ctx.require(graph.nodes[m].get("depth") == want[key(m)], "depth %s of %r, expected %s" % (
                graph.nodes[m].get("depth"), m, want[key(m)]))
        # every string found by a commutator hangs below the two strings it was found from
        for c, d in want.items():
            if d:
                ok = any(comm(x, y) == c and want[x] < d and want[y] < d and (x, c) in edges and (y, c) in edges
                         for x, y in it.product(want, repeat=2))
                ctx.require(ok, "%s is not connected to two strings it is the commutator of" % (c,))
        parents = set((x, c) for x, y in it.product(want, repeat=2) for c in [comm(x, y)] if c is not None)
        pairs = set((x, y) for x, y in it.product(want, repeat=2) if comm(x, y) is not None)
        ctx.require(edges <= parents | pairs, "edge %s joins strings that commute and do not generate each other" % (
            sorted(edges - parents - pairs)[:1],))
    else:
        exp = set()
        for x, y in it.product(full, repeat=2):
            c = comm(x, y)
            if c is not None:
                exp.add(frozenset((x, c)))
        exp |= set(frozenset((x, ident)) for x in full)
        got = set(frozenset(e) for e in edges)
        ctx.require(got == exp, "edges missing %s, too many %s" % ([sorted(e) for e in exp - got][:2], [sorted(e) for e in got - exp][:2]))
    ctx.label("dir" if case["dir"] else "undir", "size%d" % (len(want) // 16 * 16))
    ctx.mark(len(want) > len(set(start)))

