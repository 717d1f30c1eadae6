"""Edge colouring heuristic and its verifier."""
import sys
import networkx as nx
from oranssi import edge_coloring as EC

LINES = 30000000


class _Budget(Exception):
    pass


def bounded(fn, *a):
    """Run fn with a deterministic budget on executed lines of edge_coloring.py."""
    left = [LINES]
    target = EC.__file__

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise _Budget()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename == target else None

    sys.settrace(tracer)
    try:
        return fn(*a)
    finally:
        sys.settrace(None)


def brute(edges, cols, D):
    if any(c not in range(D) for c in cols):
        return False
    return not any(cols[i] == cols[j] and set(edges[i]) & set(edges[j])
                   for i in range(len(edges)) for j in range(i))


def check(case, ctx):
    name = (lambda v: "q%d" % v) if case["strs"] else (lambda v: v)
    edges = [(name(a), name(b)) for a, b in case["edges"]]
    iso = [name(20 + i) for i in range(case["isolated"])]
    g = nx.Graph()
    g.add_edges_from(edges)
    g.add_nodes_from(iso)
    nodes = set(g.nodes())
    delta = max(d for _, d in g.degree())
    D = delta + min(case["extra"], delta + 1)
    if case["extra"] > 6:
        D = delta
    if case.get("greedy"):
        # the case in which greedy colouring alone must succeed, without any repetitions
        D = 2 * delta - 1
        case = dict(case, rep=0, it=0)
    try:
        if case["trace"]:
            got = bounded(EC.applyHeuristic, g, D, case["rep"], case["it"])
        else:
            got = ctx.sut("applyHeuristic", EC.applyHeuristic, g, D, case["rep"], case["it"])
    except _Budget:
        ctx.fail("colouring %s with %d colours did not finish within %d executed lines" % (edges, D, LINES))
    ctx.require(set(g.nodes()) == nodes and {frozenset(e) for e in g.edges()} == {frozenset(e) for e in edges},
                "the graph was changed")
    cols = [g[a][b].get("color") for a, b in edges]
    ctx.require(all(c in range(D) for c in cols), "colours %s are not all in range(%d)" % (cols, D))
    ctx.require(all(g[a][b].get("color") == g[b][a].get("color") for a, b in edges), "edge has two colours")
    ok = brute(edges, cols, D)
    ctx.require(bool(got) == ok, "reported %s, but the colouring is %s" % (got, "proper" if ok else "not proper"))
    if D >= 2 * delta - 1:
        ctx.require(ok, "no proper colouring of max degree %d with %d colours" % (delta, D))
    ctx.label("proper" if ok else "failed", "delta%d" % delta, "D=delta" if D == delta else "D>delta", case["kind"])
    # verifier against brute force on an arbitrary colouring
    h = nx.Graph()
    h.add_nodes_from(iso)
    cs = list(case["cols"])
    if case["proper"]:
        cs = list(cols)
        if case["cols"] and case["extra"] % 2:
            i = case["rng"] % len(cs)
            cs[i] = case["cols"][i]
    for (a, b), c in zip(edges, cs):
        h.add_edge(a, b, color=c)
    for Dv in (D, max(1, D - 1), D + 1):
        v = ctx.sut("checkEdgeColoring", EC.checkEdgeColoring, h, Dv)
        w = brute(edges, cs, Dv)
        ctx.require(bool(v) == w, "verifier says %s for colours %s on %s with D=%d, expected %s" % (v, cs, edges, Dv, w))
        ctx.label("verify-%s" % w)
    ctx.mark(delta >= 2)
