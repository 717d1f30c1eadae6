"""Selection of non-overlapping edges."""
import copy
from oranssi.circuit_tools import get_commuting_set


def check(case, ctx):
    edges = [tuple(e) for e in case["edges"]]
    flat = [v for e in edges for v in e]
    disjoint = len(flat) == len(set(flat))
    for r in range(case["reps"]):
        arg = copy.deepcopy(edges)
        got = ctx.sut("get_commuting_set", get_commuting_set, arg)
        ctx.require(arg == edges, "the edge list was changed")
        got = [tuple(e) for e in got]
        if disjoint:
            ctx.require(got == edges, "disjoint edges %s were not returned as given: %s" % (edges, got))
            continue
        ctx.require(len(got) > 0, "empty selection from %s" % edges)
        ctx.require(all(e in edges for e in got), "selected edges %s that are not in %s" % (got, edges))
        g = [v for e in got for v in e]
        ctx.require(len(g) == len(set(g)), "selected edges overlap: %s" % got)
    ctx.mark(not disjoint)
    deg = max(flat.count(v) for v in set(flat))
    ctx.label(case["kind"], "maxdeg%d" % min(deg, 6), "disjoint" if disjoint else "overlapping")
