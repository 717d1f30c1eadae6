"""Equality, hashing, ordering and keys of Pauli operators and strings."""
import itertools as it

import numpy as np
from .paulilib import IDX, make, make_pauli, value


def key(m):
    """letters by site, imaginary before real, then by value."""
    v = value(m)
    g = tuple(IDX[p["g"]] for p in sorted(m, key=lambda p: p["s"]))
    return g, (1 if v.imag == 0 else 0), v.real + v.imag


def check(case, ctx):
    ms = case["mons"]
    objs = [ctx.sut("PauliMonomial", make, m) for m in ms]
    keys = [key(m) for m in ms]
    dup = False
    for (i, a), (j, b) in it.product(enumerate(objs), repeat=2):
        same = keys[i][:2] == keys[j][:2]
        ctx.require(bool(ctx.sut("==", lambda: a == b)) == same, "%r == %r should be %s" % (a, b, same))
        ctx.require(bool(ctx.sut("!=", lambda: a != b)) == (not same), "%r != %r should be %s" % (a, b, not same))
        if same:
            ctx.require(hash(a) == hash(b), "equal strings %r and %r have different hashes" % (a, b))
        lt = bool(ctx.sut("<", lambda: a < b))
        ctx.require(lt == (keys[i] < keys[j]), "%r < %r should be %s" % (a, b, keys[i] < keys[j]))
        dup = dup or (i != j and keys[i][0] == keys[j][0])
    mixed = [ctx.sut("PauliMonomial", make, m) for m in case.get("mixed", [])]
    for a, b in it.product(mixed, mixed + objs):
        eq = bool(ctx.sut("==", lambda: a == b))
        ctx.require(eq == bool(ctx.sut("==", lambda: b == a)), "%r == %r is not symmetric" % (a, b))
        ctx.require(not eq or hash(a) == hash(b), "equal strings %r and %r have different hashes" % (a, b))
    order = [keys[[id(o) for o in objs].index(id(x))] for x in ctx.sut("sorted", sorted, objs)]
    ctx.require(order == sorted(keys), "sorted order %s" % (order,))
    ctx.require(len(ctx.sut("set", set, objs)) == len(set(k[:2] for k in keys)), "number of distinct strings in a set")
    for o, m in zip(objs, ms):
        srt = sorted(m, key=lambda p: p["s"])
        ctx.require(len(o) == len(m), "length")
        ctx.require(list(o.locations) == [p["s"] for p in srt], "sites %s" % (o.locations,))
        for k, p in enumerate(srt):
            ctx.require((int(o[k].alpha), int(o[k].gamma)) == (p["s"], IDX[p["g"]]), "item %d of %r" % (k, o))
        got = ctx.sut("to_oranssi", o.to_oranssi)
        want = ("".join(p["g"] for p in srt if p["g"] != "I"),) + tuple(p["s"] for p in srt if p["g"] != "I")
        ctx.require(tuple(got) == want, "key %s, expected %s" % (got, want))
    short = ctx.sut("PauliMonomial", make, case["short"])
    if len(case["short"]) != len(ms[0]):
        ctx.rejects("== on strings of different length", lambda: short == objs[0])
    # single operators
    ps = [p for m in ms for p in m] + case["short"]
    po = [ctx.sut("Pauli", make_pauli, p) for p in ps]
    for (a, x), (b, y) in it.product(list(zip(ps, po))[:8], repeat=2):
        same = (a["s"], a["g"]) == (b["s"], b["g"])
        ctx.require(bool(x == y) == same, "%r == %r should be %s" % (x, y, same))
        if same:
            ctx.require(hash(x) == hash(y), "equal operators %r and %r have different hashes" % (x, y))
    ctx.label("n%d" % len(ms), "dup" if dup else "distinct")
    ctx.mark(dup)
