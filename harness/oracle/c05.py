"""Operator bases: every word once, in lexicographic order, name matches matrix, fresh objects."""
import numpy as np
from oranssi.utils import get_su_2_operators, get_su_4_operators, get_su_n_operators
from . import ref


def check(case, ctx):
    spoiled = False
    for c in case["calls"]:
        k = {"su2": 1, "su4": 2, "sun": c["k"]}[c["fn"]]
        fn = {"su2": get_su_2_operators, "su4": get_su_4_operators, "sun": get_su_n_operators}[c["fn"]]
        pre = (2 ** k,) if c["fn"] == "sun" else ()
        if c["pos"]:
            res = ctx.sut(c["fn"], fn, *(pre + (c["identity"], c["names"])))
        else:
            kw = {}
            if c["identity"]:
                kw["identity"] = True
            if c["names"]:
                kw["return_names"] = True
            res = ctx.sut(c["fn"], fn, *pre, **kw)
        want = ref.all_words(k, "IXYZ" if c["identity"] else "XYZ")
        if c["names"]:
            ctx.require(isinstance(res, tuple) and len(res) == 2, "expected (operators, names)")
            ops, names = res
            ctx.require(list(names) == want, "names are not every word once in order: %s" % list(names)[:10])
        else:
            ops, names = res, None
        ctx.require(len(ops) == len(want), "%d operators, expected %d" % (len(ops), len(want)))
        for i, w in enumerate(want):
            m = ref.word(w)
            o = np.asarray(ops[i])
            if o.shape != m.shape or not np.array_equal(o, m):
                ctx.close(o, m, "operator %d (%s) of %s" % (i, w, c), 1e-12)
        ctx.mark(k >= 2 or spoiled)
        ctx.label(c["fn"], "k%d" % k, "identity" if c["identity"] else "traceless", "names" if c["names"] else "plain")
        if c["spoil"]:
            spoiled = True
            ctx.label("spoiled")
            for i, o in enumerate(ops):
                o[...] = 5.0 + i
                # operators of one answer are separate objects too
                if i + 1 < len(ops):
                    ctx.require(np.array_equal(ops[i + 1], ref.word(want[i + 1])), "operators share storage")
            if isinstance(ops, list):
                del ops[0]
            if isinstance(names, list):
                names.append("?")
