"""One custom-direction layer call equals the exponential of the gradients along the allowed words."""
import itertools as it

from oranssi.opt_tools import CustomDirectionLieAlgebraLayer
from . import qm, ref
from .c16 import run


def check(case, ctx):
    n = case["n"]
    dev = qm.device(n)
    kw = {"trotterize": case["trotter"], "unitary_error_check": case["check"]}
    if case["eta"] is not None:
        kw["eta"] = case["eta"]
    dirs = None if case["dirs"] is None else list(case["dirs"])
    layer = ctx.sut("constructor", CustomDirectionLieAlgebraLayer, dev, [qm.obs(o) for o in case["obs"]], dirs, **kw)
    keys = []
    for r in (1, 2):
        for w in ref.all_words(r, "XYZ"):
            if dirs is None or w in dirs:
                keys += [(w,) + qs for qs in it.combinations(range(n), r)]
    gm, eta = run(case, ctx, layer, [[ref.full_word(k[0], k[1:], n) for k in keys]], case["trotter"], n)
    ctx.label("trotter" if case["trotter"] else "exact", "all" if dirs is None else "filtered")
    ctx.mark(gm > 1e-6 and n >= 2)
