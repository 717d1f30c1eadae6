"""Printed and TeX forms of Pauli operators and strings, read back."""
import re

import sympy as sp
from .paulilib import CHR, SYMS, make, number

NUM = re.compile(r"S\(\s*(\d+)\s*,\s*(\d+)\s*\)")
TEX = re.compile(r"\\sigma_\{(\d+)\}\^\{([XYZ])\}|I_\{(\d+)\}|(?:(?<=\s)|^)I$")


def coefficient(txt, ctx, what):
    txt = txt.strip()
    if txt.endswith("*"):
        txt = txt[:-1].strip()
    if txt == "":
        return None
    try:
        return complex(txt.replace(" ", ""))
    except ValueError:
        pass
    try:
        return number(sp.sympify(txt.replace("j", "*I") if not any(s in txt for s in "xyz") else txt, locals=dict(SYMS)))
    except Exception:
        ctx.fail("%s: cannot read the coefficient %r" % (what, txt))


def read(txt, pattern, ctx, what):
    """(coefficient or None, [(site or None, letter)])"""
    ctx.require(isinstance(txt, str), "%s is not a string: %r" % (what, txt))
    found = list(pattern.finditer(txt))
    head = txt[:found[0].start()] if found else txt
    ctx.require(pattern.sub("", txt[len(head):]).strip(" *") == "", "%s: %r has something between or after its operators" % (what, txt))
    out = []
    for m in found:
        if pattern is NUM:
            out.append((int(m.group(1)), CHR[int(m.group(2))] if int(m.group(2)) < 4 else "?"))
        elif m.group(1) is not None:
            out.append((int(m.group(1)), m.group(2)))
        else:
            out.append((None if m.group(3) is None else int(m.group(3)), "I"))
    return coefficient(head, ctx, what), out


def same(got, want, what, ctx, txt):
    ctx.require(len(got) == len(want) and all((s is None and l == "I" == b) or (s, l) == (a, b) for (s, l), (a, b) in zip(got, want)),
                "%s: %r names %s, the object is %s" % (what, txt, got, want))


def show(o, ctx, single):
    ops = [(int(o.alpha), CHR[int(o.gamma)])] if single else [(int(p.alpha), CHR[int(p.gamma)]) for p in o.monomial]
    ctx.require(ops == sorted(ops), "operators not by ascending site: %s" % (ops,))
    c = number(o.coeff)
    tol = 1e-9 * (1 + abs(c))
    forms = [("printed form", NUM, lambda: repr(o), None), ("str", NUM, lambda: str(o), None), ("TeX form", TEX, lambda: o.tex(), True)]
    if not single:
        forms.append(("TeX form without coefficient", TEX, lambda: o.tex(coeff=False), False))
    for what, pat, f, with_c in forms:
        txt = ctx.sut(what, f)
        k, got = read(txt, pat, ctx, what)
        same(got, ops, what, ctx, txt)
        if with_c is False:
            ctx.require(k is None, "%s: %r has a coefficient" % (what, txt))
            ctx.require(single or all(s is not None for s, _ in got), "%s: %r leaves out a site" % (what, txt))
            continue
        if with_c is None and k is None:
            ctx.require(c == 1, "%s: %r leaves out the coefficient %s" % (what, txt, c))
            continue
        ctx.require(k is not None, "%s: %r leaves out the coefficient" % (what, txt))
        ctx.close(k, c, "%s %r: coefficient" % (what, txt), tol)
    after = (number(o.coeff), [(int(o.alpha), CHR[int(o.gamma)])] if single else [(int(p.alpha), CHR[int(p.gamma)]) for p in o.monomial])
    ctx.require(after == (c, ops), "printing changed the object")
    return len(ops) > 1 and c != 1


def check(case, ctx):
    pool = [ctx.sut("PauliMonomial", make, m) for m in case["mons"]]
    nt = False
    for m in list(pool):
        nt = show(m, ctx, False) or nt
        for p in m.monomial:
            show(p, ctx, True)
    for op, i, j in case["ops"]:
        a, b = pool[i % len(pool)], pool[j % len(pool)]
        ctx.label(op)
        if op == "mul":
            pool.append(ctx.sut("product", lambda: a * b))
        elif op == "comm":
            pool.append(ctx.sut("commutator", a.commutator, b))
        elif op == "conj":
            ctx.sut("conj", a.conj)
        for m in pool:
            nt = show(m, ctx, False) or nt
    ctx.label("n%d" % len(pool))
    ctx.mark(nt)
