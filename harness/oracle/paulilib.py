"""Builds Pauli objects from specs and evaluates them as matrices."""
import numpy as np
import sympy as sp
from oranssi.pauli import Pauli, PauliMonomial
from . import ref

SYMS = dict((k, sp.Symbol(k)) for k in "xyz")
VALS = {"x": 0.7, "y": -1.3, "z": 2.1}
IDX = {"I": 0, "X": 1, "Y": 2, "Z": 3}
CHR = "IXYZ"


def coeff(c):
    """(object handed to the constructor or None, numeric value)"""
    if c is None:
        return None, 1.0
    if "sym" in c:
        f = complex(0, c["re"]) if c["im"] else c["re"]
        obj = f * SYMS[c["sym"]] ** c["pow"]
        return obj, f * VALS[c["sym"]] ** c["pow"]
    if "im" in c:
        return complex(c["re"], c["im"]), complex(c["re"], c["im"])
    return float(c["re"]), float(c["re"])


def make_pauli(p):
    obj, val = coeff(p["c"])
    g = IDX[p["g"]] if p["int"] else p["g"]
    return Pauli(p["s"], g) if obj is None else Pauli(p["s"], g, coeff=obj)


def make(mon):
    return PauliMonomial([make_pauli(p) for p in mon])


def number(c):
    if isinstance(c, sp.Basic):
        return complex(c.subs(dict((SYMS[k], VALS[k]) for k in VALS)))
    return complex(c)


def value(mon):
    v = 1.0 + 0j
    for p in mon:
        v = v * coeff(p["c"])[1]
    return v


def words(m):
    """{site: letter} as reported by the object."""
    return dict((int(p.alpha), CHR[int(p.gamma)]) for p in m.monomial)


def matrix(m, sites):
    w = words(m)
    return number(m.coeff) * ref.word([w.get(s, "I") for s in sites])


def spec_matrix(mon, sites):
    w = dict((p["s"], p["g"]) for p in mon)
    return value(mon) * ref.word([w.get(s, "I") for s in sites])


def snapshot(m):
    return (tuple(m.locations), tuple((int(p.alpha), int(p.gamma), number(p.coeff)) for p in m.monomial), number(m.coeff))
