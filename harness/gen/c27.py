import math

from hypothesis import strategies as st
from .common import seeds

QUICK, THOROUGH = 18000, 200000
RULE = ("angles on and around the whole sphere (poles, equator, wrap-around, arbitrary reals), pure states from random vectors and mixed "
        "states; conversion in both directions against Bloch-vector formulas and round trips; non-trivial = a state away from the "
        "poles, or within 1e-7 of a pole where rounding can leave the domain of arccos")
ASSUMPTIONS = ["polar angles within 1.1e-3 of a full turn may be reported as 0"]
PI = math.pi
TH = st.one_of(st.floats(0, PI), st.sampled_from([0.0, PI / 2, PI, 1e-9, 1e-8, PI - 1e-8, PI - 1e-9, PI / 3]), st.floats(0, 1e-6),
               st.floats(-10, 10))
PH = st.one_of(st.floats(0, 2 * PI), st.sampled_from([0.0, PI / 2, PI, 3 * PI / 2, 2 * PI - 1e-9, 2 * PI - 1e-2, 2 * PI - 2e-3, 1e-3]),
               st.floats(-10, 10))


def cases(tier):
    return st.one_of(
        st.fixed_dictionaries({"k": st.just("ang"), "pts": st.lists(st.tuples(PH, TH).map(list), min_size=1, max_size=4)}),
        st.fixed_dictionaries({"k": st.just("vec"), "v": st.lists(st.floats(-1, 1), min_size=4, max_size=4).filter(
            lambda v: sum(x * x for x in v) > 1e-6)}),
        st.fixed_dictionaries({"k": st.just("haar"), "s": seeds, "m": st.sampled_from([0.0, 0.0, 0.3, 0.9])}),
        st.fixed_dictionaries({"k": st.just("bad"), "s": seeds, "f": st.sampled_from([0.5, 2.0, 0.0, 1.001, -1.0])}))
