from hypothesis import strategies as st

QUICK, THOROUGH = 4800, 30000
RULE = ("programs over a scratch directory: output directories are requested for random base paths (absolute, relative, with trailing "
        "slash, nested, missing parents) and names (nested, unicode, spaces, dots, doubled and trailing slashes, absolute, empty), files are written into them and they are "
        "requested again; non-trivial = a directory is requested twice with a file in it, or a missing parent had to be created")
ASSUMPTIONS = ["paths stay inside the scratch directory", "no regular file lies in the way"]
SEG = st.one_of(st.sampled_from(["a", "b", "run", "su4", "x y", "ü", ".h", "a.b", "n_2"]), st.text("abcXYZ019_-", min_size=1, max_size=8))

STYLE = st.sampled_from(["plain", "plain", "trailing", "dot", "double", "absolute"])


@st.composite
def case(draw, tier):
    segs = st.lists(SEG, min_size=0, max_size=3)
    ops = st.one_of(
        st.tuples(st.just("make"), segs, segs, st.sampled_from(["abs", "rel", "slash"]), STYLE).map(list),
        st.tuples(st.just("again"), st.integers(0, 9)).map(list),
        st.tuples(st.just("write"), st.integers(0, 9), st.sampled_from(["f.npy", "g.txt"]), st.text("abc", max_size=5)).map(list),
        st.tuples(st.just("above"), st.integers(0, 9), st.integers(1, 3)).map(list),
        st.tuples(st.just("below"), st.integers(0, 9), segs).map(list))
    return {"ops": [["make", draw(segs), draw(segs), draw(st.sampled_from(["abs", "rel", "slash"])), draw(STYLE)]] +
            draw(st.lists(ops, min_size=1, max_size=8))}


def cases(tier):
    return case(tier)
