"""C05: dimensions are immutable value objects."""
import datetime
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset.dim import (DimBase, ComplexDiagAxis, ComplexIndepAxis, ComplexDerivAxis, IndepAxis, DerivAxis)

S = Suite("C05", rule="pairs/lists of dimensions of every class over generated names, coordinates (int, float, str, datetime), "
          "units and formats, built from lists, tuples, arrays, nested lists, ints or other dims; non-trivial: two dims "
          "that differ in exactly one aspect, or a dim with >= 2 coordinates",
          assumptions=["datetime coordinates carry microsecond resolution"])

CL = dict(S=CLS["S"], R=CLS["R"], I=CLS["I"], J=CLS["J"], P=CLS["P"], D=CLS["D"], A=CLS["A"])


@st.composite
def one(draw, kinds="ifst"):
    c = draw(st.sampled_from(sorted(CL)))
    n = draw(st.sampled_from(["a", "b", "freq", "Freq", "x y", "i", "ANON1"]))
    k = draw(st.sampled_from(kinds))
    m = draw(npts(1, 5, 200, one_in=12))
    return dict(c=c, n=n, k=k, d=draw(dim_data(m, k, unique=False)), u=draw(st.sampled_from(UNITS)), f=draw(st.sampled_from([None, "%.3f", "%d"])))


@st.composite
def pair(draw):
    a = draw(one())
    b = dict(a)
    ch = draw(st.sampled_from(["none", "c", "n", "d", "u", "f", "all", "d1", "d1", "num"]))
    if ch == "all":
        b = draw(one())
    elif ch == "d1":      # one coordinate differs
        i = draw(st.integers(0, len(a["d"]) - 1))
        o = draw(dim_data(1, a["k"]))
        b["d"] = a["d"][:i] + o + a["d"][i + 1:]
    elif ch == "num":     # the same numbers as integers and as floats
        if a["k"] == "i":
            b.update(k="f", d=[float(x) for x in a["d"]])
    elif ch != "none":
        o = draw(one(kinds=a["k"]))
        b[ch] = o[ch]
    return dict(a=a, b=b, ch=ch)


def key(s):
    return (s["c"], s["n"], tuple(s["d"]), s["u"])


@S.sub("equality", pair(), quick=800, thorough=20000)
def equality(spec, note):
    A, B = mkdim(spec["a"]), mkdim(spec["b"])
    want = key(spec["a"]) == key(spec["b"])
    note.nontrivial(spec["ch"] != "none")
    note.hit("changed " + spec["ch"], "equal" if want else "different")
    check((A == B) == want, "%r == %r is %r", spec["a"], spec["b"], A == B)
    check((B == A) == want, "equality is not symmetric")
    check((A != B) == (not want), "!= is not the negation of ==")
    check(A == A and A == mkdim(spec["a"]) and A == A.copy(), "equality is not reflexive")
    if want and spec["a"]["f"] != spec["b"]["f"]:
        note.hit("known finding: hash depends on the output format")
    elif want:
        check(hash(A) == hash(B), "equal dims %r and %r have different hashes", spec["a"], spec["b"])
        check(len({A, B}) == 1 and {A: 1}[B] == 1, "equal dims are distinct set members/keys")
    else:
        check(len({A, B}) == 2, "different dims collapse in a set")
    # a dim compares equal to its own name
    check((A == spec["a"]["n"]) and not (A == spec["a"]["n"] + "x"), "comparison with a name")


@S.sub("ordering", st.lists(one(), min_size=2, max_size=6, unique_by=lambda d: d["n"]), quick=300, thorough=5000)
def ordering(spec, note):
    """sorting puts sweeps before reps before matrix rows before columns, then by name"""
    prio = dict(S=0, P=0, D=0, A=0, R=1, I=1000, J=1001)
    note.nontrivial(len(set(prio[d["c"]] for d in spec)) > 1)
    got = [d.name for d in sorted(mkdim(d) for d in spec)]
    want = [d["n"] for d in sorted(spec, key=lambda d: (prio[d["c"]], d["n"]))]
    check(got == want, "sorted to %r, expected %r", got, want)


@st.composite
def build_case(draw):
    s = draw(one())
    s["how"] = draw(st.sampled_from(["list", "tuple", "array", "nested", "array2d", "array2", "tuples", "iter", "dim_data", "dim_data", "dim", "dim_over", "kwname", "int", "hfarray"]))
    s["nn"] = draw(st.sampled_from(["other", "z9"]))
    s["cut"] = draw(st.integers(0, 5))
    s["c2"] = draw(st.sampled_from(sorted(CL)))
    return s


@S.sub("construction", build_case(), quick=600, thorough=10000)
def construction(spec, note):
    ref = mkdim(spec)
    data = list(spec["d"]) if spec["k"] != "t" else [datetime.datetime.fromisoformat(x) for x in spec["d"]]
    C, how = CL[spec["c"]], spec["how"]
    note.hit(how, "kind " + spec["k"])
    note.nontrivial(len(data) > 1)
    nparr = np.array(data, dtype="datetime64[us]") if spec["k"] == "t" else np.array(data)
    kw = dict(unit=spec["u"], outputformat=spec["f"])
    if how == "list":
        d = C(spec["n"], list(data), **kw)
    elif how == "tuple":
        d = C(spec["n"], tuple(data), **kw)
    elif how == "array":
        d = C(spec["n"], nparr, **kw)
    elif how == "array2d":
        d = C(spec["n"], nparr.reshape(1, -1), **kw)
    elif how == "array2":
        # rows one after the other, whatever the order in memory
        both = np.concatenate([nparr, nparr[::-1]])
        a2 = both.reshape(2, -1)
        d = C(spec["n"], np.asfortranarray(a2) if spec["cut"] % 2 else a2, **kw)
        exact(d.data, both, "two-dimensional data")
        samedim(d, C(spec["n"], both.tolist() if spec["k"] != "t" else list(data) + list(data[::-1]), **kw), how)
        return
    elif how == "tuples":
        k = spec["cut"] % len(data)
        d = C(spec["n"], (tuple(data[:k]), (tuple(data[k:]),)), **kw)
    elif how == "dim_data":
        # other coordinates, everything else from the given dim
        base = CL[spec["c2"]](spec["n"], data, **kw)
        new = (data * 2)[:1 + spec["cut"]]
        form = spec["cut"] % 3
        d = C(base, data=new if form == 0 else tuple(new) if form == 1 else np.array(new, dtype=nparr.dtype))
        samedim(d, C(spec["n"], new, **kw), how)
        check(d.outputformat == ref.outputformat, "format %r", d.outputformat)
        samedim(base, CL[spec["c2"]](spec["n"], data, **kw), "source dim")
        for k2, v2 in (("unit", "W"), ("unit", ""), ("outputformat", "%.9f"), ("name", spec["nn"])):
            e = C(base, **{k2: v2})
            check(getattr(e, k2) == v2, "%s given is not used", k2)
            for k3 in ("unit", "outputformat", "name"):
                check(k3 == k2 or getattr(e, k3) == getattr(base, k3), "%s is lost when %s is given", k3, k2)
            exact(e.data, base.data, "coordinates")
        return
    elif how == "nested":
        k = spec["cut"] % len(data)
        d = C(spec["n"], [data[:k], [tuple(data[k:])]], **kw)
    elif how == "iter":
        d = C(spec["n"], iter(data), **kw)
    elif how == "hfarray":
        d = C(spec["n"], hfarray(nparr, dims=(C("q", len(data)),)), **kw)
    elif how == "int":
        d = C(spec["n"], len(data), **kw)
        exact(d.data, np.arange(len(data)), "integer size")
        ref = C(spec["n"], list(range(len(data))), **kw)
    elif how == "kwname":
        d = C(spec["nn"], list(data), name=spec["n"], **kw)
    elif how == "dim":
        d = C(CL[spec["c2"]](spec["n"], data, **kw))
    else:
        base = CL[spec["c2"]](spec["n"], data, **kw)
        d = C(base, data=data[::-1], unit="W", name=spec["nn"], outputformat="%.9f")
        check((d.name, d.unit, d.outputformat) == (spec["nn"], "W", "%.9f"), "overrides")
        exact(d.data, nparr[::-1], "override data")
        # the original is untouched
        samedim(base, CL[spec["c2"]](ref), "source dim")
        check(base.outputformat == ref.outputformat, "source dim format")
        return
    samedim(d, ref, how)
    check(d.outputformat == ref.outputformat, "format %r", d.outputformat)
    check(d.data.ndim == 1 and d.fullsize() == len(data), "data shape %r", d.data.shape)
    if spec["k"] == "t" and how != "int":
        check(np.issubdtype(d.data.dtype, np.datetime64), "datetime coordinates have dtype %s", d.data.dtype)
    if how != "int":
        exact(d.data, nparr, "coordinates")
    want = spec["f"] or {"i": "%d", "f": "%.16e", "s": "%s", "t": "%s"}["i" if how == "int" else spec["k"]]
    check(d.outputformat == want, "format %r, expected %r", d.outputformat, want)


@st.composite
def mixed_case(draw):
    n = draw(st.integers(1, 5))
    return dict(c=draw(st.sampled_from(sorted(CL))), how=draw(st.sampled_from(["list", "tuple", "array", "nested"])),
                d=draw(st.lists(st.one_of(st.integers(-99, 99), small_float, st.floats(-1e12, 1e12)), min_size=n, max_size=n)))


@S.sub("default_format", mixed_case(), quick=150, thorough=2000)
def default_format(spec, note):
    """the format a dim of numbers gets by itself writes every coordinate as the number it is"""
    data = list(spec["d"])
    d = CL[spec["c"]]("q", dict(list=list, tuple=tuple, array=np.array, nested=lambda x: [x[:1], x[1:]])[spec["how"]](data))
    note.nontrivial(len(set(type(x) for x in data)) > 1)
    exact(d.data, np.array(data), "coordinates")
    for fmt in (d.outputformat, hfarray(d).outputformat, d[::-1].outputformat):
        for x in data:
            check(float(fmt % x) == x, "coordinate %r of %r is written as %r", x, data, fmt % x)


@S.sub("immutable", one(), quick=200, thorough=3000)
def immutable(spec, note):
    src = list(spec["d"]) if spec["k"] != "t" else [datetime.datetime.fromisoformat(x) for x in spec["d"]]
    arr = np.array(src, dtype="datetime64[us]") if spec["k"] == "t" else np.array(src)
    note.nontrivial(len(src) > 1)
    for source in (src, arr):
        d = CL[spec["c"]](spec["n"], source, unit=spec["u"])
        h = hash(d)
        keep = np.array(d.data)
        source[0] = source[-1]
        source[:] = source[::-1]
        exact(d.data, keep, "changing the source changed the dim")
        try:
            d.data[...] = d.data[::-1].copy()
        except ValueError:
            pass
        exact(d.data, keep, "writing to dim.data changed the dim")
        check(hash(d) == h, "hash changed")
    for attr, v in [("name", "q"), ("unit", "q"), ("data", [1])]:
        check(raises(lambda: setattr(d, attr, v), AttributeError) is not None, "dim.%s can be assigned", attr)


@st.composite
def slice_case(draw):
    s = draw(one())
    s["sl"] = [draw(st.one_of(st.none(), st.integers(-6, 6))), draw(st.one_of(st.none(), st.integers(-6, 6))), draw(st.sampled_from([None, 1, 2, -1]))]
    m = draw(st.lists(st.booleans(), min_size=5, max_size=5))
    s["mask"] = (m * 40)[:max(5, len(s["d"]))]
    return s


@S.sub("slicing", slice_case(), quick=400, thorough=6000)
def slicing(spec, note):
    d = mkdim(spec)
    sl = slice(*spec["sl"])
    r = d[sl]
    note.nontrivial(len(d.data) > 1)
    want = d.data[sl]
    check(r.__class__ is d.__class__ and r.name == d.name and r.unit == d.unit, "slice lost identity")
    check(list(r.data) == list(want), "slice data %r, expected %r", r.data, want)
    check(r.outputformat == d.outputformat if len(want) else True, "slice format")
    m = np.array(spec["mask"][:len(d.data)])
    q = d[m]
    check(q.__class__ is d.__class__ and q.unit == d.unit and list(q.data) == list(d.data[m]), "mask selection")
    check(q.name == d.name and (q.outputformat == d.outputformat if m.any() else True), "mask selection lost name or format")
    w = np.array([i for i, x in enumerate(spec["mask"][:len(d.data)]) if x][::-1], dtype=int)
    q = d[w]
    check(q.__class__ is d.__class__ and q.name == d.name and q.unit == d.unit and list(q.data) == list(d.data[w]) and (q.outputformat == d.outputformat if len(w) else True), "list selection")
    check(raises(lambda: d[0], IndexError) is not None, "integer index accepted")


@st.composite
def axes_case(draw):
    s = draw(one())
    s["fam"] = draw(st.sampled_from(["diag", "complex"]))
    return s


@S.sub("derived_axes", axes_case(), quick=200, thorough=2000)
def derived_axes(spec, note):
    """diagonal/independent/derivative axes convert into each other keeping name, data, unit"""
    d0 = mkdim(spec)
    if spec["fam"] == "complex":
        D, I, V = ComplexDiagAxis, ComplexIndepAxis, ComplexDerivAxis
    else:
        D, I, V = CLS["D"], IndepAxis, DerivAxis
    d = D(d0)
    note.nontrivial()
    i, v = d.indep_axis, d.deriv_axis
    for x, C in ((i, I), (v, V), (i.deriv_axis, V), (v.indep_axis, I), (i.diag_axis, D), (v.diag_axis, D)):
        check(isinstance(x, C), "%r is not a %s", x, C.__name__)
        check(x.name == d.name and x.unit == d.unit and bool(np.all(x.data == d.data)), "derived axis differs from %r", d)
        check(x.outputformat == d.outputformat, "derived axis format")
