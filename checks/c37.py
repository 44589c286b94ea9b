"""C37: Python's own copy and pickle modules keep dimensions, arrays, networks and blocks whole."""
import copy
import pickle
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import DataBlock, DataDict
from hftools.dataset.comments import Comments
from hftools.networks.multiports import SArray, ZArray, YArray, TArray

S = Suite("C37", rule="dimensions, arrays (all types, any dims, any memory layout), network arrays with a reference impedance, "
          "dictionaries and blocks with comments, passed through copy.copy, copy.deepcopy and every pickle protocol; non-trivial: "
          "the object has a unit, a format or an order of its own")
WAYS = ["copy", "deepcopy"] + ["pickle%d" % p for p in range(pickle.HIGHEST_PROTOCOL + 1)]
FMTS = [None, "%.3f", "%s", "%10.4g"]


def through(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(way[6:])))


def samearray(r, a, what):
    check(type(r) is type(a), "%s: %r became %r", what, type(a), type(r))
    check(r.dtype == a.dtype, "%s: type of the values %s became %s", what, a.dtype, r.dtype)
    exact(r, np.asarray(a), what)
    samedims(r.dims, a.dims, what)
    coherent(r, what)
    check(r.unit == a.unit and r.outputformat == a.outputformat, "%s: unit or format %r became %r", what,
          (a.unit, a.outputformat), (r.unit, r.outputformat))


@st.composite
def array_case(draw):
    pool = draw(dim_pool(maxdims=4, maxn=4))
    dims = draw(subperm(pool, 0, 4))
    t = draw(st.sampled_from("fcisbFCIN"))
    return dict(a=dict(dims=dims, t=t, v=draw(values(nval(dims), t)), u=draw(st.sampled_from(UNITS))), fmt=draw(st.sampled_from(FMTS)),
                way=draw(st.sampled_from(WAYS)), k=draw(st.integers(0, 5)))


@S.sub("array", array_case(), quick=300, thorough=6000)
def array_(spec, note):
    a = mkarr(spec["a"])
    if not isinstance(a, hfarray):
        return
    if spec["fmt"]:
        a.outputformat = spec["fmt"]
    if spec["k"] == 0 and a.ndim > 1:
        a = a.T
    if spec["k"] == 1 and a.ndim:
        a = a[:1]
    before, dims, u, f = np.array(a), [d for d in a.dims], a.unit, a.outputformat
    r = through(a, spec["way"])
    note.hit(spec["way"])
    note.nontrivial(a.ndim > 0 and (u is not None or spec["fmt"] is not None))
    samearray(r, a, spec["way"])
    if a.ndim:
        # and it works on
        d = a.dims[0]
        exact(r[:1], np.asarray(a)[:1])
        check(r.sum(d.name).dims == a.sum(d.name).dims if a.dtype.kind in "fci" else True, "sum of the copy")
    check(not np.shares_memory(np.asarray(r), np.asarray(a)), "%s shares memory with the original", spec["way"])
    r.unit, r.outputformat = "changed", "%changed"
    if r.ndim:
        r.replace_dim(r.dims[0], CLS["S"]("renamed", np.arange(r.shape[0])))
    exact(a, before, "original")
    samedims(a.dims, dims, "original")
    check(a.unit == u and a.outputformat == f, "the original's unit or format changed")


@st.composite
def dim_case(draw):
    return dict(d=draw(dim_spec("x", draw(st.sampled_from("SRIJP")), maxn=5, minn=1)), u=draw(st.sampled_from(UNITS)), f=draw(st.sampled_from(FMTS)),
                way=draw(st.sampled_from(WAYS)))


@S.sub("dim", dim_case(), quick=100, thorough=1500)
def dim_(spec, note):
    d = mkdim(spec["d"])
    d = d.__class__(d, unit=spec["u"] or d.unit, outputformat=spec["f"] or d.outputformat)
    r = through(d, spec["way"])
    note.nontrivial(len(d.data) > 1)
    samedim(r, d, spec["way"])
    check(r.outputformat == d.outputformat, "format %r became %r", d.outputformat, r.outputformat)
    check(r.data.dtype == d.data.dtype, "type of the coordinates changed")
    check(r == d and not (r != d) and hash(r) == hash(d), "%s of a dimension differs from it", spec["way"])


@st.composite
def net_case(draw):
    n, p = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    c = draw(st.sampled_from("SZYT"))
    if c == "T":
        p = 2
    return dict(n=n, p=p, v=draw(st.lists(cpx(), min_size=n * p * p, max_size=n * p * p)), c=c, z0=draw(st.sampled_from([None, 50, 75.0])),
                way=draw(st.sampled_from(WAYS)), sub=draw(st.integers(0, 3)))


@S.sub("network", net_case(), quick=100, thorough=1500)
def network(spec, note):
    n, p = spec["n"], spec["p"]
    C = dict(S=SArray, Z=ZArray, Y=YArray, T=TArray)[spec["c"]]
    v = np.array([tocpx(x) for x in spec["v"]]).reshape(n, p, p)
    kw = {} if spec["z0"] is None or spec["c"] != "S" else dict(Z0=spec["z0"])
    a = C(v, dims=(CLS["S"]("freq", n), CLS["I"]("i", p), CLS["J"]("j", p)), **kw)
    if spec["sub"] == 0:
        a = a[:1]
    r = through(a, spec["way"])
    note.nontrivial(p > 1)
    note.hit(spec["c"], spec["way"])
    samearray(r, a, spec["way"])
    check(getattr(r, "Z0", None) == getattr(a, "Z0", None), "reference impedance %r became %r", getattr(a, "Z0", None), getattr(r, "Z0", None))
    if spec["c"] != "T":
        for i in range(p):
            for j in range(p):
                name = "%s%d%d" % (spec["c"], i + 1, j + 1)
                exact(getattr(r, name), np.asarray(a)[..., i, j], name)
    exact(a, v if spec["sub"] else v[:1], "original")


@st.composite
def block_case(draw):
    pool = draw(dim_pool(maxdims=4, maxn=3))
    names = draw(st.lists(st.sampled_from(["zeta", "alpha", "S", "Y", "b", "Id", "q9", "gain"]), unique=True, min_size=1, max_size=5))
    vs = []
    for n in names:
        dims = draw(subperm(pool, 0, 4))
        t = draw(st.sampled_from("fcis"))
        vs.append((n, dict(dims=dims, t=t, v=draw(values(nval(dims), t)), u=draw(st.sampled_from(UNITS)))))
    return dict(vs=vs, way=draw(st.sampled_from(WAYS)), com=draw(st.booleans()), name=draw(st.sampled_from([None, "block"])),
                extra=draw(st.booleans()), drop=draw(st.booleans()))


@S.sub("block", block_case(), quick=200, thorough=4000)
def block(spec, note):
    db = DataBlock()
    for n, a in spec["vs"]:
        db[n] = mkarr(a)
    if spec["extra"]:
        db["aa_free"] = CLS["S"]("aa_free", [3, 1], unit="K")
    if spec["drop"] and len(spec["vs"]) > 2:
        n0, a0 = spec["vs"][0]
        del db[n0]
        db[n0] = mkarr(a0)
    if spec["com"]:
        db.comments = Comments(["Gate: 4", "a remark"])
    db.blockname = spec["name"]
    want = [(k, np.array(v), v.dims, v.unit, v.outputformat) for k, v in db.vardata.items()]
    wdims = [(k, d) for k, d in db.ivardata.items()]
    r = through(db, spec["way"])
    note.hit(spec["way"])
    note.nontrivial(len(want) > 1)

    def whole(x, what):
        check(type(x) is DataBlock, "%s is %r", what, type(x))
        check(list(x.vardata.keys()) == [w[0] for w in want], "%s: variables %r, expected %r", what, list(x.vardata.keys()), [w[0] for w in want])
        check(list(x.ivardata.keys()) == [k for k, _ in wdims], "%s: dims %r, expected %r", what, list(x.ivardata.keys()), [k for k, _ in wdims])
        for k, v, dims, u, f in want:
            g = x[k]
            exact(g, v, what)
            samedims(g.dims, dims, what)
            check(g.unit == u and g.outputformat == f, "%s: unit or format of %s", what, k)
        for k, d in wdims:
            samedim(x.ivardata[k], d, what)
        check(x.blockname == spec["name"], "%s: block name %r", what, x.blockname)
        if spec["com"]:
            check(list(x.comments.fullcomments) == ["Gate: 4", "a remark"] and x.comments.property["Gate"] == 4, "%s: comments", what)
        check(raises(lambda: x["not there"], KeyError) is not None and raises(lambda: x.not_there, AttributeError) is not None, "missing name")

    whole(r, spec["way"])
    if spec["way"] != "copy":
        n = want[0][0]
        if want[0][1].dtype.kind in "fci":
            r[n][...] = 99
        r["new"] = hfarray(1.0)
        del r[n]
        if spec["com"]:
            r.comments.property["Gate"] = 7
            r.comments.fullcomments.append("more")
        r.blockname = "other"
        whole(db, "original")


@st.composite
def dict_case(draw):
    keys = draw(st.lists(st.sampled_from(["b", "a", "c", "Z", "x1", "items2", "order_"]), unique=True, min_size=0, max_size=6))
    return dict(keys=keys, again=draw(st.lists(st.integers(0, 5), max_size=3)), way=draw(st.sampled_from(WAYS)))


@S.sub("dictionary", dict_case(), quick=100, thorough=1500)
def dictionary(spec, note):
    d = DataDict()
    for i, k in enumerate(spec["keys"]):
        d[k] = [i]
    for i in spec["again"]:
        if i < len(spec["keys"]):
            k = spec["keys"][i]
            d[k] = d.pop(k)
    keys, vals = list(d.keys()), [list(v) for v in d.values()]
    r = through(d, spec["way"])
    note.nontrivial(len(keys) > 1)
    check(type(r) is DataDict, "%r", type(r))
    check(list(r) == keys and list(r.keys()) == keys and [list(v) for v in r.values()] == vals, "%r became %r", d, r)
    check(len(r) == len(keys) and all(k in r and getattr(r, k) == r[k] for k in keys), "access")
    r["new"] = [5]
    if keys and spec["way"] != "copy":
        r[keys[0]].append(1)
        del r[keys[0]]
    check(list(d.keys()) == keys and [list(v) for v in d.values()] == vals, "the original changed")
