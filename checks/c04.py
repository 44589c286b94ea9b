"""C04: unit/output format travel with the data; copies are independent, views share."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.networks.multiports import SArray, ZArray, YArray

S = Suite("C04", rule="arrays of every dtype with unit/outputformat set or not, put through each selecting, "
          "re-arranging, copying and viewing operation; then data and metadata of source/result are mutated and "
          "the other is inspected; non-trivial: unit or output format is set",
          assumptions=["boolean masks, lists and take copy, everything else views (numpy's own rule)"])

FMTS = [None, "%.3f", "%d", "%s", "%.16e", "%10.4g"]
OPS = ["slice", "int", "ell", "mask", "list", "take", "transpose", "T", "reorder", "squeeze", "add_dim", "copy", "view",
       "ctor", "ctor_nocopy", "dots", "step"]
NUMOPS = OPS + ["neg", "abs", "conj", "real"]


@st.composite
def case(draw):
    pool = draw(dim_pool(maxdims=3, maxn=4, kinds="ifs"))
    dims = draw(subperm(pool, draw(st.sampled_from([2, 2, 2, 1, 0])), 4)) if len(pool) > 1 else pool
    if draw(st.integers(0, 9)) == 0:
        dims = []
    dt = draw(st.sampled_from("fcisFC"))
    op = draw(st.sampled_from(OPS if dt == "s" else NUMOPS))
    n = nval(dims)
    return dict(a=dict(dims=dims, t=dt, v=draw(values(n, dt)), u=draw(st.sampled_from(UNITS + [""])), fmt=draw(st.sampled_from(FMTS))),
                op=op, k=draw(st.integers(0, 20)))


def apply(a, op, k):
    """returns (result, shares_memory)"""
    nd = a.ndim
    if nd == 0 and op not in ("dots", "squeeze", "add_dim", "copy", "view", "ctor", "ctor_nocopy", "neg", "T"):
        op = "copy"
    if op in ("neg", "abs") and nd == 0:
        op = "view"
    ax = k % max(nd, 1)
    if nd == 0:
        return {"dots": lambda: (a[...], True), "squeeze": lambda: (a.squeeze(), True), "add_dim": lambda: (a.add_dim(CLS["S"]("added", 1 + k % 2)), None), "copy": lambda: (a.copy(), False),
                "view": lambda: (a.view(), True), "ctor": lambda: (hfarray(a), False), "ctor_nocopy": lambda: (hfarray(a, copy=False), True), "T": lambda: (a.T, True)}[op]()
    n = a.shape[ax]
    pre = (slice(None),) * ax
    if op == "slice":
        return a[pre + (slice(0, max(1, n - 1)),)], True
    if op == "step":
        return a[pre + (slice(None, None, -1),)], True
    if op == "int":
        return (a[pre + (k % n,)], True) if nd > 1 else (a[0:1], True)
    if op == "ell":
        return a[..., 0:1], True
    if op == "dots":
        return a[...], True
    if op == "mask":
        return a[hfarray(np.ones(n, bool), dims=(a.dims[ax],))], False
    if op == "list":
        return a[pre + ([0],)], False
    if op == "take":
        return a.take([0], axis=a.dims[ax].name), False
    if op == "transpose":
        return a.transpose(*([ax] + [i for i in range(nd) if i != ax])), True
    if op == "T":
        return a.T, True
    if op == "reorder":
        return a.reorder_dimensions(a.dims[ax]), True
    if op == "squeeze":
        return a.squeeze(), True
    if op == "add_dim":
        return a.add_dim(CLS["S"]("added", 2), ax), False
    if op == "copy":
        return a.copy(), False
    if op == "view":
        return a.view(), True
    if op == "ctor":
        return hfarray(a), False
    if op == "ctor_nocopy":
        return hfarray(a, copy=False), True
    if op == "neg":
        return -a, False
    if op == "abs":
        return abs(a), False
    if op == "conj":
        return a.conj(), None
    if op == "real":
        return a.real, None


@S.sub("metadata", case(), quick=900, thorough=20000)
def metadata(spec, note):
    a = mkarr(spec["a"])
    u, f = a.unit, a.outputformat
    check(u == spec["a"]["u"], "constructor unit %r", u)
    if spec["a"]["fmt"] is not None:
        check(f == spec["a"]["fmt"], "constructor format %r", f)
    else:
        want = {"i": "%d", "f": "%.16e", "c": "%.16e", "s": "%s", "F": "%.16e", "C": "%.16e"}[spec["a"]["t"]]
        check(f == want, "default format %r for dtype %s", f, a.dtype)
    before = np.array(a)
    r, shares = apply(a, spec["op"], spec["k"])
    note.hit(spec["op"])
    note.nontrivial(u is not None or spec["a"]["fmt"] is not None)
    check(isinstance(r, hfarray), "%s gave %r", spec["op"], type(r))
    coherent(r, spec["op"])
    check(r.unit == u, "%s: unit %r became %r", spec["op"], u, r.unit)
    check(r.outputformat == f, "%s: format %r became %r", spec["op"], f, r.outputformat)
    exact(a, before, "%s modified its operand" % spec["op"])
    if r is a:    # numpy returns a real array's own conjugate/real part as is
        return
    # metadata is never shared
    r.unit = "changed"
    r.outputformat = "%changed"
    if r.ndim:
        r.replace_dim(r.dims[0], CLS["S"]("renamed", np.arange(r.shape[0])))
    check(a.unit == u and a.outputformat == f, "%s: changing the result's metadata changed the source", spec["op"])
    samedims(a.dims, [mkdim(d) for d in spec["a"]["dims"]], "%s: source dims after changing result dims" % spec["op"])
    # data sharing
    if shares is not None and r.size:
        check(np.shares_memory(np.asarray(a), np.asarray(r)) == shares, "%s: shares memory with its source is %r", spec["op"], not shares)
        new = {"i": 777, "f": 777.5, "c": 7 + 7j, "s": "zzz", "F": 777.5, "C": 7 + 7j}[spec["a"]["t"]]
        if not shares:
            r[...] = 777 if r.dtype.kind == "f" else new
            exact(a, before, "%s: writing to the result changed the source" % spec["op"])
        else:
            r[...] = new
            check(bool(np.any(np.asarray(a) == np.array(new, dtype=a.dtype))), "%s: view does not write through", spec["op"])


@st.composite
def ctor_case(draw):
    pool = draw(dim_pool(maxdims=3, maxn=4, kinds="ifs", matrix=False))
    a = draw(array_spec(pool, "fci"))
    a["fmt"] = draw(st.sampled_from(FMTS))
    return dict(a=a, unit=draw(st.sampled_from([None, "Ohm", "S", ""])), fmt=draw(st.sampled_from([None, "%.1f"])), newdims=draw(st.booleans()), df=draw(st.sampled_from(FMTS)))


@S.sub("constructor", ctor_case(), quick=300, thorough=5000)
def constructor(spec, note):
    """explicit arguments win over what the source array carries"""
    a = mkarr(spec["a"])
    dims = None
    if spec["newdims"]:
        dims = tuple(CLS["S"]("n%d" % i, n) for i, n in enumerate(a.shape))
    r = hfarray(a, dims=dims, unit=spec["unit"], outputformat=spec["fmt"])
    note.nontrivial(spec["unit"] is not None or spec["fmt"] is not None)
    check(r.unit == (a.unit if spec["unit"] is None else spec["unit"]), "unit %r", r.unit)
    check(r.outputformat == (spec["fmt"] or a.outputformat), "outputformat %r", r.outputformat)
    samedims(r.dims, dims or a.dims)
    exact(r, np.asarray(a))
    check(not np.shares_memory(np.asarray(r), np.asarray(a)), "hfarray(a) shares memory")
    # an hfarray built from a dimension carries its coordinates, unit and format
    for d in a.dims:
        q = hfarray(d.__class__(d, outputformat=spec["df"]) if spec["df"] else d)
        check(q.outputformat == (spec["df"] or d.outputformat) and q.unit == d.unit, "hfarray(dim) metadata: %r", (q.unit, q.outputformat))
        h = hfarray(d)
        exact(h, d.data)
        check(h.unit == d.unit and h.outputformat == d.outputformat, "hfarray(dim) metadata")
        samedims(h.dims, (d,))
        h[...] = h[::-1]
        samedim(a.dims[[x.name for x in a.dims].index(d.name)], d, "dimension after writing to hfarray(dim)")
        exact(d.data, mkdim(spec["a"]["dims"][[x["n"] for x in spec["a"]["dims"]].index(d.name)]).data, "dim data")


@st.composite
def mp_case(draw):
    n, p = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return dict(n=n, p=p, v=draw(st.lists(cpx(), min_size=n * p * p, max_size=n * p * p)), cls=draw(st.sampled_from("SZY")),
                op=draw(st.sampled_from(["slice", "int", "copy", "view", "dots", "transpose"])), k=draw(st.integers(0, 9)))


@S.sub("subclass", mp_case(), quick=200, thorough=3000)
def subclass(spec, note):
    """network arrays stay network arrays of the same kind"""
    n, p = spec["n"], spec["p"]
    C = dict(S=SArray, Z=ZArray, Y=YArray)[spec["cls"]]
    v = np.array([tocpx(x) for x in spec["v"]]).reshape(n, p, p)
    dims = (CLS["S"]("freq", n), CLS["I"]("i", p), CLS["J"]("j", p))
    a = C(v, dims=dims, unit="dimless")
    check(not np.shares_memory(np.asarray(a), v), "%s(array) shares memory with its argument", C.__name__)
    check(not np.shares_memory(np.asarray(C(a)), np.asarray(a)), "%s(a) shares memory with a", C.__name__)
    w = C(a)
    w[...] = 5
    exact(a, v, "after writing to a re-wrapped network array")
    note.nontrivial()
    k = spec["k"] % n
    r = dict(slice=lambda: a[k:], int=lambda: a[k], copy=lambda: a.copy(), view=lambda: a.view(), dots=lambda: a[...],
             transpose=lambda: a.transpose(0, 1, 2))[spec["op"]]()
    w = dict(slice=lambda: v[k:], int=lambda: v[k]).get(spec["op"], lambda: v)()
    check(isinstance(r, C), "%s of %s is a %s", spec["op"], C.__name__, type(r).__name__)
    coherent(r)
    exact(r, w)
    check(r.unit == "dimless", "unit lost")
