"""C06: reshaping helpers keep every value at its named coordinates."""
import itertools
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset.arrayobj import (change_shape, make_same_dims, remove_tail, remove_rep, expand_diagonals, make_matrix,
                             make_vector, make_fullcomplex_array)
from hftools.dataset import DimSweep, DimRep
from hftools.dataset.arrayobj import dims_union

S = Suite("C06", rule="arrays over 1-5 named dims (sweeps, reps, matrix) in arbitrary order with distinct values; "
          "non-trivial: >= 2 dims and at least one dim added, collapsed or moved",
          assumptions=["matrix dims come last for remove_tail (hftools convention)"])


def dval(n):
    return (np.arange(n) * 7 + 3).astype(float) / 2


@st.composite
def dims_case(draw, maxdims=4, kinds="ifs", matrix=True, minn=1):
    pool = draw(dim_pool(maxdims=maxdims, maxn=3, kinds=kinds, matrix=matrix, minn=minn))
    return draw(st.permutations(pool))


def arr(dims, cplx=False, unit="V", fmt="%.5f"):
    n = nval(dims)
    v = dval(n)
    if cplx:
        v = v + 1j * (v[::-1] + 0.25)
    if n % 3 == 2:
        # single precision (the values fit exactly)
        v = v.astype("c8" if cplx else "f4")
    elif n % 3 == 1:
        # values which only fit double precision, or only whole numbers
        v = v + 0.1 if cplx or n % 2 else v.astype("i8") + (2 ** 53 + 1)
    v = v.reshape(tuple(len(d["d"]) for d in dims))
    return hfarray(lay(v), dims=tuple(mkdim(d) for d in dims), unit=unit, outputformat=fmt), v


@st.composite
def cs_case(draw):
    pool = draw(dims_case(5))
    have = draw(subperm(pool, 1))
    new = draw(st.permutations(pool))
    return dict(have=have, new=new)


@S.sub("change_shape", cs_case(), quick=600, thorough=12000)
def t_change_shape(spec, note):
    """values are found under the same names; absent dims have length one"""
    a, v = arr(spec["have"])
    newdims = tuple(mkdim(d) for d in spec["new"])
    r = change_shape(a, newdims)
    note.nontrivial(len(newdims) > 1 and [d["n"] for d in spec["have"]] != [d["n"] for d in spec["new"]])
    check(tuple(d.name for d in r.dims) == tuple(d.name for d in newdims), "dims %r", r.dims)
    names = [d["n"] for d in spec["have"]]
    check(r.shape == tuple(len(d["d"]) if d["n"] in names else 1 for d in spec["new"]), "shape %r", r.shape)
    want = np.transpose(v, [names.index(d["n"]) for d in spec["new"] if d["n"] in names]).reshape(r.shape)
    exact(r, want)
    exact(a, v, "source")
    samedims(a.dims, [mkdim(d) for d in spec["have"]], "source dims")
    check(a.shape == v.shape, "source shape changed")


@st.composite
def same_case(draw):
    pool = draw(dims_case(5))
    return dict(a=draw(subperm(pool, 1)), b=draw(subperm(pool, 1)))


@S.sub("make_same_dims", same_case(), quick=400, thorough=8000)
def t_make_same_dims(spec, note):
    a, va = arr(spec["a"])
    b, vb = arr(spec["b"], cplx=True)
    A, B = make_same_dims(a, b)
    names = [d.name for d in A.dims]
    check(names == [d.name for d in B.dims], "dims differ: %r / %r", A.dims, B.dims)
    check(sorted(names) == sorted(set(d["n"] for d in spec["a"] + spec["b"])), "not the union of the dims: %r", names)
    note.nontrivial(len(names) > 1 and [d["n"] for d in spec["a"]] != [d["n"] for d in spec["b"]])
    # matrix dims last, rows before columns; reps after sweeps
    pr = [d.sortprio for d in A.dims]
    check(pr == sorted(pr), "order of the union %r", names)
    u = dims_union(a, b)
    check([d.name for d in u] == names, "dims_union")
    for x, v, s in ((A, va, spec["a"]), (B, vb, spec["b"])):
        mine = [d["n"] for d in s]
        perm = [mine.index(n) for n in names if n in mine]
        sh = tuple(len(s[mine.index(n)]["d"]) if n in mine else 1 for n in names)
        exact(x, np.transpose(v, perm).reshape(sh))


@st.composite
def ad_case(draw):
    dims = draw(dims_case(4))
    return dict(dims=dims, axis=draw(st.integers(0, len(dims))), n=draw(npts(1, 4)), nd=draw(dim_data(draw(npts(3, 3)), "f")), byint=draw(st.booleans()))


@S.sub("add_dim", ad_case(), quick=300, thorough=5000)
def t_add_dim(spec, note):
    a, v = arr(spec["dims"])
    k = spec["axis"]
    nd = DimSweep("added", spec["n"]) if spec["byint"] else DimSweep("added", spec["nd"], unit="m")
    r = a.add_dim(nd, k)
    note.nontrivial(len(nd.data) > 1)
    coherent(r)
    w = np.repeat(np.expand_dims(v, k), len(nd.data), axis=k)
    exact(r, w)
    samedims(r.dims, list(a.dims[:k]) + [nd] + list(a.dims[k:]))
    check(r.unit == "V", "unit lost")
    check(r.outputformat == "%.5f", "format lost")
    for i in range(len(nd.data)):
        exact(np.take(np.asarray(r), i, axis=k), v)
    # counted from the end, and without points
    q = a.add_dim(nd, k - a.ndim - 1)
    samedims(q.dims, r.dims, "axis %d" % (k - a.ndim - 1))
    exact(q, w)
    coherent(a.add_dim(DimSweep("added", 0), k))


@st.composite
def tail_case(draw):
    pool = draw(dim_pool(maxdims=4, maxn=3, kinds="if", matrix=False))
    dims = draw(st.permutations(pool))
    mat = draw(st.booleans())
    if mat:
        dims = dims + [dict(n="i", c="I", d=list(range(draw(st.integers(1, 3)))), k="i", u=None, f=None),
                       dict(n="j", c="J", d=list(range(draw(st.integers(1, 3)))), k="i", u=None, f=None)]
    return dict(dims=dims, mat=mat)


@S.sub("remove_tail", tail_case(), quick=300, thorough=5000)
def t_remove_tail(spec, note):
    a, v = arr(spec["dims"], cplx=True)
    r = remove_tail(a)
    note.nontrivial(len(spec["dims"]) > 2)
    coherent(r)
    mid = spec["dims"][1:-2] if spec["mat"] else spec["dims"][1:]
    shape = (v.shape[0], nval(mid)) + (v.shape[-2:] if spec["mat"] else ())
    check(r.shape == shape, "shape %r, expected %r", r.shape, shape)
    # element by element: tail index runs over the collapsed dims, last fastest
    msh = [range(len(d["d"])) for d in mid]
    for t, idx in enumerate(itertools.product(*msh)):
        exact(np.asarray(r)[:, t], v[(slice(None),) + idx], "tail %d" % t)
    samedim(r.dims[0], a.dims[0])
    if spec["mat"]:
        samedims(r.dims[-2:], a.dims[-2:])
    check(r.unit == "V", "unit lost")


@st.composite
def rep_case(draw):
    reps = draw(st.lists(st.sampled_from(["rep", "run", "wafer"]), unique=True, min_size=0, max_size=3))
    if draw(st.integers(0, 7)) == 0:
        reps += ["lot", "chip", "round"][:draw(st.integers(1, 3))]
    sw = draw(st.lists(st.sampled_from(["freq", "vd", "vg"]), unique=True, min_size=0 if reps else 1, max_size=2))
    dims = [draw(dim_spec(n, "R", kinds="if", maxn=3 if len(reps) < 5 else 2)) for n in reps] + [draw(dim_spec(n, "S", kinds="if", maxn=3)) for n in sw]
    dims = draw(enlarge(dims))
    dims = list(draw(st.permutations(dims)))
    if draw(st.integers(0, 2)) == 0:
        dims += [dict(n="i", c="I", d=[0, 1], k="i", u=None, f=None), dict(n="j", c="J", d=[0, 1], k="i", u=None, f=None)]
    return dims


@S.sub("remove_rep", rep_case(), quick=500, thorough=10000)
def t_remove_rep(spec, note):
    a, v = arr(spec, cplx=True)
    r = remove_rep(a, "Reps")
    coherent(r)
    reps = [i for i, d in enumerate(spec) if d["c"] == "R"]
    note.nontrivial(len(reps) > 1)
    note.hit("%d reps" % len(reps))
    check(r.unit == "V", "unit lost")
    exact(a, v, "source")
    if not reps:
        exact(r, v)
        samedims(r.dims, a.dims)
        return
    other = [i for i in range(len(spec)) if i not in reps]
    names = [d.name for d in r.dims]
    check(sorted(names) == sorted([spec[i]["n"] for i in other] + ["Reps"]), "dims %r", names)
    check(isinstance(r.dims[names.index("Reps")], DimRep), "collapsed dim class")
    check([n for n in names if n != "Reps"] == [spec[i]["n"] for i in other], "other dims reordered")
    for i in other:
        samedim(r.dims[names.index(spec[i]["n"])], a.dims[i])
    q = np.moveaxis(np.asarray(r), names.index("Reps"), 0)
    w = np.transpose(v, reps + other).reshape((-1,) + tuple(v.shape[i] for i in other))
    exact(q, w)


@st.composite
def diag_case(draw):
    if draw(st.integers(0, 5)) == 0:
        # many pairs
        dims = draw(dim_pool(maxdims=5, maxn=2, matrix=False, big=False))
    else:
        dims = draw(dims_case(3, matrix=False))
    which = [d["n"] for d in dims if d["c"] in "SR"]
    pick = draw(st.one_of(st.none(), st.lists(st.sampled_from(which), unique=True, min_size=1)))
    return dict(dims=dims, pick=pick, cplx=draw(st.booleans()))


@S.sub("expand_diagonals", diag_case(), quick=300, thorough=5000)
def t_expand(spec, note):
    a, v = arr(spec["dims"], cplx=spec["cplx"])
    diags = None if spec["pick"] is None else [a.dims[a.dims_index(n)] for n in spec["pick"]]
    r = expand_diagonals(a, diags)
    coherent(r)
    chosen = [d["n"] for d in spec["dims"]] if spec["pick"] is None else spec["pick"]
    note.nontrivial(any(len(d["d"]) > 1 for d in spec["dims"] if d["n"] in chosen))
    w = v
    ax = 0
    k = 0
    for d in spec["dims"]:
        if d["n"] in chosen:
            n = len(d["d"])
            q = np.zeros(w.shape[:ax + 1] + (n,) + w.shape[ax + 1:], dtype=w.dtype)
            for i in range(n):
                idx = (slice(None),) * ax + (i, i)
                q[idx] = np.take(w, i, axis=ax)
            w = q
            x, y = r.dims[ax], r.dims[ax + 1]
            src = a.dims[k]
            check(x.name == y.name == d["n"], "names of the expanded pair")
            samedim(x, src.indep_axis)
            samedim(y, src.deriv_axis)
            for z in (x, y):
                check(z.unit == src.unit and z.outputformat == src.outputformat and z.data.tolist() == src.data.tolist(), "expanded axis differs from %r", src)
            ax += 2
        else:
            samedim(r.dims[ax], a.dims[k])
            ax += 1
        k += 1
    exact(r, w)


@st.composite
def mk_case(draw):
    dims = draw(dim_pool(maxdims=3, maxn=3, matrix=False))
    return dict(dims=dims, ni=draw(st.integers(1, 4)), nj=draw(st.integers(1, 4)))


@S.sub("make_matrix_vector", mk_case(), quick=150, thorough=1500)
def t_make_matrix(spec, note):
    dims = tuple(mkdim(d) for d in spec["dims"])
    sh = tuple(len(d["d"]) for d in spec["dims"])
    v = dval(nval(spec["dims"]) * spec["ni"] * spec["nj"]).reshape(sh + (spec["ni"], spec["nj"]))
    m = make_matrix(v, dims)
    coherent(m)
    exact(m, v)
    note.nontrivial()
    samedims(m.dims, dims + (CLS["I"]("i", spec["ni"]), CLS["J"]("j", spec["nj"])))
    w = make_vector(v[..., 0, :], dims)
    coherent(w)
    exact(w, v[..., 0, :])
    samedims(w.dims, dims + (CLS["J"]("j", spec["nj"]),))


@S.sub("fullcomplex", dims_case(3, matrix=False), quick=200, thorough=2000)
def t_full(spec, note):
    """complex numbers become the real 2x2 matrices that multiply alike"""
    a, v = arr(spec, cplx=True)
    note.nontrivial()
    r = np.asarray(make_fullcomplex_array(a))
    check(r.shape == v.shape + (2, 2), "shape %r", r.shape)
    exact(r[..., 0, 0], v.real)
    exact(r[..., 1, 1], v.real)
    exact(r[..., 1, 0], v.imag)
    exact(r[..., 0, 1], -v.imag)
    p = v * (1 - 2j)
    b = hfarray(np.full(v.shape, 1 - 2j), dims=a.dims)
    prod = np.matmul(r, np.asarray(make_fullcomplex_array(b)))
    same(prod, np.asarray(make_fullcomplex_array(hfarray(p, dims=a.dims))))


@st.composite
def wrap_case(draw):
    dims = draw(dims_case(4))
    return dict(dims=dims, k=draw(st.integers(0, len(dims))), extra=draw(st.booleans()))


@S.sub("wrap", wrap_case(), quick=100, thorough=1500)
def t_wrap(spec, note):
    """data is wrapped with one dim for each of its axes, or not at all"""
    _, v = arr(spec["dims"])
    dims = [mkdim(d) for d in spec["dims"]]
    r = hfarray(v, dims=tuple(dims))
    exact(r, v)
    samedims(r.dims, dims)
    k = spec["k"]
    if spec["extra"]:
        bad = dims[:k] + [DimSweep("added", 1)] + dims[k:]
    else:
        bad = dims[:k] + dims[k + 1:] if k < len(dims) else dims[1:]
    note.nontrivial(len(dims) > 1)
    check(raises(lambda: hfarray(v, dims=tuple(bad))) is not None, "%d axes wrapped with %d dims", v.ndim, len(bad))
