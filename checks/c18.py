"""C18: an expandable HDF5 file holds exactly the saves appended to it, in order."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp
import h5py
from hftools.file_formats.hdf5 import read_hdf5, save_hdf5, append_hdf5
from checks.c17 import block, build, cmpdim

S = Suite("C18", rule="histories of 1-5 appends to an expandable file created from a generated block (see C17), a fresh h5py.File per step, default or named index dimension; "
          "some steps try a block with a missing variable, other coordinates, transposed dimensions or values of another kind; non-trivial: >= 1 accepted or refused append",
          assumptions=["version 0.2 files"])


def edef():
    return st.tuples(st.sampled_from([None, "run", "INDEX"]), st.sampled_from([None, "V"]), st.integers(0, 7)).map(list)


@S.sub("append", st.tuples(block(), edef(), st.lists(st.sampled_from(["ok", "ok", "ok", "missing", "coord", "dims", "kind"]), min_size=1, max_size=5) | st.lists(st.sampled_from(["ok", "ok", "ok", "missing", "coord", "dims", "kind"]), min_size=9, max_size=16)).map(list), quick=300)
def append(arg, note):
    """model: the list of appended blocks"""
    spec, (ename, eunit, e0), hist = arg
    spec = dict(spec, ver="0.2")
    ed = None if ename is None else DimRep(ename, np.array([e0]), unit=eunit)
    kw = dict(expanddim=ed) if ed is not None else {}
    en = ename or "INDEX"
    if any(d["n"] == en for d in spec["dims"]):
        return
    db, vals, dims = build(spec)
    model = [vals]
    bad = 0
    with Tmp() as d:
        fn = d + "/a.hdf5"
        with h5py.File(fn, "w") as fil:
            save_hdf5(db, fil, expandable=True, **kw)
        for k, what in enumerate(hist):
            nd, nv, _ = build(spec, seedadd=7 * (k + 1))
            with h5py.File(fn, "r+") as fil:
                if what == "ok":
                    append_hdf5(nd, fil, **kw)
                    model.append(nv)
                    continue
                nd = spoil(nd, nv, what, k)
                if nd is None:
                    continue
                err = raises(lambda: append_hdf5(nd, fil, **kw))
            check(err is not None, "appending a block with %s problem was accepted", what)
            bad += 1
            note.hit("bad:" + what)
        r = read_hdf5(fn)
    N = len(model)
    check(set(r.vardata) == set(vals), "variables %r", sorted(r.vardata))
    for k, (a, dd, u, f) in vals.items():
        x = r[k]
        coherent(x, k)
        names = [q.name for q in x.dims]
        check(sorted(names) == sorted([q.name for q in dd] + [en]), "%s: dims %r", k, names)
        ax = names.index(en)
        check([n for n in names if n != en] == [q.name for q in dd], "%s: dims order %r", k, names)
        check(x.shape[ax] == N, "%s: %d entries after %d saves", k, x.shape[ax], N)
        for i in range(N):
            exact(np.take(np.asarray(x), i, axis=ax), model[i][k][0], "%s entry %d" % (k, i))
        check(x.unit == u, "%s: unit", k)
        for q in x.dims:
            if q.name != en:
                cmpdim(q, [w for w in dd if w.name == q.name][0], False)
            else:
                exact(np.asarray(q.data), np.arange(N) + (e0 if ed is not None else 0), "index of the saves")
                check(q.unit == (eunit if ed is not None else None), "index unit %r", q.unit)
    note.hit("saves%d" % min(N, 4))
    note.nontrivial(N > 1 or bad > 0)


def spoil(db, vals, what, k):
    names = list(vals)
    nm = names[k % len(names)]
    if what == "missing":
        del db.vardata[nm]
        return db
    a, dd, u, f = vals[nm]
    new = None
    if what == "coord" and dd and a.dtype.kind != "U":
        z = k // 2 % len(dd)
        q = dd[z]
        x = np.array(q.data)
        n = len(x)
        if x.dtype.kind not in "ifU":
            return None
        if k % 3 == 0 or n < 2:
            x = np.array([str(w) + "_" for w in x]) if x.dtype.kind == "U" else x + 1
        elif k % 3 == 1:   # one point differs
            p = (k * 7 + n) % n if n < 3 else 1 + k % (n - 2)
            x = x.astype(object)
            x[p] = x[p] + "_" if isinstance(x[p], str) else x[p] + (1 if q.data.dtype.kind == "i" else max(abs(x).max(), 1) * 1e-6)
            x = np.array(x.tolist())
        else:              # the same points in another order
            x[-1], x[n // 2 - 1] = x[n // 2 - 1], x[-1]
        if np.array_equal(x, q.data):
            return None
        q2 = type(q)(q.name, x, unit=q.unit)
        new = hfarray(a, dims=tuple(dd[:z]) + (q2,) + tuple(dd[z + 1:]))
    elif what == "dims" and len(dd) > 1:
        new = hfarray(a.T, dims=tuple(dd[::-1]))
    elif what == "kind" and a.dtype.kind in "iuf":
        new = hfarray(a + (.5 if a.dtype.kind in "iu" else 1j), dims=tuple(dd))
    if new is None:
        return None
    nd = DataBlock()
    for n2 in names:
        if n2 == nm:
            nd.vardata[n2] = new
    for n2 in names:
        if n2 != nm:
            nd.vardata[n2] = hfarray(vals[n2][0], dims=vals[n2][1])
    for n2 in names:
        for q in nd.vardata[n2].dims:
            if q.name not in nd.ivardata:
                nd.ivardata[q.name] = q
    return nd


@S.sub("many", st.tuples(st.sampled_from([40, 130, 258, 300]), st.integers(0, 10 ** 6), st.booleans()).map(list), quick=8, thorough=100)
def many_saves(arg, note):
    """long histories of a small block, the file kept open or opened anew for every save"""
    n, seed, keep = arg
    rng = np.random.RandomState(seed)
    x = rng.randint(-1000, 1000, (n, 3)) / 8.
    p = rng.randint(-1000, 1000, n)

    def blk(k):
        db = DataBlock()
        db.X = hfarray(x[k], dims=(DimSweep("freq", [1., 2., 4.]),))
        db.P = hfarray(p[k])
        return db
    with Tmp() as d:
        fn = d + "/m.hdf5"
        with h5py.File(fn, "w") as fil:
            save_hdf5(blk(0), fil, expandable=True)
            if keep:
                for k in range(1, n):
                    append_hdf5(blk(k), fil)
        if not keep:
            for k in range(1, n):
                with h5py.File(fn, "r+") as fil:
                    append_hdf5(blk(k), fil)
        r = read_hdf5(fn)
    X = np.asarray(r.X.reorder_dimensions("INDEX", "freq"))
    exact(X, x, "appended arrays")
    exact(r.P, p, "appended numbers")
    exact(np.asarray(r.ivardata["INDEX"].data), np.arange(n), "index of the saves")
    note.nontrivial()
