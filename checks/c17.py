"""C17: a block saved as HDF5 reads back the same."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp
import h5py
from hftools.file_formats import read_data, Comments
from hftools.file_formats.hdf5 import read_hdf5, save_hdf5

S = Suite("C17", rule="blocks of 0-5 variables (bool, integer, float, complex, text and date values of several widths; scalars to 5 dimensions, matrices) over "
          "shared sweep / repeat / matrix dimensions with integer, float, text or date coordinates, units, formats and names with spaces and slashes; saved as version "
          "0.2 or 0.1, by name or open handle, read by read_hdf5 or read_data; non-trivial: >= 2 variables, one of them with >= 2 values",
          assumptions=["version 0.1 does not claim text values, slashes in names or output formats", "version 0.2 does not store comments and block names"])

TYPES = ["f8", "f8", "c16", "i8", "bool", "U", "M8[us]", "f4", "c8", "i4", "u2", "M8[s]", "M8[ns]"]
NAMES = ["a", "S", "Id", "Vds 2", "x/y", "p.q", "beta", "z_1", "P(out)", "\xb5m", "u/v/w", "no", "a/b/c/d", "long name " * 5 + "1"]
UN2 = UNITS + ["\xb5A", "dB/m", "counts per second", "mS/mm"]


@st.composite
def block(draw):
    ver = draw(st.sampled_from(["0.2", "0.2", None, "0.1"]))
    old = ver == "0.1"
    dims = draw(dim_pool(maxdims=4, maxn=4, kinds="ift" if old else "ifst"))
    if draw(st.integers(0, 3)) == 0 and not old:
        dims[0] = dict(dims[0], n=draw(st.sampled_from(["d/1", "d/1/2/3"])))
    for d in dims:
        if d["c"] in "SR" and draw(st.integers(0, 7)) == 0:
            d["c"] = "P"
        if d["k"] in "if":
            d["u"] = draw(st.sampled_from(UN2))
    vs = []
    names = draw(st.lists(st.sampled_from([n for n in NAMES if not (old and "/" in n)]), min_size=1, max_size=5, unique=True))
    for nm in names:
        t = draw(st.sampled_from([t for t in TYPES if not (old and t == "U")]))
        k = draw(st.integers(0, min(5, len(dims))))
        idx = draw(st.permutations(range(len(dims))))[:k]
        vs.append(dict(n=nm, t=t, idx=idx, u=draw(st.sampled_from(UN2)), f=draw(st.sampled_from([None, None, "%.3e", "%.7f"])), seed=draw(st.integers(0, 99999))))
    return dict(ver=ver, dims=dims, vs=vs, extra=draw(st.booleans()), name=draw(st.sampled_from([None, "blk", "Foo 2", "noise", "none of it"])), handle=draw(st.booleans()),
                com=draw(st.lists(st.sampled_from(["Hej=10", "plain", "T=2.5 V", "\xe5\xe4\xf6: 1", "look out!", "50 % of it", "a long remark " * 9 + "end", "K=" + "v" * 130]), max_size=3)), rd=draw(st.booleans()))


def rawvals(t, shape, seed):
    r = np.random.RandomState(seed)
    n = int(np.prod(shape, dtype=int))
    if t == "bool":
        a = r.randint(0, 2, n).astype(bool)
    elif t[0] in "iu":
        a = r.randint(0 if t[0] == "u" else -30000, 30000, n).astype(t)
    elif t[0] in "f":
        a = (r.standard_normal(n) * 10.0 ** r.randint(-12, 12, n)).astype(t)
    elif t[0] == "c":
        a = (r.standard_normal(n) + 1j * r.standard_normal(n)).astype(t)
    elif t == "U":
        a = np.array([r.choice(["a", "Hej", "\xe5\xe4\xf6", "wafer 17", "2.5", ""]) + str(i) for i in range(n)])
    else:
        a = (r.randint(-10 ** 8, 10 ** 9, n) * (1 if t == "M8[s]" else 10 ** 6 if t == "M8[us]" else 10 ** 9)).astype(np.int64).astype(t)
    return a.reshape(shape)


def build(spec, seedadd=0):
    dims = [mkdim(d) for d in spec["dims"]]
    db = DataBlock()
    vals = {}
    for v in spec["vs"]:
        dd = tuple(dims[i] for i in v["idx"])
        a = rawvals(v["t"], tuple(len(d.data) for d in dd), v["seed"] + seedadd)
        fmt = v["f"] if v["t"][0] in "fc" else None
        x = hfarray(lay(a.copy()), dims=dd, unit=v["u"], outputformat=fmt)
        db[v["n"]] = x
        vals[v["n"]] = (a, dd, v["u"], x.outputformat)
    return db, vals, dims


@S.sub("roundtrip", block(), quick=400)
def roundtrip(spec, note):
    db, vals, dims = build(spec)
    used = {d.name for a, dd, u, f in vals.values() for d in dd}
    if spec["extra"]:
        for d in dims:
            if d.name not in used:
                db[d.name] = d
                used.add(d.name)
    db.blockname = spec["name"]
    if spec["com"]:
        db.comments = Comments(list(spec["com"]))
    kw = dict(version=spec["ver"]) if spec["ver"] else {}
    with Tmp() as d:
        fn = d + "/a.hdf5"
        if spec["handle"]:
            with h5py.File(fn, "w") as fil:
                save_hdf5(db, fil, **kw)
            with h5py.File(fn, "r") as fil:
                r = read_hdf5(fil)
        else:
            save_hdf5(db, fn, **kw)
            r = read_data(fn, verbose=False) if spec["rd"] and not spec["com"] else read_hdf5(fn)
        again = read_hdf5(fn)
    old = spec["ver"] == "0.1"
    bydim = {d.name: d for d in dims}
    for r in (r, again):
        check(set(r.vardata) == set(vals), "variables %r, saved %r", sorted(r.vardata), sorted(vals))
        check(set(r.ivardata) == used, "swept variables %r, saved %r", sorted(r.ivardata), sorted(used))
        for k, (a, dd, u, f) in vals.items():
            x = r[k]
            coherent(x, k)
            exact(x, a, k)
            if a.dtype.kind != "U":
                check(x.dtype == a.dtype, "%s: dtype %s, saved %s", k, x.dtype, a.dtype)
            check([q.name for q in x.dims] == [q.name for q in dd], "%s: dims %r, saved %r", k, x.dims, dd)
            check(x.unit == u, "%s: unit %r, saved %r", k, x.unit, u)
            if not old:
                check(x.outputformat == f, "%s: format %r, saved %r", k, x.outputformat, f)
            for q, w in zip(x.dims, dd):
                cmpdim(q, w, old)
        for k in r.ivardata:
            cmpdim(r.ivardata[k], bydim[k], old)
        if old:
            check(r.blockname == spec["name"], "block name %r, saved %r", r.blockname, spec["name"])
            check(list(r.comments.fullcomments) == list(spec["com"]), "comments %r, saved %r", r.comments.fullcomments, spec["com"])
    for k, (a, dd, u, f) in vals.items():
        exact(db[k], a, "saved block unchanged: " + k)
    note.hit("v" + (spec["ver"] or "default"), *["t:" + v["t"] for v in spec["vs"]])
    note.nontrivial(len(vals) > 1 and max(a.size for a, _, _, _ in vals.values()) > 1)


def cmpdim(q, w, old):
    check(type(q) is type(w) and q.name == w.name, "dim %r, saved %r", q, w)
    exact(np.asarray(q.data), np.asarray(w.data), "coordinates of " + w.name)
    check(np.asarray(q.data).dtype.kind == np.asarray(w.data).dtype.kind, "%s: coordinates %s, saved %s", w.name, np.asarray(q.data).dtype, np.asarray(w.data).dtype)
    check(q.unit == w.unit, "%s: unit %r, saved %r", w.name, q.unit, w.unit)
    if not old:
        check(q.outputformat == w.outputformat, "%s: format %r, saved %r", w.name, q.outputformat, w.outputformat)
