"""C10: restructuring a data block (hyper, remove_rep, squeeze, interpolate) keeps values at their coordinates."""
import itertools
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset.comments import Comments
from hftools.dataset import DataBlock, DimSweep, DimRep
from hftools.dataset.dataset import interpolate

S = Suite("C10", rule="blocks whose points form a full grid listed in arbitrary order (hyper), blocks with 1-3 rep dims in any "
          "position and order (remove_rep), blocks with length-1 dims (squeeze), and requests for existing or intermediate "
          "coordinates in any order along any axis (interpolate); non-trivial: >= 2 points actually move",
          assumptions=["hyper: every combination occurs exactly once", "remove_rep: a variable has all rep dims or none",
                       "linear interpolation: the request lies inside the range of the coordinates"])


def comment(db):
    db.comments = Comments(["Gate: 4", "a remark"])


def commented(r):
    check(r.comments is not None and list(r.comments.fullcomments) == ["Gate: 4", "a remark"] and r.comments.property["Gate"] == 4, "the comments are lost")


@st.composite
def hyper_case(draw):
    k = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    names = draw(st.lists(st.sampled_from(["Vds", "Vgs", "Pin", "T"]), min_size=k, max_size=k, unique=True))
    coords = [draw(dim_data(draw(st.sampled_from([2, 3, 1])), draw(st.sampled_from("ifs")))) for _ in names]
    big = draw(large_size())
    if big:
        coords[0] = draw(dim_data(big, "f"))
        coords[1:] = [c[:2] for c in coords[1:]]
    n = int(np.prod([len(c) for c in coords]))
    order = draw(perm(n))
    extra = draw(st.sampled_from([[], ["freq"], ["freq", "rep"]]))
    pos = draw(st.integers(0, len(extra)))
    return dict(names=names, coords=coords, order=order, extra=extra, pos=pos, cls=draw(st.sampled_from("SR")),
                byname=draw(st.booleans()), indexed=draw(st.booleans()), all=draw(st.booleans()), u=draw(st.sampled_from(UNITS)),
                f=draw(st.sampled_from([None, "%.3f", "%5s"])))


@S.sub("hyper", hyper_case(), quick=800, thorough=10000)
def t_hyper(spec, note):
    names, coords = spec["names"], spec["coords"]
    combos = list(itertools.product(*[range(len(c)) for c in coords]))
    combos = [combos[i] for i in spec["order"]]
    n = len(combos)
    point = CLS[spec["cls"]]("point", n)
    db = DataBlock()
    db.blockname = "blk"
    for i, nm in enumerate(names):
        db[nm] = hfarray(np.array([coords[i][c[i]] for c in combos]), dims=(point,), unit=spec["u"], outputformat=spec.get("f"))
    ex = [DimSweep("freq", [1e9, 2e9]) if e == "freq" else DimRep("rep", 3) for e in spec["extra"]]
    dims = list(ex)
    dims.insert(spec["pos"], point)
    sh = tuple(len(d.data) for d in dims)
    v = (np.arange(int(np.prod(sh))) * 1.5 + 1j).reshape(sh)
    db["v"] = hfarray(lay(v), dims=tuple(dims), unit="W", outputformat="%.2f")
    db["w"] = hfarray(np.arange(n), dims=(point,))
    db["fixed"] = hfarray([5.0, 6.0], dims=(DimSweep("other", 2),))
    db["const"] = hfarray(3.25)
    # dims no variable has, also with names that are part of another name
    for nm in ("po", "nt", "point2", "i"):
        db[nm] = DimSweep(nm, [1., 4.], unit="s")
    comment(db)
    r = db.hyper(names, "point" if spec["byname"] else point, indexed=spec["indexed"], all=spec["all"])
    newnames = [nm + "_index" if spec["indexed"] else nm for nm in names]
    note.nontrivial(n > 1 and spec["order"] != sorted(spec["order"]))
    commented(r)
    check("point" not in r.ivardata, "replaced dimension still there")
    check(r.blockname == "blk", "blockname")
    for nm, q, c in zip(names, newnames, coords):
        d = r.ivardata[q]
        check(sorted(map(str, d.data.tolist())) == sorted(map(str, c)), "coordinates of %s: %r", q, d.data)
        check(d.unit == spec["u"] and d.outputformat == db[nm].outputformat, "unit or format of %s", q)
    for nm in ("po", "nt", "point2", "i"):
        check(nm in r.ivardata, "unused dimension %s is lost", nm)
        samedim(r.ivardata[nm], DimSweep(nm, [1., 4.], unit="s"))
    pos = [{x: k for k, x in enumerate(r.ivardata[q].data.tolist())} for q in newnames]
    where = [tuple(pos[i][coords[i][c[i]]] for i in range(len(names))) for c in combos]
    R = r["v"]
    want = [d.name for d in dims]
    want[spec["pos"]:spec["pos"] + 1] = newnames
    check([d.name for d in R.dims] == want, "dims of v: %r, expected %r", R.dims, want)
    coherent(R)
    check(R.unit == "W" and R.outputformat == "%.2f", "unit/format of v")
    for k, wh in enumerate(where):
        pre = (slice(None),) * spec["pos"]
        exact(np.asarray(R)[pre + wh], v[pre + (k,)], "point %d of v" % k)
        exact(np.asarray(r["w"])[wh], k, "point %d of w" % k)
        if spec["indexed"]:
            for i, nm in enumerate(names):
                check(np.asarray(r[nm])[wh].item() == coords[i][combos[k][i]], "value of %s at point %d", nm, k)
    check(("fixed" in r.vardata) == ("const" in r.vardata) == spec["all"], "variable without the dimension")
    if spec["all"]:
        exact(r["fixed"], [5.0, 6.0])
        exact(r["const"], 3.25)
    exact(db["v"], v, "source")
    samedims(db["v"].dims, dims, "source")


@st.composite
def rep_case(draw):
    reps = draw(st.lists(st.sampled_from(["rep", "run", "wafer"]), unique=True, min_size=1, max_size=3))
    rd = [draw(dim_spec(n, "R", kinds="ifs", maxn=3)) for n in reps]
    sd = [draw(dim_spec(n, "S", kinds="if", maxn=3)) for n in ["freq", "vd"][:draw(st.integers(0, 2))]]
    rd = draw(enlarge(rd, 70))
    vs = [list(draw(st.permutations(rd + draw(subperm(sd))))) for _ in range(draw(st.integers(1, 3)))]
    return dict(rd=rd, sd=sd, vars=vs)


@S.sub("remove_rep", rep_case(), quick=400, thorough=8000)
def t_remove_rep(spec, note):
    """every value stays with the coordinates it was measured at"""
    db = DataBlock()
    for i, dims in enumerate(spec["vars"]):
        v = (np.arange(nval(dims)) * 2.0 + i * 1000).reshape(tuple(len(d["d"]) for d in dims))
        db["v%d" % i] = hfarray(lay(v), dims=tuple(mkdim(d) for d in dims), unit="V")
    if spec["sd"]:
        db["plain"] = hfarray(np.arange(len(spec["sd"][0]["d"])), dims=(mkdim(spec["sd"][0]),))
    comment(db)
    r = db.remove_rep("All")
    commented(r)
    n = nval(spec["rd"])
    note.nontrivial(len(spec["rd"]) > 1 and n > 1)
    check(len(r.ivardata["All"].data) == n, "collapsed dimension has %d points", len(r.ivardata["All"].data))
    for d in spec["rd"]:
        check(d["n"] not in r.ivardata, "rep dimension kept")
        a = r[d["n"]]
        check([x.name for x in a.dims] == ["All"], "coordinate variable dims")
        check(a.unit == d["u"], "unit of the coordinates of %s", d["n"])
        check(a.outputformat == mkdim(d).outputformat, "format of the coordinates of %s", d["n"])
    combos = list(zip(*[np.asarray(r[d["n"]]).tolist() for d in spec["rd"]]))
    check(len(set(combos)) == n, "coordinate combinations are not distinct")
    for i, dims in enumerate(spec["vars"]):
        a, s = r["v%d" % i], db["v%d" % i]
        coherent(a)
        check(a.unit == "V", "unit")
        other = [d["n"] for d in dims if d["c"] != "R"]
        check(sorted(x.name for x in a.dims) == sorted(other + ["All"]), "dims %r", a.dims)
        an = [x.name for x in a.dims]
        sn = [d["n"] for d in dims]
        A = np.moveaxis(np.asarray(a), an.index("All"), 0)
        an = [x for x in an if x != "All"]
        for t, combo in enumerate(combos):
            idx = [slice(None)] * len(sn)
            for d, c in zip(spec["rd"], combo):
                idx[sn.index(d["n"])] = d["d"].index(c)
            w = np.asarray(s)[tuple(idx)]
            w = np.transpose(w, [other.index(x) for x in an]) if other else w
            exact(A[t], w, "v%d at %r" % (i, combo))
    if spec["sd"]:
        exact(r["plain"], np.asarray(db["plain"]))


@st.composite
def sq_case(draw):
    pool = draw(dim_pool(maxdims=4, maxn=2, kinds="ifs", matrix=False))
    return dict(vars=[draw(subperm(pool, 0, 4)) for _ in range(draw(st.integers(1, 3)))])


@S.sub("squeeze", sq_case(), quick=200, thorough=3000)
def t_squeeze(spec, note):
    db = DataBlock()
    for i, dims in enumerate(spec["vars"]):
        db["v%d" % i] = hfarray((np.arange(nval(dims)) + i).reshape([len(d["d"]) for d in dims]), dims=tuple(mkdim(d) for d in dims), unit="V")
    comment(db)
    r = db.squeeze()
    commented(r)
    note.nontrivial(any(len(d["d"]) == 1 for v in spec["vars"] for d in v))
    for i, dims in enumerate(spec["vars"]):
        a = r["v%d" % i]
        keep = [d for d in dims if len(d["d"]) > 1]
        samedims(a.dims, [mkdim(d) for d in keep])
        exact(a, np.asarray(db["v%d" % i]).reshape([len(d["d"]) for d in keep]))
        check(a.unit == "V", "unit")
    for k, d in db.ivardata.items():
        samedim(r.ivardata[k], d, "coordinates survive in the block")


@st.composite
def interp_case(draw):
    pool = draw(dim_pool(maxdims=3, maxn=3, kinds="if", matrix=False, names=["vd", "vg", "Power"]))
    n = draw(npts(2, 6))
    steps = draw(st.lists(st.integers(1, 8), min_size=n, max_size=n)) if n < 20 else [1 + i * i % 7 for i in range(n)]
    x0 = draw(st.integers(-10, 10))
    xs = list(itertools.accumulate([x0] + steps[1:]))
    dims = [d for d in draw(subperm(pool, 0, 2))]
    pos = draw(st.integers(0, len(dims)))
    mode = draw(st.sampled_from(["none", None, "linear"]))
    if mode == "linear":
        q = draw(st.lists(st.tuples(st.integers(0, n - 2), st.integers(0, 4)), min_size=1, max_size=6))
        new = [xs[i] + (xs[i + 1] - xs[i]) * f / 4.0 for i, f in q]
    else:
        new = draw(st.lists(st.sampled_from(xs), min_size=1, max_size=min(n, 20), unique=True)) if draw(st.integers(0, 3)) else [xs[i] for i in draw(perm(n))]
    return dict(xs=[float(x) for x in xs], new=[float(x) for x in new], dims=dims, pos=pos, mode=mode, cplx=draw(st.booleans()),
                how=draw(st.sampled_from(["dim", "array", "block"])), bad=draw(st.booleans()), near=draw(st.integers(0, 3)),
                perm=draw(perm(n)) if draw(st.booleans()) else None, scale=draw(st.sampled_from([1., 1., 1e9, 1e-12])))


@S.sub("interpolate", interp_case(), quick=500, thorough=10000)
def t_interp(spec, note):
    sc = spec["scale"]
    xs, new, pos = [x * sc for x in spec["xs"]], [x * sc for x in spec["new"]], spec["pos"]
    order = spec["perm"] or list(range(len(xs)))
    f = DimSweep("freq", [xs[i] for i in order], unit="Hz")
    dims = [mkdim(d) for d in spec["dims"]]
    dims.insert(pos, f)
    sh = tuple(len(d.data) for d in dims)
    v = np.sin(np.arange(int(np.prod(sh))) * 1.7).reshape(sh)
    if spec["cplx"]:
        v = v + 1j * np.cos(np.arange(v.size) * 0.9).reshape(sh)
    a = hfarray(lay(v), dims=tuple(dims), unit="V", outputformat="%.3f")
    nd = DimSweep("freq", new, unit="Hz")
    note.hit("mode %s" % spec["mode"], spec["how"])
    note.nontrivial(len(new) > 1 and (pos > 0 or new != sorted(new)))
    if spec["how"] == "block":
        db = DataBlock()
        db["v"] = a
        db["other"] = hfarray([1.0, 2.0], dims=(DimSweep("zz", 2),))
        comment(db)
        out = db.interpolate(nd, spec["mode"])
        commented(out)
        exact(out["other"], [1.0, 2.0])
        r = out["v"]
        exact(out["freq"], new)
    else:
        r = interpolate(nd if spec["how"] == "dim" else hfarray(nd), a, spec["mode"])
    coherent(r)
    check(r.unit == "V" and r.outputformat == "%.3f", "unit/format")
    samedims(r.dims, dims[:pos] + [nd] + dims[pos + 1:])
    V = np.moveaxis(v, pos, 0)
    V = [V[order.index(i)] for i in range(len(xs))]
    R = np.moveaxis(np.asarray(r), pos, 0)
    for k, x in enumerate(new):
        i = max(j for j in range(len(xs)) if xs[j] <= x) if x >= xs[0] else 0
        if xs[i] == x or i == len(xs) - 1:
            w = V[i]
        else:
            t = (x - xs[i]) / (xs[i + 1] - xs[i])
            w = V[i] * (1 - t) + V[i + 1] * t
        if spec["mode"] == "linear":
            same(R[k], w, rtol=1e-9, atol=1e-9)
        else:
            exact(R[k], w, "value at x=%r" % x)
    # a coordinate that does not exist is refused, never invented
    if spec["mode"] != "linear" and spec["bad"]:
        off = [max(xs) + 0.5 * sc, min(xs) - sc, (xs[0] or sc) * (1 + 1e-9) if xs[0] else sc * 1e-9, (xs[0] + xs[1]) / 2][spec["near"]]
        bad = DimSweep("freq", new + [off] if spec["near"] % 2 else [off] + new, unit="Hz")
        check(raises(lambda: interpolate(bad, a, spec["mode"]), ValueError) is not None, "missing x-value accepted")
    if spec["mode"] == "linear" and spec["bad"]:
        off = [max(xs) + 0.5 * sc, min(xs) - sc, max(xs) + 1e3 * sc, min(xs) - 0.01 * sc][spec["near"]]
        bad = DimSweep("freq", new + [off] if spec["near"] % 2 else [off] + new, unit="Hz")
        check(raises(lambda: interpolate(bad, a, spec["mode"]), ValueError) is not None, "value beyond the range made up")
    exact(a, v, "source")
