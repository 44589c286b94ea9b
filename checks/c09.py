"""C09: filtering and sorting a data block keep exactly the selected points, each with its own values."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import DataBlock
from hftools.core import HFToolsWarning
from hftools.dataset.comments import Comments

S = Suite("C09", rule="blocks with 1-5 variables (several dtypes, units, dim orders, some without the filtered dim), "
          "filtered by a boolean condition or by a set of coordinate values, or sorted by a dimension or variable, up to 300 points (some of 1001-12000); "
          "non-trivial: something but not everything is selected / the order really changes, and >= 2 variables are affected",
          assumptions=["variables share coordinates for dims of the same name", "condition arrays are one-dimensional"])


@st.composite
def block(draw, maxvars=5, maxn=5, kinds="ifs"):
    wide = draw(st.integers(0, 5)) == 0
    pool = draw(dim_pool(maxdims=6 if wide else 3, maxn=2 if wide else maxn, kinds=kinds))
    key = draw(st.sampled_from([d for d in pool if d["c"] in "SR"]))
    nv = draw(st.integers(1, maxvars))
    out = []
    for i in range(nv):
        dims = draw(subperm(pool, 0, 6 if wide else 3))
        if i == 0 and key not in dims:
            dims = draw(st.permutations(dims + [key]))
        dt = draw(st.sampled_from("fcis"))
        out.append(dict(n="v%d" % i, dims=dims, t=dt, u=draw(st.sampled_from(UNITS)), fmt=draw(st.sampled_from([None, "%.4f"]))))
    return dict(vars=out, key=key)


def val(v, i):
    sh = tuple(len(d["d"]) for d in v["dims"])
    n = int(np.prod(sh, dtype=int))
    a = np.arange(n) * 3 + 100 * i + 1
    a = {"f": a / 4.0, "c": a / 4.0 + 1j * a[::-1], "i": a, "s": np.array(["w%d" % q for q in a])}[v["t"]]
    return a.reshape(sh)


def build(spec):
    db = DataBlock()
    db.blockname = "blk"
    db.comments = Comments(["Gate: 4", "a remark"])
    for i, v in enumerate(spec["vars"]):
        db[v["n"]] = hfarray(lay(val(v, i)), dims=tuple(mkdim(d) for d in v["dims"]), unit=v["u"], outputformat=v["fmt"])
    return db


def verify(db, r, spec, idx, what):
    """r is db with the key dim restricted/reordered to positions idx"""
    key = spec["key"]
    kd = mkdim(key)
    newdim = kd.__class__(kd, data=[kd.data[i] for i in idx]) if len(idx) else None
    check(r.vardata.keys() == db.vardata.keys(), "%s: variables %r", what, r.vardata.keys())
    check(r.blockname == "blk", "%s: blockname", what)
    check(list(r.comments.fullcomments) == ["Gate: 4", "a remark"] and r.comments.property["Gate"] == 4, "%s: comments", what)
    for i, v in enumerate(spec["vars"]):
        a = r[v["n"]]
        w = val(v, i)
        names = [d["n"] for d in v["dims"]]
        if key["n"] in names:
            w = w.take(idx, axis=names.index(key["n"]))
        exact(a, w, "%s: %s" % (what, v["n"]))
        check([d.name for d in a.dims] == names, "%s: dims of %s are %r", what, v["n"], a.dims)
        coherent(a, what)
        for d, s in zip(a.dims, v["dims"]):
            if s["n"] != key["n"]:
                samedim(d, mkdim(s), what)
            elif len(idx):
                samedim(d, newdim, what)
                samedim(r.ivardata[s["n"]], newdim, what + " (block dimension)")
        check(a.unit == v["u"], "%s: unit of %s: %r", what, v["n"], a.unit)
        check(a.outputformat == db[v["n"]].outputformat, "%s: format of %s", what, v["n"])
        # the source is untouched
        exact(db[v["n"]], val(v, i), "%s: source %s" % (what, v["n"]))
        samedims(db[v["n"]].dims, [mkdim(d) for d in v["dims"]], what + " source")
    samedim(db.ivardata[key["n"]], kd, what + " source")


@st.composite
def filter_case(draw):
    b = draw(block())
    n = len(b["key"]["d"])
    b["mode"] = draw(st.sampled_from(["mask", "mask", "lt", "ge", "eq", "values"]))
    b["mask"] = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    b["k"] = draw(st.integers(0, n - 1))
    b["extra"] = draw(st.booleans())
    b["perm"] = draw(st.permutations(list(range(n))))
    b["m"] = draw(st.integers(1, n))
    return b


@S.sub("filter", filter_case(), quick=900, thorough=20000)
def t_filter(spec, note):
    db = build(spec)
    key = spec["key"]
    n = len(key["d"])
    mode = spec["mode"]
    kd = mkdim(key)
    if mode in ("lt", "ge") and key["k"] == "s":
        mode = "eq"
    thr = key["d"][spec["k"]]
    arr = db[key["n"]]
    if mode == "mask":
        cond = hfarray(np.array(spec["mask"]), dims=(kd,))
        idx = [i for i in range(n) if spec["mask"][i]]
    elif mode == "lt":
        cond = arr < thr
        idx = [i for i in range(n) if key["d"][i] < thr]
    elif mode == "ge":
        cond = arr >= thr
        idx = [i for i in range(n) if key["d"][i] >= thr]
    elif mode == "eq":
        cond = arr == thr
        idx = [i for i in range(n) if key["d"][i] == thr]
    else:
        # a set of coordinate values, any order, possibly with values not present
        vals = [key["d"][i] for i in spec["perm"][:spec["m"]]]
        idx = sorted(spec["perm"][:spec["m"]])
        if spec["extra"]:
            vals.append("nowhere" if key["k"] == "s" else 12345)
        if spec["k"] % 2:      # values named several times
            vals = vals + vals[::-1] + vals[:1] * 30
        cond = hfarray(kd.__class__(key["n"], vals))
    note.hit(mode)
    aff = sum(key["n"] in [d["n"] for d in v["dims"]] for v in spec["vars"])
    note.nontrivial(0 < len(idx) < n and aff > 1)
    if len(idx) == 0 and mode != "values":
        note.hit("empty selection")
    r = db.filter(cond)
    verify(db, r, spec, idx, "filter by %s" % mode)


@S.sub("filter_long", st.tuples(st.integers(40, 400), st.integers(1, 17), st.integers(0, 9), st.sampled_from(["mask", "values", "sort"])).map(list), quick=30, thorough=500)
def t_filter_long(spec, note):
    """the same for long sweeps"""
    n, step, off, mode = spec
    d = DimSweep("freq", [(i * 7919) % 10007 for i in range(n)], unit="Hz", outputformat="%d")
    v = np.arange(n * 2).reshape(n, 2) * 1.5
    db = DataBlock()
    db["v"] = hfarray(v, dims=(d, CLS["R"]("rep", 2)))
    idx = list(range(off, n, step))
    if mode == "mask":
        r = db.filter(hfarray(np.isin(np.arange(n), idx), dims=(d,)))
    elif mode == "values":
        r = db.filter(hfarray(DimSweep("freq", d.data[idx][::-1])))
    else:
        r = db.sort(db["freq"])
        idx = np.argsort(d.data).tolist()
    note.nontrivial()
    exact(r["v"], v[idx], mode)
    samedim(r["v"].dims[0], DimSweep(d, data=d.data[idx]), mode)
    samedim(r.ivardata["freq"], DimSweep(d, data=d.data[idx]), mode)


@S.sub("filter_all", block(), quick=200, thorough=3000)
def t_filter_all(spec, note):
    """selecting everything changes nothing; selecting twice is the same as selecting once"""
    db = build(spec)
    n = len(spec["key"]["d"])
    kd = mkdim(spec["key"])
    note.nontrivial(n > 1)
    r = db.filter(hfarray(np.ones(n, bool), dims=(kd,)))
    verify(db, r, spec, list(range(n)), "filter by all")
    r2 = db.filter(hfarray(np.arange(n) % 2 == 0, dims=(kd,)))
    k2 = r2.ivardata[spec["key"]["n"]]
    verify(db, r2.filter(hfarray(np.ones(len(k2.data), bool), dims=(k2,))), spec, list(range(0, n, 2)), "twice")
    # more than one dimension is rejected
    two = hfarray(np.ones((2, 2), bool), dims=(CLS["S"]("p", 2), CLS["S"]("q", 2)))
    check(raises(lambda: db.filter(two), ValueError) is not None, "two-dimensional condition accepted")
    check(raises(lambda: db.sort(two), ValueError) is not None, "two-dimensional sort key accepted")


@st.composite
def sort_case(draw):
    b = draw(block())
    n = len(b["key"]["d"])
    b["by"] = draw(st.sampled_from(["dim", "dimobj", "var"]))
    b["keyvals"] = draw(st.permutations(list(range(n))))
    b["kt"] = draw(st.sampled_from("fi"))
    return b


@S.sub("sort", sort_case(), quick=700, thorough=15000)
def t_sort(spec, note):
    db = build(spec)
    key = spec["key"]
    n = len(key["d"])
    kd = mkdim(key)
    if spec["by"] == "var":
        vals = [float(x) - 1.5 if spec["kt"] == "f" else x for x in spec["keyvals"]]
        arg = hfarray(vals, dims=(kd,))
    else:
        vals = key["d"]
        arg = db[key["n"]] if spec["by"] == "dim" else db.ivardata[key["n"]]
    idx = sorted(range(n), key=lambda i: vals[i])
    aff = sum(key["n"] in [d["n"] for d in v["dims"]] for v in spec["vars"])
    note.hit(spec["by"])
    note.nontrivial(idx != list(range(n)) and aff > 1)
    r = db.sort(arg)
    verify(db, r, spec, idx, "sort by %s" % spec["by"])


@st.composite
def tie_case(draw):
    n = draw(st.integers(2, 12))
    return dict(keys=draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), vals=draw(st.permutations(list(range(n)))))


@S.sub("sort_ties", tie_case(), quick=200, thorough=3000)
def t_ties(spec, note):
    """with equal keys the points are still a permutation and rows stay together"""
    n = len(spec["keys"])
    note.nontrivial(len(set(spec["keys"])) < n)
    db = DataBlock()
    f = CLS["S"]("freq", [10.0 * x for x in spec["vals"]])
    db["a"] = hfarray(np.array(spec["keys"]), dims=(f,))
    db["b"] = hfarray(np.array([[x, x + 100] for x in spec["vals"]]), dims=(f, CLS["S"]("p", 2)))
    db["c"] = hfarray(np.array([[x, x + 200] for x in spec["vals"]]).T, dims=(CLS["S"]("p", 2), f))
    r = db.sort(db["a"])
    k = np.asarray(r["a"])
    check(list(k) == sorted(spec["keys"]), "keys %r", k)
    fr = np.asarray(r["freq"])
    check(sorted(fr) == sorted(f.data), "points lost")
    ident = np.asarray(r["b"])[:, 0]
    check(bool(np.all(ident * 10.0 == fr)), "coordinates and values separated")
    exact(np.asarray(r["b"])[:, 1], ident + 100)
    exact(np.asarray(r["c"]), np.array([ident, ident + 200]))
    exact(np.array([spec["keys"][spec["vals"].index(x)] for x in ident]), k, "key belongs to its row")


@S.sub("filter_repeated", st.tuples(st.lists(st.integers(0, 40), min_size=2, max_size=60), st.lists(st.integers(-3, 43), min_size=1, max_size=40),
                                     st.sampled_from([1, 0.25, 1e9])).map(list), quick=150, thorough=2000)
def t_filter_repeated(spec, note):
    """coordinates that occur several times, long lists of wanted values"""
    sc = spec[2]
    x, want = [k * sc for k in spec[0]], [k * sc for k in spec[1]]
    f = CLS["S"]("freq", x, unit="Hz")
    db = DataBlock()
    db["v"] = hfarray(np.arange(2 * len(x)).reshape(2, -1), dims=(CLS["R"]("rep", 2), f))
    r = db.filter(hfarray(CLS["S"]("freq", want)))
    idx = [i for i, q in enumerate(x) if q in want]
    note.nontrivial(len(set(x)) < len(x) and 0 < len(idx) < len(x))
    if idx:
        exact(r["v"], np.asarray(db["v"])[:, idx])
        exact(r["freq"], np.array(x)[idx])


@S.sub("sort_unused", st.tuples(npts(1, 5), st.integers(0, 10 ** 6)).map(list), quick=60, thorough=500)
def sort_unused(arg, note):
    """sorting along a dimension no variable uses sorts the dimension and leaves the variables alone"""
    n, seed = arg
    rng = np.random.RandomState(seed)
    x = rng.permutation(n) * 1.5
    db = DataBlock()
    db["v"] = hfarray([1., 2.], dims=(CLS["S"]("freq", [5., 4.]),))
    db["zz"] = CLS["S"]("zz", x, unit="s")
    r = db.sort(db["zz"])
    exact(r["v"], [1., 2.])
    samedim(r.ivardata["zz"], CLS["S"]("zz", np.sort(x), unit="s"))
    samedim(db.ivardata["zz"], CLS["S"]("zz", x, unit="s"))
    note.nontrivial(n > 1)


@S.sub("many_points", st.tuples(st.one_of(st.sampled_from([1001, 1601, 10001]), st.integers(1001, 12000)), st.integers(0, 10 ** 6), st.sampled_from(["sort", "sortvar", "mask", "values"])).map(list), quick=60, thorough=1000)
def many_points(arg, note):
    """sweeps as long as those of a network analyser"""
    n, seed, how = arg
    rng = np.random.RandomState(seed)
    x = rng.permutation(n) * 1e6
    v = rng.randint(-10 ** 6, 10 ** 6, n)
    key = rng.permutation(n)
    f = CLS["S"]("freq", x)
    db = DataBlock()
    db["v"] = hfarray(v, dims=(f,))
    db["M"] = hfarray(np.stack([v, v + 1], 1), dims=(f, CLS["R"]("rep", 2)))
    if how == "sort":
        idx, r = np.argsort(x, kind="stable"), db.sort(db["freq"])
    elif how == "sortvar":
        idx, r = np.argsort(key, kind="stable"), db.sort(hfarray(key, dims=(f,)))
    elif how == "mask":
        idx, r = np.flatnonzero(v > 0), db.filter(db["v"] > 0)
    else:
        pick = set(rng.choice(n, 500, replace=False).tolist())
        idx = np.array([i for i in range(n) if i in pick])
        r = db.filter(hfarray(CLS["S"]("freq", x[rng.permutation(idx)])))
    exact(r["v"], v[idx], how)
    exact(r["M"], np.stack([v, v + 1], 1)[idx], how)
    exact(r["freq"], x[idx], how)
    note.hit(how)
    note.nontrivial()
