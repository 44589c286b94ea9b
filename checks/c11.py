"""C11: matrix variables can be read and written element by element (S11, S21, ...)."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import DataBlock, DimSweep
from hftools.dataset.dataset import (convert_matrices_to_elements, yield_dim_consistent_datablocks, subset_datablock_by_dims)

S = Suite("C11", rule="blocks with matrix variables (1-9 ports, 0-2 sweep dims, names with letters, digits and underscores) and "
          "scalar variables whose names end in digits; histories of element reads and writes against a plain array model; "
          "non-trivial: an element other than (1,1) is written, or a look-alike name is used",
          assumptions=["matrix dims come last (hftools convention)", "element values have the matrix' sweep dims in order"])

MN = ["S", "Z", "Cov", "S_raw", "T2x", "_h"]


@st.composite
def case(draw):
    nm = draw(st.sampled_from(MN))
    ni, nj = draw(st.sampled_from([(2, 2), (3, 3), (1, 1), (2, 3), (9, 9), (4, 4)]))
    nsweep = draw(st.integers(0, 2))
    sh = [draw(st.integers(1, 3)) for _ in range(nsweep)]
    ops = draw(st.lists(st.tuples(st.sampled_from(["set", "setattr", "get", "near", "scalar"]), st.integers(1, ni), st.integers(1, nj), st.integers(0, 50)),
                        min_size=1, max_size=8))
    return dict(nm=nm, ni=ni, nj=nj, sh=sh, ops=[list(o) for o in ops], suffix=draw(st.sampled_from(["_corr", "dB", "1", "x", "_1", "0"])))


def mkblock(spec):
    dims = tuple(DimSweep("x%d" % i, [float(q) for q in range(n)]) for i, n in enumerate(spec["sh"]))
    sh = tuple(spec["sh"]) + (spec["ni"], spec["nj"])
    v = (np.arange(int(np.prod(sh))) * (1 - 0.5j) + 1).reshape(sh)
    db = DataBlock()
    db[spec["nm"]] = hfarray(lay(v), dims=dims + (CLS["I"]("i", spec["ni"]), CLS["J"]("j", spec["nj"])), unit="V")
    return db, v.copy(), dims


@S.sub("elements", case(), quick=600, thorough=12000)
def elements(spec, note):
    db, v, dims = mkblock(spec)
    nm = spec["nm"]
    extra = {}
    for op, i, j, k in spec["ops"]:
        key = "%s%d%d" % (nm, i, j)
        note.hit(op)
        if op in ("set", "setattr"):
            new = (np.arange(int(np.prod(spec["sh"], dtype=int))) * 3 + k * 1j + 100).reshape(spec["sh"])
            arr = hfarray(lay(new), dims=dims)
            if op == "set":
                db[key] = arr
            else:
                setattr(db, key, arr)
            v[..., i - 1, j - 1] = new
            note.nontrivial((i, j) != (1, 1))
            check(key not in db.vardata, "element %s became a variable of its own", key)
        elif op == "near":
            # a name that merely starts like an element is a variable of its own
            q = key + spec["suffix"]
            val = hfarray(np.full(spec["sh"], 7.5 + k), dims=dims)
            db[q] = val
            extra[q] = np.asarray(val)
            note.nontrivial()
        elif op == "scalar":
            q = "Par%d%d" % (i, j)
            db[q] = hfarray(float(k))
            extra[q] = np.array(float(k))
        exact(db[nm], v, "%s after %s %s" % (nm, op, key))
        e = db[key]
        exact(e, v[..., i - 1, j - 1], "element %s" % key)
        exact(getattr(db, key), v[..., i - 1, j - 1])
        samedims(e.dims, dims, "dims of element %s" % key)
        check(e.unit == "V", "unit of the element")
        for q, w in extra.items():
            check(q in db.vardata, "%s is not a variable", q)
            exact(db[q], w, q)
    check(list(db.vardata.keys()) == [nm] + list(extra), "variables %r", db.vardata.keys())
    for bad in ("%s00" % nm, "%s10" % nm, "Nope11", nm + "11" + "zzz", nm + "1"):
        check(raises(lambda: db[bad], KeyError) is not None, "db[%r] gave a value", bad)
    if spec["ni"] < 9:
        check(raises(lambda: db["%s%d1" % (nm, spec["ni"] + 1)], KeyError, IndexError) is not None, "element outside the matrix")


@S.sub("to_elements", case(), quick=250, thorough=4000)
def to_elements(spec, note):
    """splitting into elements loses nothing and keeps everything else"""
    db, v, dims = mkblock(spec)
    db.blockname = "b"
    db["Id"] = hfarray(np.zeros(spec["sh"]) + 2, dims=dims)
    r = convert_matrices_to_elements(db)
    note.nontrivial(spec["ni"] > 1)
    names = ["%s%d%d" % (spec["nm"], i + 1, j + 1) for i in range(spec["ni"]) for j in range(spec["nj"])]
    check(list(r.vardata.keys()) == names + ["Id"], "variables %r", r.vardata.keys())
    for i in range(spec["ni"]):
        for j in range(spec["nj"]):
            a = r["%s%d%d" % (spec["nm"], i + 1, j + 1)]
            exact(a, v[..., i, j])
            samedims(a.dims, dims)
            check(a.unit == "V", "unit")
    exact(r["Id"], np.zeros(spec["sh"]) + 2)
    check(r.blockname == "b", "blockname")
    r2 = convert_matrices_to_elements(db, lambda n, i, j: "%s(%d,%d)" % (n, j, i))
    exact(r2["%s(%d,%d)" % (spec["nm"], spec["nj"], 1)], v[..., 0, spec["nj"] - 1])


@st.composite
def part_case(draw):
    pool = draw(dim_pool(maxdims=4, maxn=3, kinds="if", matrix=False))
    return dict(vars=[draw(subperm(pool, 0, 3)) for _ in range(draw(st.integers(1, 6)))])


@S.sub("partition", part_case(), quick=300, thorough=5000)
def partition(spec, note):
    """splitting by dimensions: nothing is lost, parts are consistent"""
    db = DataBlock()
    for i, dims in enumerate(spec["vars"]):
        db["v%d" % i] = hfarray((np.arange(nval(dims)) + 100.0 * i).reshape([len(d["d"]) for d in dims]), dims=tuple(mkdim(d) for d in dims), unit="A")
    seen = set()
    count = 0
    for dims, part in yield_dim_consistent_datablocks(db):
        count += 1
        check(count <= len(spec["vars"]), "too many parts")
        names = [d.name for d in dims]
        for n, a in part.vardata.items():
            mine = sorted(d.name for d in a.dims)
            check(mine in (sorted(names), sorted(names[1:])), "%s with dims %r in the part for %r", n, mine, names)
            exact(a, np.asarray(db[n]))
            samedims(a.dims, db[n].dims)
            check(a.unit == "A", "unit")
            seen.add(n)
        # every variable over exactly these dims is there
        for n, a in db.vardata.items():
            if set(a.dims) in (set(dims), set(dims[1:])):
                check(n in part.vardata, "%s missing from the part for %r", n, names)
        sub = subset_datablock_by_dims(db, dims)
        check(sub.vardata.keys() == part.vardata.keys(), "subset_datablock_by_dims")
    note.nontrivial(count > 1)
    check(seen == set(db.vardata.keys()), "variables %r are in no part", set(db.vardata.keys()) - seen)
    if db.ivardata:
        d = list(db.ivardata.values())[0]
        check(raises(lambda: subset_datablock_by_dims(db, (d, d)), ValueError) is not None, "repeated dims accepted")


@S.sub("digit_names", st.tuples(case(), st.sampled_from(["S1", "Z2", "Y_12", "S21", "m9x3"])).map(list), quick=150)
def digit_names(arg, note):
    """matrices whose own name ends in a digit: element-like names next to them stay variables of their own"""
    spec, nm = arg
    db, v, dims = mkblock(dict(spec, nm=nm))
    extra = {}
    for op, i, j, k in spec["ops"]:
        q = "%s%d%d" % (nm, i, j)
        val = np.full(spec["sh"], 7.5 + k)
        db[q] = hfarray(val.copy(), dims=dims)
        extra[q] = val
        exact(db[nm], v, "%s after setting %s" % (nm, q))
        for q, w in extra.items():
            check(q in db.vardata, "%s is not a variable", q)
            exact(db[q], w, q)
    check(list(db.vardata.keys()) == [nm] + list(extra), "variables %r", db.vardata.keys())
    note.nontrivial(len(extra) > 1)


@S.sub("own_variable", st.tuples(case(), st.sampled_from(["first", "plain", "dim"])).map(list), quick=200)
def own_variable(arg, note):
    """an element-like name is an element only where reading it gives one: not next to a variable without matrix dims, nor if there is a variable or dimension of that name"""
    spec, how = arg
    nm = spec["nm"]
    note.nontrivial()
    note.hit(how)
    if how == "plain":
        dims = tuple(DimSweep("x%d" % i, [float(q) for q in range(n)]) for i, n in enumerate(spec["sh"] + [spec["ni"], spec["nj"]]))
        db = DataBlock()
        v = np.arange(nval([dict(d=d.data) for d in dims]), dtype=complex).reshape([len(d.data) for d in dims])
        db[nm] = hfarray(v.copy(), dims=dims, unit="V")
        extra = {}
        for op, i, j, k in spec["ops"]:
            q = "%s%d%d" % (nm, i, j)
            if op in ("set", "setattr"):
                a = hfarray(k + np.arange(float(len(dims[0].data))), dims=dims[:1]) if k % 2 else hfarray(float(k))
                extra[q] = np.array(a)
                db[q] = a
            elif q not in extra:
                check(raises(lambda: db[q], KeyError) is not None, "db[%r] gave a value, %s is not a matrix", q, nm)
            exact(db[nm], v, "%s, which is not a matrix, after setting %s" % (nm, q))
            for w in extra:
                exact(db[w], extra[w], w)
        check(list(db.vardata.keys()) == [nm] + list(extra), "variables %r", db.vardata.keys())
        return
    _, i, j, k = spec["ops"][0]
    q = "%s%d%d" % (nm, i, j)
    db, v, dims = mkblock(spec)
    m = db[nm]
    db = DataBlock()
    if how == "dim":
        db[q] = DimSweep(q, [1., 2.])
        db[nm] = m
        exact(db[q], [1., 2.], "dimension %s" % q)
        db[q] = hfarray([3., 4.], dims=(DimSweep(q, 2),))
        exact(db[q], [3., 4.], "dimension %s after giving it new coordinates" % q)
        exact(db[nm], v, nm)
        return
    db[q] = hfarray(np.full(spec["sh"], 1.), dims=dims)
    db[nm] = m
    for op, a, b, k in spec["ops"]:
        w = "%s%d%d" % (nm, a, b)
        new = np.full(spec["sh"], 2. + k)
        db[w] = hfarray(new.copy(), dims=dims)
        exact(db[w], new, "%s after setting it" % w)
        if w != q:
            v[..., a - 1, b - 1] = new
        exact(db[nm], v, "%s after setting %s" % (nm, w))
    check(list(db.vardata.keys()) == [q, nm], "variables %r", db.vardata.keys())
