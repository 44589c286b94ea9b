"""C38: blocks derived from one another keep their own labels: relabelling one never shows in the others."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import DataBlock, DimSweep, DimRep, DiagAxis, DimMatrix_i, DimMatrix_j
from hftools.dataset.dataset import change_dim, convert_matrices_to_elements, subset_datablock_by_dims, yield_dim_consistent_datablocks
from hftools.dataset.comments import Comments
from hftools.networks.multiports import SArray

S = Suite("C38", rule="a block of 2-7 variables (arrays of any type over 0-3 shared dims, a matrix, S-parameters with a reference impedance) and histories of 2-12 steps: derive a block "
          "from any block at hand (copy, view, filter, sort, squeeze, keep_variables, hyper, interpolate, remove_rep, convert_matrices_to_elements, subsets by dims) or relabel one "
          "(rename or replace dimensions, units, output formats, unit guessing, add, rename, delete variables, block name); non-trivial: >= 1 relabelling while >= 2 blocks exist",
          assumptions=["variables share coordinates for dims of the same name", "matrix dims keep the names i and j"])

DERIVE = ["copy", "view", "filterall", "filter", "filterby", "filterno", "sort", "sortno", "squeeze", "keep", "hyper", "interp", "interpno", "rmrep", "elements", "subset", "yield"]
EDIT = ["rend", "renall", "renv", "unit", "units", "fmt1", "fmtd", "fmt", "cls", "repl", "guess", "del", "add", "name"]


@st.composite
def case(draw):
    dims = [draw(dim_spec(n, c, kinds="if", maxn=4)) for n, c in (("freq", "S"), ("Pin", "S"), ("rep", "R"))]
    dims = draw(enlarge(dims, 60, 15))
    vs = []
    for i in range(draw(st.integers(1, 5))):
        t = draw(st.sampled_from("fcisb"))
        vs.append(dict(dims=draw(st.lists(st.sampled_from([0, 1, 2]), unique=True, max_size=3)), t=t, u=draw(st.sampled_from(UNITS)), f=draw(st.sampled_from([None, "%.3f", "%12s"]))))
    ops = draw(st.lists(st.one_of(st.sampled_from(DERIVE), st.sampled_from(DERIVE), st.sampled_from(EDIT)).map(lambda k: [k]), min_size=1, max_size=11))
    ops = [["derive"]] + ops if not any(o[0] in DERIVE for o in ops) else ops
    return dict(dims=dims, vs=vs, net=draw(st.booleans()), com=draw(st.booleans()),
                ops=[o + [draw(st.integers(0, 99)), draw(st.integers(0, 99))] for o in ops] + [[draw(st.sampled_from(EDIT)), draw(st.integers(0, 99)), draw(st.integers(0, 99))]])


def first(spec):
    db = DataBlock()
    db.blockname = "blk"
    dd = [mkdim(d) for d in spec["dims"]]
    names = ["Id", "Vds", "x", "gain", "IC"]
    for i, v in enumerate(spec["vs"]):
        dims = tuple(dd[k] for k in sorted(v["dims"]) if True)
        sh = tuple(len(d.data) for d in dims)
        n = int(np.prod(sh))
        a = (np.arange(n) * 1.5 + i).reshape(sh)
        a = {"f": a, "c": a + 1j, "i": (a * 2).astype(int), "s": a.astype("U8"), "b": a % 2 > 1}[v["t"]]
        db[names[i]] = hfarray(a, dims=dims, unit=v["u"], outputformat=v["f"])
    m = (dd[0], DimMatrix_i("i", 2), DimMatrix_j("j", 2))
    a = np.arange(len(dd[0].data) * 4.).reshape(-1, 2, 2)
    db["M"] = hfarray(a, dims=m, unit="Ohm")
    if spec["net"]:
        db["S"] = SArray(a + 1j, dims=m, Z0=75.)
    if spec["com"]:
        db.comments = Comments(["Gate: 4", "a remark"])
    return db


def label(d):
    return (type(d).__name__, d.name, tuple(d.data.tolist()), d.unit, d.outputformat)


def snap(db):
    return dict(vars=[(k, type(v).__name__, tuple(label(d) for d in v.dims), v.unit, v.outputformat, v.dtype.str, np.array(v).tolist(), getattr(v, "Z0", None)) for k, v in db.vardata.items()],
                dims=[(k, label(d)) for k, d in db.ivardata.items()], name=db.blockname, comments=None if db.comments is None else list(db.comments.fullcomments))


def derive(db, what, p, q, note):
    """one or more blocks made of db, or nothing where the step does not apply"""
    iv = list(db.ivardata.values())
    sweeps = [d for d in iv if type(d) in (DimSweep, DimRep) and len(d.data) and len(set(d.data.tolist())) == len(d.data)]
    d = sweeps[p % len(sweeps)] if sweeps else None
    if what == "copy":
        return [db.copy()]
    if what == "view":
        return [db.view()]
    if what in ("filterall", "filter", "filterby"):
        if d is None:
            return []
        m = np.ones(len(d.data), bool)
        if what != "filterall":
            m[q % len(m)] = len(m) == 1
        if what == "filterby":
            return [db.filter(hfarray(type(d)(d.name, d.data[m])))]
        return [db.filter(hfarray(m, dims=(d,)))]
    if what == "filterno":
        return [db.filter(hfarray(DimSweep("elsewhere", [1., 2.])))]
    if what == "sort":
        return [] if d is None else [db.sort(db[d.name])]
    if what == "sortno":
        return [db.sort(hfarray(DimSweep("elsewhere", [2., 1.])))]
    if what == "squeeze":
        return [db.squeeze()]
    if what == "keep":
        names = [n for k, n in enumerate(db.vardata) if (p >> k % 5) & 1] or list(db.vardata)
        return [db.keep_variables(names)]
    if what == "hyper":
        if d is None:
            return []
        key = "key%d" % (q % 10)
        if key in db or any(k in db for k in ("key_new",)):
            return []
        src = db.view()
        src[key] = hfarray(np.arange(len(d.data)) * 10., dims=(d,), unit="W")
        return [src, src.hyper([key], d.name if q % 2 else d)]
    if what == "interp":
        return [] if d is None else [db.interpolate(type(d)(d, data=d.data[: 1 + q % len(d.data)]))]
    if what == "interpno":
        return [db.interpolate(DimSweep("elsewhere", [1., 2.]))]
    if what == "rmrep":
        reps = [x for x in iv if isinstance(x, DimRep)]
        if not reps or "AllReps" in db or any(0 < sum(r in v.dims for r in reps) < len(reps) for v in db.vardata.values()):
            return []
        return [db.remove_rep()]
    if what == "elements":
        return [convert_matrices_to_elements(db)]
    if what == "subset":
        vs = list(db.vardata.values())
        return [subset_datablock_by_dims(db, vs[p % len(vs)].dims)] if vs else []
    if what == "yield":
        return [b for _, b in yield_dim_consistent_datablocks(db)]
    return []


def edit(db, what, p, q, k):
    """relabel db; False where the step does not apply"""
    vs, ds = list(db.vardata), [d for d in db.ivardata if d not in ("i", "j")]   # matrix dims are found by these names
    if what in ("renv", "unit", "fmt1", "del") and not vs or what in ("rend", "fmtd", "repl") and not ds:
        return False
    v = vs[p % len(vs)] if vs else None
    d = ds[p % len(ds)] if ds else None
    if what == "rend":
        db.rename(d, "dim%d" % k)
    elif what == "renall":
        for j, n in enumerate(ds):
            db.rename(n, "dim%d_%d" % (k, j))
    elif what == "renv":
        db.rename(v, "var_n%dx" % k)
    elif what == "unit":
        db.vardata[v].unit = "unit%d" % k
    elif what == "units":
        for x in db.vardata.values():
            x.unit = "unit%d" % k
    elif what == "fmt1":
        db.set_outputformat(v, "%%%d.2f" % (k + 2))
    elif what == "fmtd":
        db.set_outputformat(d, "%%%d.2f" % (k + 2))
    elif what == "fmt":
        db.outputformat = "%%%d.3f" % (k + 2)
    elif what == "cls":
        change_dim(db, DimSweep, DiagAxis)
    elif what == "repl":
        old = db.ivardata[d]
        db.replace_dim(old, type(old)(old, unit="unit%d" % k))
    elif what == "guess":
        db.guess_units()
    elif what == "del":
        del db[v]
    elif what == "add":
        db["added_n%dx" % k] = hfarray(k * 1.)
    elif what == "name":
        db.blockname = "blk%d" % k
    return True


@S.sub("labels", case(), quick=700, thorough=12000)
def labels(spec, note):
    blocks = [first(spec)]
    kinds = ["first"]
    snaps = [snap(blocks[0])]
    edits = 0
    for k, (what, p, q) in enumerate(spec["ops"]):
        i = (p + q) % len(blocks) if q % 4 else len(blocks) - 1
        if what in DERIVE:
            new = derive(blocks[i], what, p, q, note)
            note.hit(what)
            for j, b in enumerate(blocks):
                check(snap(b) == snaps[j], "%s of block %d (%s) changed block %d (%s):\n%r\n%r", what, i, kinds[i], j, kinds[j], snaps[j], snap(b))
            if len(blocks) < 12:
                blocks += new
                kinds += [what] * len(new)
                snaps += [snap(b) for b in new]
        else:
            if not edit(blocks[i], what, p, q, k):
                continue
            edits += len(blocks) > 1
            for j, b in enumerate(blocks):
                if j != i:
                    check(snap(b) == snaps[j], "step %s on block %d (%s) changed block %d (%s):\n%r\n%r", what, i, kinds[i], j, kinds[j], snaps[j], snap(b))
            snaps[i] = snap(blocks[i])
    note.nontrivial(edits > 0)
