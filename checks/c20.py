"""The report of a block, the comment table and the array help text tell what is there."""
import re
import numpy as np
from hypothesis import strategies as st
from hftools.dataset import hfarray, DimSweep, DataBlock
from hftools.dataset.comments import Comments
from hftools.file_formats.common import Comments as FileComments
from vlib.core import Suite
from vlib.build import *

S = Suite("C20", rule="blocks of 0-6 variables over 1-4 dims (integer, float over 1e-12..1e12, text and date coordinates, units or none, matrices, scalars) plus dims without variables, "
          "every report option and width; comment tables of 0-6 properties; help texts; non-trivial: >= 2 dims and >= 1 variable",
          assumptions=["names without blanks", "coordinates are not empty", "numbers are compared to 1e-9"])
PRE = {"y": -24, "z": -21, "a": -18, "f": -15, "p": -12, "n": -9, "u": -6, "\xb5": -6, "\u03bc": -6, "m": -3, "": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21, "Y": 24}


@st.composite
def case(draw):
    pool = draw(dim_pool(maxdims=4, maxn=4, kinds="iffst"))
    for d in pool:
        if d["k"] == "f":
            sc = draw(st.sampled_from([1.0, 1e-12, 1e-3, 1e12, 3.7e5]))
            d["d"] = [x * sc for x in d["d"]]
            d["u"] = draw(st.sampled_from([d["u"], d["u"], "counts per s"]))
    n = draw(npts(0, 6, 20)) if max([len(d["d"]) for d in pool], default=0) < 20 else draw(st.integers(0, 3))
    vs = []
    for k in range(n):
        a = draw(array_spec(pool, "fci"))
        a["u"] = draw(st.sampled_from([None, "A", "Ohm", "dBm", "counts per s"]))
        vs.append(["v%d" % k if draw(st.booleans()) else "a_longer_name_%d" % k, a])
    return dict(pool=pool, vars=vs, alone=draw(st.booleans()), minmax=draw(st.booleans()), units=draw(st.booleans()), name=draw(st.sampled_from([None, "blk", "A.b-1"])),
                width=draw(st.sampled_from([None, 10, 60, 79, 200, 1000])))


def number(tok, unit, ints):
    """value of the tokens 'number unit'"""
    v = float(tok[0])
    if len(tok) == 1:
        check(ints or not unit, "unit missing in %r", tok)
        return v
    pre = " ".join(tok[1:])
    if unit:
        check(pre.endswith(unit), "%r does not carry the unit %s", tok, unit)
        pre = pre[:len(pre) - len(unit)]
    check(pre in PRE, "unknown prefix in %r", tok)
    return v * 10.0 ** PRE[pre]


def isnum(t):
    try:
        float(t)
        return True
    except ValueError:
        return False


@S.sub("report", case(), quick=500, thorough=8000)
def report(spec, note):
    db = DataBlock()
    db.blockname = spec["name"]
    if spec["alone"]:
        for d in spec["pool"]:
            db[d["n"]] = mkdim(d)
    for n, a in spec["vars"]:
        db[n] = mkarr(a)
    db.report_minmax, db.report_units = spec["minmax"], spec["units"]
    rep = db.report() if spec["width"] is None else db.report(spec["width"])
    lines = rep.split("\n")
    check(lines[0] == "Blockname: %s" % spec["name"], "first line %r", lines[0])
    dims, vars_ = [], []
    if any(" - " in l and ("Variables:" in l or "Dimensions:" in l) for l in lines[1:2]) or (len(lines) > 1 and re.match(r"^(Variables:)?\s*- ", lines[1])):
        at = lines[1].index(" - ")
        for l in lines[1:]:
            check(l[at:at + 3] == " - ", "columns are not aligned in %r", l)
            vars_.append(l[:at].rstrip())
            dims.append(l[at + 3:].rstrip())
        note.hit("side by side")
    else:
        cur = None
        for l in lines[1:]:
            if l == "Dimensions:":
                cur = dims
            elif l == "Variables:":
                cur = vars_
            if l.strip():
                check(cur is not None, "stray line %r", l)
                cur.append(l.rstrip())
        note.hit("stacked")
    dims = [x for x in dims if x]
    vars_ = [x for x in vars_ if x]
    if dims:
        check(dims.pop(0).strip() == "Dimensions:", "heading of the dimensions in %r", rep)
    if vars_:
        check(vars_.pop(0).strip() == "Variables:", "heading of the variables in %r", rep)
    check([x.split()[0] for x in dims] == list(db.ivardata.keys()), "dimensions reported in %r are not %r", rep, list(db.ivardata.keys()))
    check([x.split()[0] for x in vars_] == list(db.vardata.keys()), "variables reported in %r are not %r", rep, list(db.vardata.keys()))
    by = dict((d["n"], d) for d in spec["pool"])
    for row in dims:
        tok = row.split()
        d = by[tok[0]]
        if d["k"] == "s":
            check("{" in row and "<U" in row, "type of text dimension in %r", row)
            continue
        if not spec["minmax"]:
            want = ((("[%s]" % (d["u"] or "")).split()) if spec["units"] else []) + ["<%d>" % len(d["d"])]
            check(tok[1:] == want, "row %r of dimension %r", row, d)
            continue
        check(tok[1] == "<%d>" % len(d["d"]), "size in %r", row)
        rest = tok[2:]
        if d["k"] == "t":
            dd = mkdim(d).data
            check([np.datetime64(x) for x in rest] == [dd.min(), dd.max()], "range in %r, expected %s..%s", row, dd.min(), dd.max())
            continue
        starts = [i for i, t in enumerate(rest) if isnum(t)]
        check(len(starts) == 2 and starts[0] == 0, "range in %r", row)
        got = [number(rest[:starts[1]], d["u"], d["k"] == "i"), number(rest[starts[1]:], d["u"], d["k"] == "i")]
        want = [min(d["d"]), max(d["d"])]
        check(np.allclose(got, want, rtol=1e-9, atol=0), "range %r in %r, expected %r", got, row, want)
    for row in vars_:
        tok = row.split()
        a = dict(spec["vars"])[tok[0]]
        want = ((("[%s]" % (a["u"] or "")).split()) if spec["units"] else []) + ["<%s>" % "x".join(str(len(d["d"])) for d in a["dims"])]
        check(tok[1:] == want, "row %r of variable, expected %r", row, want)
    check(str(db) == db.report() and repr(db) == db.report(), "str and repr differ from the report")
    note.nontrivial(len(dims) > 1 and len(vars_) > 0)


@S.sub("table", st.lists(st.tuples(st.sampled_from(["T", "Temp", "Operator", "a_rather_long_property_name", "W", "x1"]),
                                   st.one_of(st.integers(-99, 99), small_float, st.text("abc xyz", min_size=1, max_size=12).filter(lambda s: s.strip() == s), st.integers(30, 120).map(lambda n: ("ab 12, " * 20)[:n] + "."))).map(list),
                         max_size=6, unique_by=lambda t: t[0]), quick=150, thorough=2000)
def table(spec, note):
    """one row per property, sorted by name, with its value"""
    for cls in (Comments, FileComments):
        table_of(cls(**dict((k, v) for k, v in spec)), spec, note)


def table_of(c, spec, note):
    t = c.table()
    note.nontrivial(len(spec) > 1)
    if not spec:
        check(t == [], "table of no properties is %r", t)
        return
    rows = t[3:]
    check([r.split()[0] for r in rows] == sorted(k for k, v in spec), "rows %r", rows)
    for r in rows:
        k = r.split()[0]
        got, want = r[len(k):].strip(), str(dict((a, b) for a, b in spec)[k])
        # a value that does not fit in the width of the table may be cut there
        check(got == want or len(r.rstrip()) >= c.width - 2 and want.startswith(got), "row %r of %s", r, k)
    check(repr(c) == "\n".join(t), "repr")


@S.sub("help", dim_pool(maxdims=4, maxn=3).flatmap(lambda p: array_spec(p, "fci")), quick=100, thorough=1000)
def help_text(spec, note):
    """class, type, shape and every dimension of the array"""
    a = mkarr(spec)
    if a.ndim == 0:
        return
    t = a.help()
    note.nontrivial(a.ndim > 1)
    check("class: hfarray" in t and "dtype: %s" % a.dtype in t and "shape: %r" % (a.shape,) in t, "help text %r", t)
    flat = re.sub(r"\s+", "", t)
    pos = -1
    for d in a.dims:
        p = flat.find(re.sub(r"\s+", "", repr(d)), pos + 1)
        check(p > pos, "dimension %r is missing or out of order in %r", d, t)
        pos = p
    db = DataBlock()
    db["v"] = a
    db["w"] = hfarray(1.5)
    for nm in ["v", "w", a.dims[0].name]:
        db.xname = nm
        check(db.xname == nm, "xname")
        check(np.array_equal(np.asarray(db.xvalue), np.asarray(db[nm])), "xvalue of %s", nm)
    check("xname" not in db.vardata and list(db.vardata.keys()) == ["v", "w"], "xname became a variable")
