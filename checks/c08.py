"""C08: a DataBlock stays consistent through any history of edits."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import DataBlock, DimSweep, DimRep
from hftools.dataset.dataset import DataBlockError, change_dim
from hftools.dataset.comments import Comments

S = Suite("C08", rule="histories of 2-14 block edits (set variable, add dimension, overwrite coordinates, delete, rename, replace "
          "dimension, change class, output formats, unit guessing, copy, view, keep_variables) against a model that stores "
          "values, coordinates, units and formats per name; non-trivial: a dimension shared by >= 2 variables is edited",
          assumptions=["variables share coordinates for dims of the same name", "dimension and variable names are disjoint"])

VARS = ["Id", "Vds", "P_out", "gain", "x", "IC"]
DIMS = ["freq", "vgs", "rep", "Pin"]
EXTRA = ["renamed", "FREQ", "q2", "time"]
GUESS = {"Id": "A", "IC": "A", "Vds": "V", "vgs": "V", "freq": "Hz", "FREQ": "Hz"}
FM = ["%.3f", "%.1e", "%g"]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["var"] * 5 + ["dim", "ivar", "ivar", "del", "renv", "rend", "rend", "rep", "rep", "cls", "fmt1", "fmt", "guess",
                                            "copy", "view", "keep", "chg"]))
    return [k, draw(st.integers(0, 999)), draw(st.integers(0, 999)), draw(st.integers(0, 999))]


@st.composite
def case(draw):
    dims = {n: draw(dim_spec(n, draw(st.sampled_from("SSR")), kinds="if", maxn=3)) for n in DIMS}
    dims = {d["n"]: d for d in draw(enlarge(list(dims.values()), 120, 15))}
    return dict(dims=dims, ops=[["var", i, draw(st.integers(1, 999)), draw(st.integers(0, 999))] for i in range(draw(st.integers(1, 3)))] +
                draw(st.lists(op(), min_size=2, max_size=14)), attr=draw(st.booleans()))


class M(object):
    def __init__(self):
        self.v = []     # [name, ndarray, [dimnames], unit, fmt]
        self.d = []     # [name, cls, coords, unit, fmt]

    def vi(self, n):
        return next((x for x in self.v if x[0] == n), None)

    def di(self, n):
        return next((x for x in self.d if x[0] == n), None)

    def users(self, n):
        return sum(n in x[2] for x in self.v)

    def clone(self):
        m = M()
        m.v = [[x[0], x[1].copy(), list(x[2]), x[3], x[4]] for x in self.v]
        m.d = [list(x) for x in self.d]
        return m


def dimobj(x):
    return x[1](x[0], list(x[2]), unit=x[3], outputformat=x[4])


def cmpdim(g, x, what):
    w = dimobj(x)
    samedim(g, w, what)
    check(g.outputformat == w.outputformat, "%s: dim %s format %r, expected %r", what, x[0], g.outputformat, w.outputformat)


def compare(db, m, what):
    check(list(db.vardata.keys()) == [x[0] for x in m.v], "%s: variables %r, expected %r", what, db.vardata.keys(), [x[0] for x in m.v])
    check(list(db.ivardata.keys()) == [x[0] for x in m.d], "%s: dims %r, expected %r", what, db.ivardata.keys(), [x[0] for x in m.d])
    check(list(db.allvarnames) == [x[0] for x in m.d] + [x[0] for x in m.v], "%s: allvarnames", what)
    for x in m.d:
        cmpdim(db.ivardata[x[0]], x, what)
        h = db[x[0]]
        exact(h, x[2], "%s: db[%r]" % (what, x[0]))
        exact(getattr(db, x[0]), x[2])
        check(h.unit == x[3] and x[0] in db, "%s: db[%r].unit", what, x[0])
    for n, v, dn, u, f in m.v:
        a = db[n]
        coherent(a, what)
        exact(a, v, "%s: value of %s" % (what, n))
        check(a.unit == u, "%s: unit of %s is %r, expected %r", what, n, a.unit, u)
        check(a.outputformat == f, "%s: format of %s is %r, expected %r", what, n, a.outputformat, f)
        check([d.name for d in a.dims] == dn, "%s: dims of %s: %r", what, n, a.dims)
        for d in a.dims:
            cmpdim(d, m.di(d.name), "%s, in variable %s" % (what, n))
        check(getattr(db, n) is a and n in db, "%s: attribute access of %s", what, n)
    check("missing" not in db, "in")
    check(raises(lambda: db["missing"], KeyError) is not None, "missing name")
    check(raises(lambda: db.missing, AttributeError) is not None, "missing attribute")


@S.sub("history", case(), quick=1500, thorough=20000)
def history(spec, note):
    db, m = DataBlock(), M()
    db.blockname = "blk"
    count = 0
    for k, a, b, c in spec["ops"]:
        count += 1
        what = "after %s(%d,%d,%d)" % (k, a, b, c)
        names = [x[0] for x in m.d]
        vn = [x[0] for x in m.v]
        if k == "var":
            n = VARS[a % len(VARS)]
            avail = [dict(n=x[0]) for x in m.d] + [spec["dims"][q] for q in DIMS if q not in names]
            q = b % (1 + min(3, len(avail)))
            sel = [avail[(c + i * (1 + c % 2)) % len(avail)] for i in range(q)]
            seen = []
            sel = [s for s in sel if not (s["n"] in seen or seen.append(s["n"]))]
            recs = []
            for s in sel:
                r = m.di(s["n"])
                if r is None:
                    o = mkdim(s)
                    r = [s["n"], o.__class__, list(s["d"]), s["u"], o.outputformat]
                    m.d.append(r)
                recs.append(r)
            sh = tuple(len(r[2]) for r in recs)
            v = (np.arange(int(np.prod(sh, dtype=int))) * 3.5 + count).reshape(sh)
            u = UNITS[c % len(UNITS)]
            f = FM[b % 3]
            arr = hfarray(lay(v), dims=tuple(dimobj(r) for r in recs), unit=u, outputformat=f)
            if spec["attr"]:
                setattr(db, n, arr)
            else:
                db[n] = arr
            old = m.vi(n)
            rec = [n, v, [r[0] for r in recs], u, f]
            if old is None:
                m.v.append(rec)
            else:
                old[:] = rec
        elif k == "dim":
            n = DIMS[a % 4]
            if n in names:
                continue
            o = mkdim(spec["dims"][n])
            db[n] = o
            m.d.append([n, o.__class__, list(spec["dims"][n]["d"]), o.unit, o.outputformat])
        elif k == "ivar":
            if not names:
                continue
            r = m.d[a % len(m.d)]
            new = [float(x) * 2 + b for x in range(len(r[2]))]
            db[r[0]] = hfarray(new, dims=(dimobj(r),))
            r[2] = new
            note.nontrivial(m.users(r[0]) > 1)
        elif k == "del":
            n = VARS[a % len(VARS)]
            if b % 2:
                del db[n]
            else:
                delattr(db, n)
            m.v = [x for x in m.v if x[0] != n]
        elif k == "renv":
            if not vn:
                continue
            old = vn[a % len(vn)]
            new = (VARS + ["fresh"])[b % (len(VARS) + 1)]
            db.rename(old, new)
            if new != old:
                if m.vi(new) is not None:
                    i = [x[0] for x in m.v].index(new)
                    rec = list(m.vi(old))
                    rec[0] = new
                    m.v[i] = rec
                    m.v = [x for x in m.v if x[0] != old]
                else:
                    m.vi(old)[0] = new
        elif k == "rend":
            if not names:
                continue
            r = m.d[a % len(m.d)]
            new = EXTRA[b % len(EXTRA)]
            if new in names or new in vn:
                continue
            old = r[0]
            note.nontrivial(m.users(old) > 1)
            db.rename(old, new)
            r[0] = new
            for x in m.v:
                x[2] = [new if q == old else q for q in x[2]]
        elif k == "rep":
            if not names:
                continue
            r = m.d[a % len(m.d)]
            old = r[0]
            new = EXTRA[b % len(EXTRA)]
            if new != old and (new in names or new in vn):
                new = old
            C = [DimSweep, DimRep][c % 2]
            coords = [i * 1.25 + c for i in range(len(r[2]))]
            nd = C(new, coords, unit=UNITS[b % len(UNITS)], outputformat=FM[c % 3])
            note.nontrivial(m.users(old) > 1)
            db.replace_dim(old if c % 3 else db.ivardata[old], nd)
            r[:] = [new, C, coords, nd.unit, FM[c % 3]]
            for x in m.v:
                x[2] = [new if q == old else q for q in x[2]]
        elif k == "cls":
            if not names:
                continue
            r = m.d[a % len(m.d)]
            C = [DimSweep, DimRep][c % 2]
            note.nontrivial(m.users(r[0]) > 1)
            db.replace_dim(r[0], C)
            r[1] = C
        elif k == "chg":
            change_dim(db, DimRep, DimSweep)
            for r in m.d:
                if r[1] is DimRep:
                    note.nontrivial(m.users(r[0]) > 1)
                    r[1] = DimSweep
        elif k == "fmt1":
            pool = names + vn
            if not pool:
                check(raises(lambda: db.set_outputformat("missing", "%f"), DataBlockError) is not None, "set_outputformat of a missing name")
                continue
            n = pool[a % len(pool)]
            db.set_outputformat(n, FM[b % 3])
            (m.vi(n) or m.di(n))[4] = FM[b % 3]
        elif k == "fmt":
            db.outputformat = FM[b % 3]
            for x in m.v + m.d:
                x[4] = FM[b % 3]
            check(db.outputformat == FM[b % 3], "outputformat of the block")
        elif k == "guess":
            if a % 3 == 0:
                which = db.allvarnames
                db.guess_units()
            elif a % 3 == 1:
                which = [VARS[b % len(VARS)], DIMS[c % 4]]
                db.guess_units(which)
            else:
                which = [(VARS + DIMS)[b % 10]]
                db.guess_units(which[0])
            for x in m.v + m.d:
                if x[0] in which and x[3] is None:
                    x[3] = GUESS.get(x[0])
        elif k in ("copy", "view"):
            e = getattr(db, k)()
            compare(e, m, what)
            check(e.blockname == "blk" and e.xname == db.xname, "blockname or x name of the %s", k)
            for x in m.v:
                if x[1].size:
                    check(np.shares_memory(np.asarray(e[x[0]]), np.asarray(db[x[0]])) == (k == "view"), "%s shares data wrongly", k)
            keep = m.clone()
            # edit the original heavily: the copy must not notice
            if names:
                db.rename(names[0], "elsewhere")
                db.set_outputformat("elsewhere", "%.9f")
            db.guess_units()
            for x in m.v:
                db[x[0]].unit = "changed"
                db.set_outputformat(x[0], "%.8f")
                if k == "copy":
                    db[x[0]][...] = -1
            db["only_original"] = hfarray([1.0, 2], dims=(DimSweep("only_dim", 2),))
            compare(e, keep, what + " after editing the original")
            db = e
            note.hit(k)
        elif k == "keep":
            want = [VARS[(a + i * (1 + b)) % len(VARS)] for i in range(1 + c % 4)] + ["nope"]
            e = db.keep_variables(want)
            check(e.blockname == "blk", "blockname")
            check(list(e.vardata.keys()) == [n for i, n in enumerate(want) if n in vn and n not in want[:i]], "keep_variables kept %r of %r asked %r", e.vardata.keys(), vn, want)
            for n in e.vardata:
                exact(e[n], m.vi(n)[1])
                for d in e[n].dims:
                    cmpdim(e.ivardata[d.name], m.di(d.name), what)
            check(sorted(e.ivardata.keys()) == sorted(set(d.name for n in e.vardata for d in e[n].dims)), "dims of keep_variables")
        note.hit(k)
        compare(db, m, what)
    rep = db.report()
    for x in m.v + m.d:
        check(x[0] in rep, "report does not mention %s", x[0])
    check("blk" in rep, "report does not name the block")


@st.composite
def prop_case(draw):
    names = draw(st.lists(st.sampled_from(["Temp", "W", "Bias", "Id", "freq", "note"]), unique=True, min_size=1, max_size=5))
    vals = [draw(st.one_of(st.integers(-5, 5), small_float, st.text("abc ", max_size=4))) for _ in names]
    return dict(props=list(zip(names, vals)), ops=draw(st.booleans()))


@S.sub("values_from_property", prop_case(), quick=150, thorough=2000)
def values_from_property(spec, note):
    """properties become variables; existing variables and dimensions win"""
    db = DataBlock()
    db["Id"] = hfarray([1.0, 2, 3], dims=(DimSweep("freq", [1e9, 2e9, 3e9]),))
    db.comments = Comments(**dict((k, v) for k, v in spec["props"]))
    db.values_from_property()
    note.nontrivial(len(spec["props"]) > 1)
    exact(db["Id"], [1.0, 2, 3])
    exact(db["freq"], [1e9, 2e9, 3e9])
    for n, v in spec["props"]:
        if n not in ("Id", "freq"):
            check(n in db and db[n].shape == () and db[n].tolist() == v, "property %s gave %r", n, db[n])
    cp = db.copy()
    cp.comments.property["new"] = 1
    cp.comments.fullcomments.append("x")
    check("new" not in db.comments.property and "x" not in db.comments.fullcomments, "copy shares comments with its source")


KNOWN = {}
for _n in ["Vds", "Vgs", "Vdg", "Vgd", "Vbe", "Vce"]:
    for _x in (_n, _n.lower(), _n.upper(), _n.upper() + "_SET"):
        KNOWN[_x] = "V"
for _n in ["Id", "Ig", "Is", "Ib", "Ie", "Ic"]:
    for _x in (_n, _n.lower(), _n.upper()):
        KNOWN[_x] = "A"
for _n in ["Freq", "F", "Frequency"]:
    for _x in (_n, _n.lower(), _n.upper()):
        KNOWN[_x] = "Hz"
ANY = st.one_of(st.sampled_from(sorted(KNOWN)), st.sampled_from(["Vx", "gain", "Idx", "V", "freqs", "P_out", "xVds", "id_", "time"]))


@S.sub("guess_units", st.tuples(st.lists(st.tuples(ANY, st.sampled_from([None, None, "W", ""])).map(list), min_size=1, max_size=5, unique_by=lambda t: t[0]),
                                st.sampled_from(["all", "name", "list", "tuple", "set", "dict", "none"]), st.integers(0, 4), st.booleans()).map(list), quick=300, thorough=6000)
def guess_units(spec, note):
    """every known voltage, current and frequency name without a unit gets its unit; nothing else changes"""
    names, how, k, dimtoo = spec
    db = DataBlock()
    dn, du = names[0] if dimtoo else ("q", None)
    dim = DimSweep(dn, [1.5, 2.5], unit=du, outputformat="%.2f")
    for i, (n, u) in enumerate(names):
        if n != dn:
            db[n] = hfarray([1.0 * i, 2.0], dims=(dim,), unit=u, outputformat="%.3f")
    db["other"] = hfarray([4.0, 5.0], dims=(dim,))
    every = [n for n, u in names]
    asked = dict(all=every, name=[every[k % len(every)]], none=[]).get(how, every[:k + 1])
    arg = dict(all=True, name=asked[0] if asked else None, list=asked, tuple=tuple(asked), set=set(asked), dict=dict.fromkeys(asked, 1), none=False)[how]
    db.guess_units(arg)
    note.hit(how)
    note.nontrivial(any(n in KNOWN for n in asked))
    for i, (n, u) in enumerate(names):
        want = KNOWN.get(n) if (u is None and n in asked) else u
        check(db[n].unit == want, "unit of %s (unit %r before) became %r, expected %r", n, u, db[n].unit, want)
        if n != dn:
            exact(db[n], [1.0 * i, 2.0])
            check(db[n].outputformat == "%.3f", "format of %s changed", n)
        d = db[n].dims[0]
        check(type(d) is DimSweep and d.name == dn and d.unit == db[dn].unit and list(d.data) == [1.5, 2.5], "dimension of %s became %r", n, d)
    check(db["other"].unit is None, "unit of an unknown name")
    check(list(db.ivardata.keys()) == [dn], "dimensions %r", list(db.ivardata.keys()))
