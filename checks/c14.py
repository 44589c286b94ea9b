"""C14: CITI files: reading gives exactly what the file says, and saved blocks read back the same."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib import longf
from vlib.files import Tmp, put
from hftools.file_formats import read_citi, save_citi, read_data, Comments

S = Suite("C14", rule="generated CITI text with 1-3 swept variables (value lists or segments) and 1-6 data lists (RI, MAG, MAGANGLE, matrix "
          "elements S[i,j] or Sij), comments and blank lines; blocks with variables over any subset and order of numeric dims, matrices and scalars "
          "saved and read back; non-trivial: >= 2 data lists and >= 2 points / >= 2 variables with different dims",
          assumptions=["variable names are not on the normalisation table", "numeric sweeps", "matrix size <= 9"])


def num(v, how):
    return {"r": repr(v), "e": "%.10e" % v, "E": "%.10E" % v}[how]


@st.composite
def case(draw):
    nv = draw(st.sampled_from([1, 2, 1, 3]))
    vs = []
    big = draw(large_size())
    which = draw(st.integers(0, nv - 1)) if big else None
    for q, nm in enumerate(draw(st.permutations(["freq", "VD", "vg", "pwr_in"]))[:nv]):
        n = draw(st.integers(1, 5 if nv < 3 else 3)) if q != which else big
        if draw(st.integers(0, 2)) == 0:
            a, b = draw(st.integers(-50, 50)), draw(st.integers(1, 400))
            vs.append(dict(n=nm, seg=[a * 0.25, (a + b) * 0.25, n]))
        else:
            sc = draw(st.sampled_from([0.125, 0.125, 0.125, 1e-14, 2.5e12]))
            vs.append(dict(n=nm, d=[k * sc for k in draw(distinct(-800, 800, n))]))
    tot = int(np.prod([len(v["d"]) if "d" in v else v["seg"][2] for v in vs]))
    ds = []
    style = draw(st.sampled_from(["S[%d,%d]", "S%d%d", "S[%d,%d]", "S%d%d", "Y_raw[%d,%d]", "Y_raw%d%d"]))
    names = []
    mat = draw(st.sampled_from([None, None, (2, 2), (2, 2), (3, 3), (1, 2), (2, 1), (2, 3), (4, 4)]))
    if mat:
        el = [(i + 1, j + 1) for i in range(mat[0]) for j in range(mat[1])]
        if draw(st.booleans()):
            el = draw(st.permutations(el))
        names = [style % e for e in el]
        t = draw(st.sampled_from(["RI", "RI", "MAG", "MAGANGLE"]))
        ds += [dict(n=nm, t=t) for nm in names]
    for nm in draw(st.lists(st.sampled_from(["Id", "PIN_raw", "Zx", "beta", "S_tot"]), min_size=0 if mat else 1, max_size=3, unique=True)):
        ds.append(dict(n=nm, t=draw(st.sampled_from(["RI", "MAG", "MAGANGLE"]))))
    if draw(st.booleans()):
        ds = list(draw(st.permutations(ds)))
    for dd in ds:
        x = st.integers(-4000, 4000).map(lambda k: k / 64.0)
        sc = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-13, 1e12]))
        y = x.map(lambda v: v * 16) if dd["t"] == "MAGANGLE" else x.map(lambda v: v * sc)
        x = x.map(lambda v: v * sc)
        dd["v"] = draw(many(x if dd["t"] == "MAG" else st.tuples(x, y).map(list), tot))
    return dict(vs=vs, ds=ds, mat=mat and list(mat), deco=draw(st.integers(0, 2)), num=draw(st.sampled_from("reE")), eol=draw(st.sampled_from(["\n", "\r\n"])),
                seed=draw(st.integers(0, 2 ** 20)), name=draw(st.sampled_from(["CH1_DATA", "DATA", "RAW_DATA", "My block"])),
                time=draw(st.booleans()), mm=draw(st.integers(0, 3)) > 0)


def text(spec, rnd):
    L, com = [], []

    def deco(where=None):
        if spec["deco"] and rnd.random() < .5:
            if rnd.random() < .4:
                L.append(rnd.choice(["", "  "]))
            else:
                c = rnd.choice(["text with 1,2 numbers", "NA VERSION HP8510C.07.10", "REGISTER 4", "free", "look out!", "5 % off", "a@b.se"])
                com.append(c)
                L.append(rnd.choice(["!%s", "#%s", "! %s", "COMMENT %s"]) % c)
    ind = "  " if spec["deco"] == 2 else ""
    deco()
    L.append("CITIFILE A.01.0%d" % rnd.randrange(2))
    deco()
    L.append("NAME " + spec["name"])
    deco()
    for v in spec["vs"]:
        n = len(v["d"]) if "d" in v else v["seg"][2]
        L.append("VAR %s MAG %d" % (v["n"], n))
    deco()
    for d in spec["ds"]:
        L.append("DATA %s %s" % (d["n"], d["t"]))
    deco()
    for v in spec["vs"]:
        if "d" in v:
            L.append("VAR_LIST_BEGIN")
            L.extend(ind + num(x, spec["num"]) for x in v["d"])
            L.append("VAR_LIST_END")
        else:
            L += ["SEG_LIST_BEGIN", "SEG %s %s %d" % (num(v["seg"][0], spec["num"]), num(v["seg"][1], spec["num"]), v["seg"][2]), "SEG_LIST_END"]
    if spec["time"]:
        com.append("Measurement time: 1998-01-16 14:57:37.0")
        L.append("CONSTANT TIME 1998   01   16  14    57    37.0")
    deco()
    for d in spec["ds"]:
        L.append("BEGIN")
        for x in d["v"]:
            L.append(ind + (num(x, spec["num"]) if d["t"] == "MAG" else num(x[0], spec["num"]) + rnd.choice([",", ", ", " , "][:1 + spec["deco"]]) + num(x[1], spec["num"])))
        L.append("END")
    return spec["eol"].join(L) + spec["eol"], com


def conv(x, t):
    if t == "MAG":
        return x
    if t == "RI":
        return complex(*x)
    return x[0] * complex(math.cos(math.radians(x[1])), math.sin(math.radians(x[1])))


@S.sub("parse", case(), quick=450)
def parse(spec, note):
    import random
    txt, com = text(spec, random.Random(spec["seed"]))
    with Tmp() as d:
        fn = put(d, "x.citi", txt)
        kw = {} if spec["mm"] else dict(make_matrix=False)
        r = read_data(fn, **kw) if spec["seed"] % 3 == 0 else read_citi(fn, **kw)
    coords = [np.array(v["d"]) if "d" in v else np.linspace(*v["seg"]) for v in spec["vs"]]
    shape = tuple(len(c) for c in coords)
    vals = {x["n"]: np.array([conv(q, x["t"]) for q in x["v"]]).reshape(shape) for x in spec["ds"]}
    exp = {}
    import re
    el = {}
    for nm, a in vals.items():
        m = re.match(r"(S|Y_raw)\[?(\d),?(\d)\]?$", nm)
        if m and spec["mm"]:
            base = m.group(1)
            el[int(m.group(2)) - 1, int(m.group(3)) - 1] = a
        else:
            exp[nm] = a
    if el and len(el) > 1:
        M = np.empty(shape + tuple(spec["mat"]), dtype=next(iter(el.values())).dtype)
        for (i, j), a in el.items():
            M[..., i, j] = a
        exp[base] = M
        note.hit("matrix")
    for nm, w in exp.items():
        check(nm in r.vardata, "variable %s missing: %r", nm, r.vardata.keys())
        got = r[nm]
        same(got, w, rtol=1e-9, atol=1e-11 * np.abs(w).max(), what=nm)
        check(np.iscomplexobj(got) == np.iscomplexobj(w), "%s: dtype %s", nm, got.dtype)
        check([x.name for x in got.dims][:len(shape)] == [v["n"] for v in spec["vs"]], "%s dims %r", nm, got.dims)
        for dd, c in zip(got.dims, coords):
            same(dd.data, c, rtol=1e-9 if spec["num"] != "r" else 1e-13, atol=1e-14 * np.abs(c).max(), what="coordinates of %s" % dd.name)
            check(isinstance(dd, DimSweep), "dim class")
        if w.ndim > len(shape):
            check(got.dims[-2].__class__ is DimMatrix_i and got.dims[-1].__class__ is DimMatrix_j, "matrix dims")
        coherent(got, nm)
    extra = set(r.vardata.keys()) - set(exp) - {"FILENAME", "Measurement time"}
    check(not extra, "unexpected variables %r", extra)
    check(r.blockname == spec["name"], "block name %r", r.blockname)
    if "freq" in r.ivardata:
        check(r.ivardata["freq"].unit == "Hz", "freq unit")
    check(list(r.comments.fullcomments) == com, "comments %r want %r", r.comments.fullcomments, com)
    if spec["time"]:
        check("Measurement time" in r and str(r["Measurement time"]).startswith("1998-01-16"), "time")
    note.hit("vars%d" % len(shape))
    note.nontrivial(len(spec["ds"]) > 1 and np.prod(shape) > 1)


@st.composite
def blk(draw):
    pool = [dict(n=nm, c=draw(st.sampled_from("SSR")), k=k, u=None, f=None, d=draw(dim_data(draw(st.integers(1, 4)), k)))
            for nm, k in zip(draw(st.permutations(["freq", "Vq", "x", "pow"]))[:draw(st.integers(1, 3))], ["f", "i", "f"])]
    pool = draw(enlarge(pool))
    vs = []
    for i in range(draw(st.integers(1, 4))):
        dims = draw(subperm(pool, 0, 3))
        t = draw(st.sampled_from("fci"))
        mat = draw(st.sampled_from([None, None, None, [2, 2], [3, 3], [2, 3], [4, 4], [5, 2]]))
        n = nval(dims) * (mat[0] * mat[1] if mat else 1)
        vs.append(dict(n="v" + "abcd"[i], dims=dims, t=t, mat=mat, base=draw(st.sampled_from([0, 1])), v=draw(values(n, t)) if n < 30 else None, k=n))
    return dict(vs=vs, name=draw(st.sampled_from([None, "CH2", "some data"])), com=draw(st.sampled_from([None, [], ["Lot: A7", "plain"], ["look out!", "50 % of it", "# marked"]])), rd=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1 / 3.0, 1e-17 / 7, 1e9 / 7])), mfirst=draw(st.integers(0, 2)) == 0)


@S.sub("roundtrip", blk(), quick=350)
def roundtrip(spec, note):
    db = DataBlock()
    db.blockname = spec["name"]
    if spec["com"] is not None:
        db.comments = Comments(list(spec["com"]))
    vals = {}
    for v in spec["vs"]:
        dims = [mkdim(d) for d in v["dims"]]
        sh = tuple(len(d["d"]) for d in v["dims"])
        # i, j names depend on the matrix shape: a block has one dim per name
        if v["mat"]:
            m = v["mat"]
            b = v["base"]
            dims += [DimMatrix_i("i%d%d" % (m[0], b), list(range(b, b + m[0]))), DimMatrix_j("j%d%d" % (m[1], b), list(range(b, b + m[1])))]
            sh += tuple(m)
        raw = v["v"]
        if raw is None:
            raw = [[q, 0.5 - q] if v["t"] == "c" else q for q in range(v["k"])]
        a = mkvals(raw, v["t"], sh)
        if v["t"] != "i":
            a = a * spec["scale"]
        vals[v["n"]] = a
        x = hfarray(lay(a.copy()), dims=tuple(dims))
        if v["mat"] and spec["mfirst"] and len(dims) > 2:      # matrix dims need not come last, unless nothing else moves
            x = x.reorder_dimensions(*(dims[:-3:-1] + dims[:-2]))
        db[v["n"]] = x
    before = {k: (tuple(a.dims), a.unit) for k, a in db.vardata.items()}
    with Tmp() as d:
        fn = d + "/a.citi"
        save_citi(db, fn)
        for k, a in db.vardata.items():
            if not spec["mfirst"]:
                exact(a, vals[k], "saved block unchanged: " + k)
            check((tuple(a.dims), a.unit) == before[k], "saved block's dims changed")
        r = read_data(fn) if spec["rd"] else read_citi(fn)
    alld = []
    for v in spec["vs"]:
        for q in v["dims"]:
            if q["n"] not in [x["n"] for x in alld]:
                alld.append(q)
    for v in spec["vs"]:
        nm = v["n"]
        check(nm in r.vardata, "variable %s lost", nm)
        got = r[nm]
        gn = [x.name for x in got.dims]
        own = [q["n"] for q in v["dims"]]
        check(set(own) <= set(gn), "%s lost dims: %r", nm, gn)
        w = vals[nm]
        # value at every coordinate: bring the original to the dims of the result
        gd = gn[:len(gn) - 2] if v["mat"] else gn
        check(all(x in [q["n"] for q in alld] for x in gd), "%s has foreign dims %r", nm, gn)
        lead = [own.index(x) for x in gd if x in own]
        w2 = w.transpose(lead + list(range(len(own), w.ndim)))
        sh = [len([q for q in alld if q["n"] == x][0]["d"]) if x in own else 1 for x in gd]
        w2 = np.broadcast_to(w2.reshape(tuple(sh) + w.shape[len(own):]), got.shape)
        exact(got, w2, nm)
        for x in got.dims[:len(gd)]:
            q = [q for q in alld if q["n"] == x.name][0]
            exact(x.data, np.array(q["d"], float), "coordinates of " + x.name)
    if spec["name"]:
        check(r.blockname == spec["name"], "block name")
    if spec["com"]:
        check(list(r.comments.fullcomments) == spec["com"], "comments")
    note.hit("vars%d" % len(spec["vs"]), *["mat" for v in spec["vs"] if v["mat"]][:1])
    note.nontrivial(len(spec["vs"]) > 1 and len({tuple(q["n"] for q in v["dims"]) for v in spec["vs"]}) > 1)


BAD = ["nodataend", "novarend", "short", "long", "badtype", "badline", "noname", "novarbegin", "nonum", "nodata", "cut"]


@S.sub("reject", st.tuples(case(), st.sampled_from(BAD)).map(list), quick=250)
def reject(arg, note):
    import random
    spec, b = arg
    spec = dict(spec, deco=0, time=False)
    L = text(spec, random.Random(spec["seed"]))[0].split(spec["eol"])[:-1]

    def drop(what, k=0):
        idx = [i for i, l in enumerate(L) if l == what]
        if not idx:
            return False
        del L[idx[spec["seed"] % len(idx)]]
        return True
    ok = True
    if b == "nodataend":
        ok = drop("END")
    elif b == "novarend":
        ok = drop("VAR_LIST_END")
    elif b == "novarbegin":
        ok = drop("VAR_LIST_BEGIN")
    elif b == "short":
        del L[-2]
    elif b == "long":
        L.insert(len(L) - 1, L[-2])
    elif b == "badtype":
        i = [i for i, l in enumerate(L) if l.startswith("DATA ")][0]
        L[i] = L[i].rsplit(" ", 1)[0] + " FOO"
    elif b == "badline":
        L.insert(spec["seed"] % (len(L) - 1) + 1, "QWERTY 12")
    elif b == "noname":
        L = [l for l in L if not l.startswith("NAME")]
    elif b == "nonum":
        L[-2] = "1.0.0,2.x"
    elif b == "nodata":
        L = L[:L.index("BEGIN")]
    elif b == "cut":
        L = L[:max(2, spec["seed"] % len(L))]
    if not ok:
        return
    with Tmp() as d:
        fn = put(d, "x.citi", "\n".join(L) + "\n")
        e = raises(lambda: read_citi(fn))
    check(e is not None, "malformed file (%s) was read without an error:\n%s", b, "\n".join(L))
    note.hit(b)
    note.nontrivial()


S.sub("long", longf.spec(), quick=24, thorough=200)(longf.long_check("citi", read_citi, save_citi))
