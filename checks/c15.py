"""C15: column-text (sp-data) files read as written, and saved blocks read back the same."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib import longf
from vlib.files import Tmp, put
from hftools.file_formats import read_spdata, save_spdata, read_data, Comments

S = Suite("C15", rule="generated tab-separated files: one or many blocks, swept @variables (complete or incomplete grids), real / Re+Im / Mag+Arg / "
          "matrix / repeated / text columns, units with SI prefixes, comments; blocks of 1-3 sweeps saved and read back with and without regridding; "
          "non-trivial: >= 2 rows and >= 2 value columns (or >= 2 blocks)",
          assumptions=["names are not on the normalisation table", "text cells do not look like numbers; text scalars do not begin with a number (comment values are read leniently)",
                       "all blocks of a file have the same columns", "dimensions of length one may be dropped when blocks are merged"])

MUL = dict(GHz=1e9, MHz=1e6, kHz=1e3, Hz=1, mV=1e-3, V=1, uA=1e-6, A=1, dBm=1, pF=1e-12, mm=1e-3, mOhm=1e-3, counts=1, fA=1e-15, aF=1e-18, kOhm=1e3, THz=1e12)
BASE = dict(GHz="Hz", MHz="Hz", kHz="Hz", Hz="Hz", mV="V", V="V", uA="A", A="A", dBm="dBm", pF="F", mm="m", mOhm="Ohm", counts="counts", fA="A", aF="F", kOhm="Ohm", THz="Hz")
UN = [None, None] + sorted(MUL)
TEXT = ["abc", "W 7", "x_y", "on/off", "lot b", "1_2", "12_3"]
num = st.integers(-4000, 4000).map(lambda k: k / 64.0)


@st.composite
def columns(draw, extra=True):
    cols = []
    for nm in draw(st.lists(st.sampled_from(["Id", "Pout", "beta", "qq", "Z_x", "amp"]), min_size=1, max_size=4, unique=True)):
        k = draw(st.sampled_from(["re", "re", "ri", "ma", "rep", "rirep", "txt", "int", "clash", "lone"] if extra else ["re", "re", "ri", "int"]))
        cols.append(dict(n=nm, k=k, u=draw(st.sampled_from(UN)) if k not in ("txt",) else None))
    if draw(st.booleans()):
        m = draw(st.sampled_from([[2, 2], [3, 3], [1, 2], [2, 1], [4, 4], [2, 5]]))
        cols.append(dict(n="S", k="mat", m=m, u=draw(st.sampled_from(UN)), c=draw(st.booleans())))
    return cols


@st.composite
def single(draw):
    n = draw(npts(1, 5))
    cols = draw(columns())
    su = draw(st.sampled_from(UN))
    sw = draw(distinct(-900, 900, n))
    return dict(cols=cols, su=su, sw=[k / 8.0 for k in sw], sname=draw(st.sampled_from(["freq", "Vx", "t", "_q"])), seed=draw(st.integers(0, 2 ** 30)),
                fmt=draw(st.sampled_from(["r", "e", "g", "pad", "E"])), eol=draw(st.sampled_from(["\n", "\r\n"])), deco=draw(st.booleans()), usp=draw(st.sampled_from([" ", ""])),
                shuf=draw(st.booleans()))


def fnum(v, how):
    if how == "pad":
        return " %r  " % v if v >= 0 else "%r " % v
    if how == "E":
        return "%+.13E" % v
    return "%.12e" % v if how == "e" else ("%d" % v if how == "g" and v == int(v) else repr(v))


def draw_order(rnd, x):
    rnd.shuffle(x)
    return x


def table(spec, rnd, n, tag=0):
    """header cells and per-column text/values; returns (names, list of columns of strings, expected dict)"""
    head, body, exp = [], [], {}
    u0 = lambda u: (spec["usp"] + "[%s]" % u) if u else ""
    sc = [1, 1, 1, 1e-13, 1e12][spec["seed"] // 4 % 5]
    ang = lambda: rnd.randrange(-4000, 4000) / 64.0
    val = lambda: ang() * sc

    def col(h, v):
        head.append(h)
        body.append([fnum(x, spec["fmt"]) for x in v])
    order = list(spec["cols"])
    for c in order:
        m = MUL.get(c["u"], 1)
        un = BASE.get(c["u"])
        nm = c["n"]
        if c["k"] == "re":
            v = [val() for _ in range(n)]
            col(nm + u0(c["u"]), v)
            exp[nm] = (np.array(v) * m, un, ())
        elif c["k"] == "int":
            v = [rnd.randrange(-50, 50) for _ in range(n)]
            head.append(nm + u0(c["u"]))
            body.append(["%d" % x for x in v])
            exp[nm] = (np.array(v) * m, un, ())
        elif c["k"] == "ri":
            a, b = [val() for _ in range(n)], [val() for _ in range(n)]
            col("Re(%s)" % nm + u0(c["u"]), a)
            col("Im(%s)" % nm + u0(c["u"]), b)
            exp[nm] = ((np.array(a) + 1j * np.array(b)) * m, un, ())
        elif c["k"] == "ma":
            a, b = [val() if spec["seed"] % 7 == 0 else abs(val()) for _ in range(n)], [ang() for _ in range(n)]
            col("Mag(%s)" % nm + u0(c["u"]), a)
            col("Arg(%s)" % nm, b)
            exp[nm] = (np.array(a) * np.exp(1j * np.radians(b)) * m, un, ())
        elif c["k"] == "clash":     # the name is taken: the parts stay as they are
            for h in draw_order(rnd, [nm, "Re(%s)" % nm, "Im(%s)" % nm]):
                v = [val() for _ in range(n)]
                u = c["u"] if h != nm or spec["seed"] % 2 else None
                col(h + u0(u), v)
                exp[h] = (np.array(v) * MUL.get(u, 1), BASE.get(u), ())
        elif c["k"] == "lone":      # one element is no matrix
            v = [val() for _ in range(n)]
            col("%s_q12" % nm + u0(c["u"]), v)
            exp["%s_q12" % nm] = (np.array(v) * m, un, ())
        elif c["k"] == "rep":
            k = [2, 3, 5, 11][spec['seed'] % 4]
            v = [[val() for _ in range(n)] for _ in range(k)]
            for x in v:
                col(nm + u0(c["u"]), x)
            exp[nm] = (np.array(v).T * m, un, ("rep%d" % k,))
        elif c["k"] == "rirep":
            k = [2, 3, 5, 11][spec['seed'] % 4]
            a = [[val() for _ in range(n)] for _ in range(k)]
            b = [[val() for _ in range(n)] for _ in range(k)]
            for x, y in zip(a, b):
                col("Re(%s)" % nm + u0(c["u"]), x)
                col("Im(%s)" % nm + u0(c["u"]), y)
            exp[nm] = ((np.array(a) + 1j * np.array(b)).T * m, un, ("rep%d" % k,))
        elif c["k"] == "txt":
            v = [rnd.choice(TEXT) for _ in range(n)]
            head.append(nm)
            body.append(v)
            exp[nm] = (np.array(v), None, ())
        elif c["k"] == "mat":
            I, J = c["m"]
            M = np.zeros((n, I, J), complex if c["c"] else float)
            el = [(i, j) for i in range(I) for j in range(J)]
            if spec["shuf"]:
                rnd.shuffle(el)
            for i, j in el:
                # whole numbers in some elements: precision must not depend on the first element
                a = [float(rnd.randrange(9)) if rnd.random() < .3 else val() for _ in range(n)]
                if rnd.random() < .3:
                    a = [float(int(x)) for x in a]
                if c["c"]:
                    b = [val() for _ in range(n)]
                    col("Re(S%d%d)" % (i + 1, j + 1) + u0(c["u"]), a)
                    col("Im(S%d%d)" % (i + 1, j + 1) + u0(c["u"]), b)
                    M[:, i, j] = np.array(a) + 1j * np.array(b)
                else:
                    col("S%d%d" % (i + 1, j + 1) + u0(c["u"]), a)
                    M[:, i, j] = a
            exp["S"] = (M * m, un, ("i", "j"))
    return head, body, exp


def block_text(spec, rnd, n, pre=(), com=None):
    head, body, exp = table(spec, rnd, n)
    L = []
    for c in com or ():
        L.append("!" + c)
    for nm, v in pre:
        L.append("!@%s=%s" % (nm, v))
    L.append("\t".join([spec["sname"] + ((spec["usp"] + "[%s]" % spec["su"]) if spec["su"] else "")] + head))
    for k in range(n):
        L.append("\t".join([fnum(spec["sw"][k], spec["fmt"])] + [b[k] for b in body]))
        if spec.get("deco") and rnd.random() < .2:
            L.append("")
    return L, exp


def check_var(r, nm, w, unit, tail, what):
    check(nm in r.vardata, "%s: %s missing, have %r", what, nm, r.vardata.keys())
    a = r[nm]
    coherent(a, nm)
    check(a.unit == unit, "%s: unit of %s is %r, expected %r", what, nm, a.unit, unit)
    if w.dtype.kind in "US":
        exact(a, w, what + " " + nm)
    else:
        same(a, w, rtol=1e-9, atol=1e-9 * max(1e-30, np.abs(w).max()), what=what + " " + nm)


@S.sub("parse_single", single(), quick=400)
def parse_single(spec, note):
    import random
    rnd = random.Random(spec["seed"])
    n = len(spec["sw"])
    com = rnd.choice([[], ["plain text", "Vds_s = 1.5", "T [C]: 23"], ["Power1=10.00 dBm", "Pw_x=2 mV"], ["full scale", "  indented text", "write a@b.se", "look out!", "Fullerene"]])
    L, exp = block_text(spec, rnd, n, com=com)
    with Tmp() as d:
        fn = put(d, "x.txt", spec["eol"].join(L) + spec["eol"])
        r = (read_data if spec["seed"] % 3 == 0 else read_spdata)(fn)
    m, un = MUL.get(spec["su"], 1), BASE.get(spec["su"])
    if un is None and spec["sname"] == "freq":
        un = "Hz"
    check(spec["sname"] in r.ivardata, "sweep missing: %r", r.ivardata.keys())
    dim = r.ivardata[spec["sname"]]
    same(dim.data, np.array(spec["sw"]) * m, rtol=1e-12, atol=0, what="sweep")
    check(dim.unit == un, "sweep unit %r, expected %r", dim.unit, un)
    guess = dict(Id="A")
    for nm, (w, u, tail) in exp.items():
        if n == 1 and tail and tail[0].startswith("rep"):
            same(np.asarray(r[nm]).ravel(), w.ravel(), rtol=1e-9, atol=1e-30, what=nm)
            continue
        check_var(r, nm, w, u or guess.get(nm), tail, "single")
        dd = r[nm].dims
        check(dd[0] == dim, "%s: first dim %r", nm, dd)
        if tail and tail[0].startswith("rep"):
            check(isinstance(dd[1], DimRep) and len(dd[1].data) == int(tail[0][3:]), "repetition dim %r", dd)
        elif tail:
            check(dd[-2].__class__ is DimMatrix_i and dd[-1].__class__ is DimMatrix_j, "matrix dims")
    props = {"plain text": {}, "Vds_s = 1.5": {"Vds_s": (1.5, None)}, "T [C]: 23": {"T": (23, "C")},
             "Power1=10.00 dBm": {"Power1": (10.0, "dBm")}, "Pw_x=2 mV": {"Pw_x": (2e-3, "V")}, "full scale": {}, "  indented text": {}, "write a@b.se": {}, "look out!": {}, "Fullerene": {}}
    want = {}
    for c in com:
        want.update(props[c])
    for k, (v, u) in want.items():
        check(k in r.vardata and r[k].shape == () and abs(float(r[k]) - v) <= 1e-12 * abs(v) and r[k].unit == u, "property %s: %r [%r]", k, r.get(k) if hasattr(r, "get") else None, k in r and r[k].unit)
    extra = set(r.vardata.keys()) - set(exp) - set(want) - {"FILENAME"}
    check(not extra, "unexpected variables %r", extra)
    check(list(r.comments.fullcomments) == com, "comments %r", r.comments.fullcomments)
    note.hit(*{c["k"] for c in spec["cols"]})
    note.nontrivial(n > 1 and len(exp) > 1)


@st.composite
def multi(draw):
    s = draw(single())
    s["cols"] = draw(columns(extra=False))
    npart = draw(st.integers(1, 2))
    parts = [dict(n=nm, d=[k / 4.0 for k in draw(distinct(-40, 40, draw(npts(1, 3, 20))))], u=draw(st.sampled_from([None, "V", "mV"])))
             for nm in ["Vgg", "Tx"][:npart]]
    s["parts"] = parts
    s["drop"] = draw(st.integers(0, 3)) == 0
    s["perm"] = draw(st.booleans())
    s["hyper"] = draw(st.booleans())
    s["comfirst"] = draw(st.booleans())
    return s


@S.sub("parse_multi", multi(), quick=350)
def parse_multi(spec, note):
    import random
    rnd = random.Random(spec["seed"])
    n = len(spec["sw"])
    pts = list(itertools.product(*[p["d"] for p in spec["parts"]]))
    if spec["perm"]:
        rnd.shuffle(pts)
    full = True
    if spec["drop"] and len(pts) > 3:
        pts = pts[:-1]
        full = len(pts) == np.prod([len({q[i] for q in pts}) for i in range(len(pts[0]))])
    if len(pts) < 2:
        return
    L, exps = [], []
    for k, pt in enumerate(pts):
        pre = [(p["n"] + (" [%s]" % p["u"] if p["u"] else ""), fnum(v, spec["fmt"])) for p, v in zip(spec["parts"], pt)]
        t, e = block_text(spec, rnd, n, pre=pre, com=["Oper: me"] if spec["comfirst"] and k == 0 else None)
        L += t + [""]
        exps.append(e)
    hyper = spec["hyper"]
    with Tmp() as d:
        fn = put(d, "x.txt", spec["eol"].join(L) + spec["eol"])
        if hyper and not full:
            e = raises(lambda: read_spdata(fn, hyper=True))
            check(e is not None, "an incomplete grid was made a full one")
            note.hit("incomplete")
            note.nontrivial()
            return
        r = read_spdata(fn, hyper=hyper)
    mp = {p["n"]: MUL.get(p["u"], 1) for p in spec["parts"]}
    up = {p["n"]: BASE.get(p["u"]) for p in spec["parts"]}
    sw = np.array(spec["sw"]) * MUL.get(spec["su"], 1)
    if spec["comfirst"]:
        check("Oper" in r and str(r.Oper) == "me", "comment property")
    # where each block ended up
    if hyper:
        note.hit("hyper")
        for nm in exps[0]:
            a = r[nm]
            coherent(a, nm)
            names = [x.name for x in a.dims]
            for k, pt in enumerate(pts):
                idx = []
                for x in a.dims:
                    if x.name in mp:
                        p = [q["n"] for q in spec["parts"]].index(x.name)
                        hit = np.flatnonzero(np.isclose(np.asarray(x.data), pt[p] * mp[x.name], rtol=1e-9, atol=1e-15))
                        check(len(hit) == 1, "%s: coordinate %r not in %r", x.name, pt[p], x.data)
                        check(x.unit == up[x.name], "unit of %s: %r", x.name, x.unit)
                        idx.append(int(hit[0]))
                    else:
                        idx.append(slice(None))
                for p in spec["parts"]:
                    check(p["n"] in names or len(p["d"]) == 1, "%s lost from %s: %r", p["n"], nm, names)
                compare(np.asarray(a)[tuple(idx)], exps[k][nm], nm, n)
            sweepcheck(a, spec, sw, n)
    else:
        note.hit("index")
        for p in spec["parts"]:
            check(p["n"] in r.vardata, "%s missing", p["n"])
            g = r[p["n"]]
            j = [q["n"] for q in spec["parts"]].index(p["n"])
            same(g, np.array([pt[j] for pt in pts]) * mp[p["n"]], rtol=1e-9, what=p["n"])
            check(g.unit == up[p["n"]], "unit of %s: %r", p["n"], g.unit)
        for nm in exps[0]:
            a = r[nm]
            coherent(a, nm)
            ax = [i for i, x in enumerate(a.dims) if x.name == r[spec["parts"][0]["n"]].dims[0].name]
            check(len(ax) == 1 and a.shape[ax[0]] == len(pts), "%s: no index dim: %r", nm, a.dims)
            for k in range(len(pts)):
                compare(np.asarray(a).take(k, axis=ax[0]), exps[k][nm], nm, n)
            sweepcheck(a, spec, sw, n)
    note.nontrivial()


def compare(got, e, nm, n):
    w = e[0]
    if n == 1 and got.shape != w.shape:
        w = w.reshape([s for s in w.shape[1:]] if got.ndim == w.ndim - 1 else got.shape)
    w = w.reshape(got.shape) if w.size == got.size and min(w.shape + (9,)) == 1 else w
    same(got, w, rtol=1e-9, atol=1e-9 * max(1e-30, np.abs(w).max()), what=nm)


def sweepcheck(a, spec, sw, n):
    names = [x.name for x in a.dims]
    if n > 1:
        check(spec["sname"] in names, "sweep lost: %r", names)
        same(a.dims[names.index(spec["sname"])].data, sw, rtol=1e-12, atol=0, what="sweep")


@st.composite
def blk(draw):
    k = draw(st.integers(1, 3))
    dims = []
    for nm in draw(st.permutations(["freq", "Vq", "x", "pow"]))[:k]:
        kind = draw(st.sampled_from("if"))
        dims.append(dict(n=nm, c="S", k=kind, u=draw(st.sampled_from([None, "V", "Hz", "dBm"])), f=None, d=draw(dim_data(draw(st.integers(1, 4)), kind))))
    dims = draw(enlarge(dims, 120))
    vs = []
    for i in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from("fcif"))
        mat = draw(st.sampled_from([None, None, None, [2, 2], [2, 2], [3, 3], [4, 4], [5, 2]]))
        lead = draw(st.booleans()) and draw(st.booleans())
        vs.append(dict(n="v" + "abcd"[i], t=t, mat=mat, u=draw(st.sampled_from([None, "V", "A", "dBm"])), lead=bool(lead), f=draw(st.sampled_from([None, None, "%25.17e", "%-28.17e", "%3.17e"])), base=draw(st.sampled_from([0, 1]))))
    if all(v["lead"] for v in vs):
        vs[0]["lead"] = False
    sc = [[nm, draw(st.one_of(num, st.integers(-9, 9), st.sampled_from(TEXT[:5]), st.sampled_from(["@2010-10-10T08:09:10", "@1999-12-31T23:59:59"]))), draw(st.sampled_from([None, "V"]))] for nm in draw(st.lists(st.sampled_from(["Tamb", "Lot"]), unique=True, max_size=2))]
    return dict(dims=dims, vs=vs, scal=sc, hyper=draw(st.booleans()), com=draw(st.sampled_from([None, ["plain"], ["Hej_x=10", "txt"], ["  indented", "look out!", "full of a@b.se", "50 % of it"]])), enc=draw(st.sampled_from([None, None, "utf-8", "latin-1"])), fobj=draw(st.booleans()),
                dang=draw(st.sampled_from([None, None, [1.5, 2.5, 4.0], [7.0]])),
                scale=draw(st.sampled_from([1.0, 1.0, 1e-17, 1e9 / 7, -1e40])))


@S.sub("roundtrip", blk(), quick=350)
def roundtrip(spec, note):
    dims = [mkdim(d) for d in spec["dims"]]
    db = DataBlock()
    if spec["com"] is not None:
        spec["com"] = [c + (" \xe5\xb5" if spec["enc"] else "") for c in spec["com"]]
        db.comments = Comments(list(spec["com"]))
    vals = {}
    for q, v in enumerate(spec["vs"]):
        dd = dims[:1] if v["lead"] else list(dims)
        sh = tuple(len(d.data) for d in dd)
        if v["mat"]:
            dd += [DimMatrix_i("i", v["mat"][0]), DimMatrix_j("j", v["mat"][1])]
            sh += tuple(v["mat"])
        n = int(np.prod(sh))
        a = (np.arange(n) * 7 % 31 - 11 + q).reshape(sh)
        if v["t"] == "f":
            a = a / 3.0 * spec["scale"]
        elif v["t"] == "c":
            a = (a / 3.0 + 1j * (a[::-1] if a.ndim else a)) * spec["scale"]
        vals[v["n"]] = a
        db[v["n"]] = hfarray(lay(a.copy()), dims=tuple(dd), unit=v["u"])
        if v["f"] and v["t"] != "i":
            db[v["n"]].outputformat = v["f"]
    for nm, v, u in spec["scal"]:
        if str(v)[0] == "@":
            db[nm] = hfarray(np.datetime64(v[1:]))
            continue
        db[nm] = hfarray(v, unit=None if isinstance(v, str) else u)
    if spec.get("dang"):   # a sweep no variable uses
        db["dang"] = DimSweep("dang", spec["dang"], unit="K")
        if spec["hyper"]:
            db["Dang2"] = DimSweep("Dang2", spec["dang"][::-1] + [9.0], unit="s")
    with Tmp() as d:
        fn = d + "/a.txt"
        if spec["fobj"]:
            with open(fn, "w", encoding=spec["enc"] or "cp1252") as fh:
                save_spdata(db, fh)
                at = fh.tell()
                fh.seek(0, 2)
                check(at == fh.tell(), "saving to an open file left it at %d of %d", at, fh.tell())
        elif spec["enc"]:
            save_spdata(db, fn, encoding=spec["enc"])
        else:
            save_spdata(db, fn)
        for k, w in vals.items():
            exact(db[k], w, "saved block unchanged: " + k)
        r = read_spdata(fn, hyper=spec["hyper"], **(dict(encoding=spec["enc"]) if spec["enc"] else {}))
    nblk = int(np.prod([len(x.data) for x in dims[1:]])) if len(dims) > 1 else 1
    part = [x.name for x in dims[1:]]
    for v in spec["vs"]:
        nm = v["n"]
        check(nm in r.vardata, "variable %s lost", nm)
        a = r[nm]
        coherent(a, nm)
        check(a.unit == v["u"], "%s: unit %r", nm, a.unit)
        own = dims[:1] if v["lead"] else dims
        # value at every point
        names = [x.name for x in a.dims]
        for p in itertools.product(*[range(len(x.data)) for x in own]):
            idx = []
            for x in a.dims:
                if x.name in ("i", "j"):
                    idx.append(slice(None))
                elif x.name.startswith("INDEX"):
                    pos = [k for k in range(len(x.data)) if all(np.asarray(r[z.name])[k] == z.data[pp] for z, pp in zip(own[1:], p[1:]))]
                    check(len(pos) == 1, "INDEX: point %r found %d times", p, len(pos))
                    idx.append(pos[0])
                else:
                    z = [k for k, y in enumerate(own) if y.name == x.name]
                    check(len(z) == 1, "%s has foreign dim %s", nm, x.name)
                    pos = np.flatnonzero(np.asarray(x.data) == own[z[0]].data[p[z[0]]])
                    check(len(pos) == 1, "%s: coordinate %r not in %r", x.name, own[z[0]].data[p[z[0]]], x.data)
                    idx.append(int(pos[0]))
            exact(np.asarray(a)[tuple(idx)], vals[nm][p], "%s at %r" % (nm, p))
        for x in own:
            if len(x.data) > 1:
                check(x.name in names or (any(z.startswith("INDEX") for z in names) and x.name in part), "%s: dim %s lost: %r", nm, x.name, names)
        for x in a.dims:
            for y in dims:
                if x.name == y.name and not (x.name == "freq" and y.unit is None):
                    check(x.unit == y.unit, "unit of %s: %r, expected %r", x.name, x.unit, y.unit)
    for nm, v, u in spec["scal"]:
        check(nm in r.vardata and r[nm].shape == (), "scalar %s lost", nm)
        if str(v)[0] == "@":
            check(np.asarray(r[nm])[()] == np.datetime64(v[1:]), "time %s: %r, expected %s", nm, r[nm], v)
            continue
        check(r[nm].item() == v, "scalar %s: %r, expected %r", nm, r[nm], v)
        check(isinstance(v, str) or r[nm].unit == u, "scalar %s unit %r", nm, r[nm].unit)
    if spec.get("dang"):
        x = r["dang"]
        same(np.array(x.data if hasattr(x, "name") else x).ravel(), spec["dang"], what="unused sweep")
        check(x.unit == "K", "unit of unused sweep %r", x.unit)
        if spec["hyper"]:
            check("Dang2" in r, "second unused sweep lost")
            x = r["Dang2"]
            same(np.array(x.data if hasattr(x, "name") else x).ravel(), spec["dang"][::-1] + [9.0], what="second unused sweep")
            check(x.unit == "s", "unit of unused sweep %r", x.unit)
    if spec["com"]:
        check(list(r.comments.fullcomments)[:len(spec["com"])] == spec["com"], "comments")
    note.hit("dims%d" % len(dims), "blocks>1" if nblk > 1 else "one block")
    note.nontrivial(len(vals) > 1 and max(len(x.data) for x in dims) > 1)


BAD = ["shortrow", "longrow", "header_short", "noheader", "endcomment", "endheader", "difffreq", "diffname", "empty"]


@S.sub("reject", st.tuples(multi(), st.sampled_from(BAD)).map(list), quick=250)
def reject(arg, note):
    import random
    spec, b = arg
    rnd = random.Random(spec["seed"])
    spec = dict(spec, deco=False)
    n = len(spec["sw"])
    L, exp = block_text(spec, rnd, n, com=["Lot_a: A"])
    k = 2 + spec["seed"] % n     # a data row
    if b == "shortrow":
        L[k] = L[k].rsplit("\t", 1)[0]
    elif b == "longrow":
        L[k] += "\t3.5"
    elif b == "header_short":
        L[1] = L[1].rsplit("\t", 1)[0]
    elif b == "noheader":
        del L[1]
    elif b == "endcomment":
        L.append("!last")
    elif b == "endheader":
        L.append(L[1])
    elif b == "difffreq":
        sw2 = [x + 1.0 + abs(x) for x in spec["sw"]]
        if spec["seed"] % 3:       # only one point differs
            q = spec["seed"] // 3 % n
            sw2 = spec["sw"][:q] + [spec["sw"][q] + 0.0625] + spec["sw"][q + 1:]
        L2, _ = block_text(dict(spec, sw=sw2), rnd, n, com=["@Vz=1.0"])
        L = ["!@Vz=2.0"] + L[1:] + L2
    elif b == "diffname":
        L2, _ = block_text(dict(spec, sname="Other_s"), rnd, n, com=["@Vz=1.0"])
        L = ["!@Vz=2.0"] + L[1:] + L2
    elif b == "empty":
        L = L[:1] if spec["seed"] % 2 else []
    with Tmp() as d:
        fn = put(d, "x.txt", "\n".join(L) + "\n")
        e = raises(lambda: read_spdata(fn))
    check(e is not None, "malformed file (%s) was read without an error:\n%s", b, "\n".join(L))
    note.hit(b)
    note.nontrivial()


S.sub("long", longf.spec(), quick=24, thorough=200)(longf.long_check("spdata", read_spdata, save_spdata))
