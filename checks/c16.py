"""C16: MDIF files read as written, and saved blocks read back the same."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib import longf
from vlib.files import Tmp, put
from hftools.file_formats import read_mdif, save_mdif, read_data

S = Suite("C16", rule="generated MDIF text: 1-3 block names, 1-4 blocks each with swept VARs, attributes, one- or two-line records, real / integer / "
          "complex / string columns, matrices and vectors in [i,j] notation; blocks over 1-3 sweeps with matrices and per-block attributes saved and read back; "
          "non-trivial: >= 2 blocks or >= 2 value columns with >= 2 points",
          assumptions=["blocks of the same name have the same columns, swept over the same points", "the vectors of a block are as long as the rows of its matrices (they share the dimension j)"])

num = st.integers(-4000, 4000).map(lambda k: k / 64.0)


@st.composite
def case(draw):
    kinds = []
    for bn in draw(st.lists(st.sampled_from(["SP", "HB1.x", "Spar", "dc_data", "my block"]), min_size=1, max_size=2, unique=True) |
                   st.lists(st.sampled_from(["SP", "HB1.x", "Spar", "dc_data", "my block", "z", "Q1", "sp"]), min_size=4, max_size=7, unique=True)):
        cols = []
        for nm in draw(st.lists(st.sampled_from(["Id", "pout", "beta", "HB.qq", "s_x"]), min_size=1, max_size=4, unique=True)):
            cols.append([nm, draw(st.sampled_from(["real", "complex", "integer", "string", "real"]))])
        mat = draw(st.sampled_from([None, None, None, [2, 2], [2, 2], [3, 3], [1, 2], [2, 3], [1, 11], [12, 2], [10, 10]]))
        vec = draw(st.sampled_from([None, None, None, None, 2, 3, 12]))
        if mat and vec:  # both use the dimension j
            vec = mat[1]
        kinds.append(dict(bn=bn, cols=cols, mat=mat, mt=draw(st.sampled_from(["real", "complex"])), vec=vec, nb=draw(npts(1, 4, 15)),
                          n=draw(npts(1, 4)), vars=draw(st.lists(st.sampled_from(["VG", "T1", "SWEEP.vd", "SWEEP.dc.vx", "Vds"]), max_size=2, unique=True)),
                          att=draw(st.lists(st.sampled_from(["Bias", "tmp", "SWEEP.dc.at"]), max_size=2, unique=True)), sweep=draw(st.sampled_from(["freq", "SWEEP.pin", "sweep.pin", "x", "SWEEP.dc.pin", "hb.pin"])), part=draw(st.sampled_from([[], [], ["W[2]", "W[3]"], ["Q[1,1]", "Q[1,3]"], ["Q[2,1]", "Q[2,2]"]])),
                          shuf=draw(st.booleans()), big=draw(st.integers(0, 3)) == 0))
    return dict(kinds=kinds, seed=draw(st.integers(0, 2 ** 30)), mix=draw(st.booleans()), two=draw(st.integers(0, 3)) == 0, deco=draw(st.booleans()),
                eol=draw(st.sampled_from(["\n", "\r\n"])), sep=draw(st.sampled_from(["\t", " ", "  "])), tail=draw(st.booleans()))


def gen(spec, rnd):
    """-> text, expected {blockname: list of dicts}"""
    val = lambda: rnd.randrange(-4000, 4000) / 64.0
    blocks, exp = [], {}
    for K in spec["kinds"]:
        heads = [(nm, t, ("s", nm)) for nm, t in K["cols"]]
        if K["mat"]:
            el = [(i, j) for i in range(K["mat"][0]) for j in range(K["mat"][1])]
            if K["shuf"]:
                rnd.shuffle(el)
            heads += [("S[%d,%d]" % (i + 1, j + 1), K["mt"], ("m", i, j)) for i, j in el]
        if K["vec"]:
            vi = list(range(K["vec"]))
            if K["shuf"]:
                rnd.shuffle(vi)
            heads += [("V[%d]" % (i + 1), "real", ("v", i)) for i in vi]
        heads += [(nm, "real", ("s", nm)) for nm in K["part"]]     # not a whole matrix or vector: stay as they are
        if K["shuf"]:
            rnd.shuffle(heads)
        K["order"] = heads
        sw = sorted(rnd.sample(range(-200, 200), K["n"]))
        exp[K["bn"]] = []
        for b in range(K["nb"]):
            L = []
            e = dict(vars={}, att={}, cols={})
            for v in K["vars"]:
                x = val() * rnd.choice([1, 1, 1e12, 1e-13])
                e["vars"][v.replace("SWEEP.", "")] = x
                L.append("VAR %s(real) = %s" % (v, rnd.choice([repr(x), "%.15e" % x])))
            L.append("BEGIN " + K["bn"])
            for v in K["att"]:
                x = val()
                e["att"][v.replace("SWEEP.", "")] = x
                L.append("# %s(real) = %r" % (v, x))
            cut = rnd.randrange(1, len(heads)) if spec["two"] and len(heads) > 1 else len(heads)
            h = ["%s(%s)" % (nm, t) for nm, t, _ in heads]
            L.append("% " + " ".join(["%s(real)" % K["sweep"]] + h[:cut]))
            if cut < len(h):
                L.append("% " + " ".join(h[cut:]))
            for nm, t, where in heads:
                v = []
                sc = rnd.choice([1, 1, 1, 1e-13, 1e12])
                for k in range(K["n"]):
                    v.append({"real": lambda: val() * sc, "integer": lambda: rnd.randrange(-99, 99) if not K.get("big") else rnd.randrange(-2 ** 60, 2 ** 60), "complex": lambda: complex(val(), val()) * sc,
                              "string": lambda: rnd.choice(["abc", "W7", "on-off", "'q'", "17", "1e3", "a" * 40, "\u20ac\xe5", "x=(1)"])}[t]())
                e["cols"][where] = v
            for k in range(K["n"]):
                toks = [[repr(sw[k] / 8.0)]]
                for nm, t, where in heads:
                    v = e["cols"][where][k]
                    toks.append([repr(v.real), repr(v.imag)] if t == "complex" else ['"%s"' % v] if t == "string" and rnd.random() < .5 else [str(v)])
                L.append(" " * rnd.randrange(2) + spec["sep"].join(sum(toks[:cut + 1], [])))
                if cut < len(h):
                    L.append(spec["sep"].join(sum(toks[cut + 1:], [])))
            L.append("END")
            e["sw"] = np.array(sw) / 8.0
            exp[K["bn"]].append(e)
            e["com"] = []
            blocks.append((K["bn"], L, e["com"]))
    if spec["mix"]:
        order = list(range(len(blocks)))
        rnd.shuffle(order)
        nb = [blocks[i] for i in order]
        exp = {bn: [exp[bn][[q for q in range(len(blocks)) if blocks[q][0] == bn].index(i)] for i in order if blocks[i][0] == bn] for bn in exp}
        blocks = nb
    out = []
    for bn, L, com in blocks:
        if spec["deco"] and rnd.random() < .6:
            out.append(rnd.choice(["", "! a comment \xe5 \u20ac", "!1 2 3", "!x y z  "]))
            if out[-1]:
                com.append(out[-1][1:].strip())
        out += L
        if spec["deco"] and rnd.random() < .5:
            out.append("")
    if spec["tail"]:
        out.append("! trailing comment")
    return spec["eol"].join(out) + spec["eol"], exp


@S.sub("parse", case(), quick=400)
def parse(spec, note):
    import random
    txt, exp = gen(spec, random.Random(spec["seed"]))
    with Tmp() as d:
        fn = put(d, "x.mdif", txt, "cp1252")
        pick = spec["kinds"][0]["bn"]
        anyvar = any(K["vars"] for K in spec["kinds"])
        if spec["seed"] % 3 == 0:
            r = read_data(fn, verbose=False)
            note.hit("read_data")
        else:
            r = read_mdif(fn, verbose=False)
        one = read_mdif(fn, verbose=False, blockname=pick)
        bad = raises(lambda: read_mdif(fn, verbose=False, blockname="no such block"))
    check(bad is not None, "a missing block was not reported")
    check(set(r) == set(exp), "blocks %r, expected %r", sorted(r), sorted(exp))
    for K in spec["kinds"]:
        for db in [r[K["bn"]]] + ([one] if K["bn"] == pick else []):
            verify(db, K, exp[K["bn"]])
    note.hit("two-line" if spec["two"] else "one-line", "kinds%d" % len(spec["kinds"]))
    note.nontrivial(any(K["nb"] > 1 for K in spec["kinds"]) or any(K["n"] > 1 and len(K["cols"]) > 1 for K in spec["kinds"]))


def stable(lst):
    return sorted(set(lst), key=lst.index)


def verify(db, K, exps):
    nb = len(exps)
    sname = K["sweep"].replace("SWEEP.", "").replace("sweep.", "")
    names = {}
    for nm in [nm for nm, t in K["cols"]] + K["part"]:
        names[nm] = [np.array(e["cols"]["s", nm]) for e in exps]
    if K["mat"]:
        I, J = K["mat"]
        names["S"] = [np.array([[e["cols"]["m", i, j] for j in range(J)] for i in range(I)]).transpose(2, 0, 1) for e in exps]
    if K["vec"]:
        names["V"] = [np.array([e["cols"]["v", i] for i in range(K["vec"])]).T for e in exps]
    for nm, w in names.items():
        check(nm in db.vardata, "%s missing: %r", nm, db.vardata.keys())
        a = db[nm]
        coherent(a, nm)
        w = w[0] if nb == 1 else np.stack(w, axis=1)
        if w.dtype.kind in "USi":
            exact(a, w, nm)
        else:
            same(a, w, rtol=1e-12, atol=0, what=nm)
        dn = [x.name for x in a.dims]
        check(dn[0] == sname, "%s dims %r", nm, dn)
        same(a.dims[0].data, exps[0]["sw"], what="sweep")
        if nm == "S" and K["mat"]:
            check(a.dims[-2].__class__ is DimMatrix_i and a.dims[-1].__class__ is DimMatrix_j, "matrix dims %r", a.dims)
    extra = set(db.vardata) - set(names) - set(exps[0]["vars"]) - set(exps[0]["att"]) - {"FILENAME", "FILEINDEX"}
    check(not extra, "unexpected variables %r", extra)
    check(list(db.comments.fullcomments) == sum([e["com"] for e in exps], []), "comments %r, expected %r", db.comments.fullcomments, [e["com"] for e in exps])
    order = stable([{"m": "S", "v": "V"}.get(where[0], nm) for nm, t, where in K["order"]])
    check([x for x in db.vardata if x in order] == order, "variables in the order %r, the file has %r", list(db.vardata), order)
    for kind in ("vars", "att"):
        for nm in exps[0][kind]:
            w = [e[kind][nm] for e in exps]
            if nb == 1:
                g = np.asarray(db[nm]).ravel()
                same(g, w, rtol=1e-13, atol=0, what=nm)
            else:
                same(db[nm], w, rtol=1e-13, atol=0, what=nm)
            if nm == "Vds":
                check(db[nm].unit == "V", "unit of Vds: %r", db[nm].unit)


@st.composite
def blk(draw):
    k = draw(st.integers(1, 3))
    dims = []
    for nm in draw(st.permutations(["freq", "Vq", "x", "pow"]))[:k]:
        kind = draw(st.sampled_from("if"))
        dims.append(dict(n=nm, c="S", k=kind, u=None, f=None, d=draw(dim_data(draw(st.integers(1, 4)), kind))))
    dims = draw(enlarge(dims, 60))
    vs = [dict(n="v" + "abcd"[i], t=draw(st.sampled_from("fcif")), mat=draw(st.sampled_from([0, 0, 2, 3, 4])), att=i > 0 and draw(st.integers(0, 2)) == 0,
               fmt=draw(st.sampled_from([None, None, "%.12e"]))) for i in range(draw(st.integers(1, 4)))]
    return dict(dims=dims, vs=vs, name=draw(st.sampled_from([None, "blk", "A.SP", "my data"])), file=draw(st.booleans()), rd=draw(st.booleans()))


@S.sub("roundtrip", blk(), quick=300)
def roundtrip(spec, note):
    dims = [mkdim(d) for d in spec["dims"]]
    db = DataBlock()
    db.blockname = spec["name"]
    vals = {}
    for q, v in enumerate(spec["vs"]):
        dd = list(dims[1:]) if v["att"] else list(dims)
        sh = tuple(len(d.data) for d in dd)
        t = "f" if v["att"] and v["t"] == "c" else v["t"]
        if v["mat"] and not v["att"]:
            mdim = [x["mat"] for x in spec["vs"] if x["mat"]][0]      # one dim i in a block
            dd += [DimMatrix_i("i", mdim), DimMatrix_j("j", mdim)]
            sh += (mdim, mdim)
        n = int(np.prod(sh, dtype=int))
        a = (np.arange(n) * 7 % 31 - 11 + q).reshape(sh)
        if t == "f":
            a = a / 3.0
        elif t == "c":
            a = a / 3.0 + 1j * (a[::-1] if a.ndim else a) / 7.0
        vals[v["n"]] = (a, dd)
        db[v["n"]] = hfarray(lay(a.copy()), dims=tuple(dd), outputformat=v["fmt"] if t != "i" else None)
    if spec["file"]:
        db["FILENAME"] = hfarray("a.txt")
    with Tmp() as d:
        fn = d + "/a.mdif"
        save_mdif(db, fn)
        for k, (w, _) in vals.items():
            exact(db[k], w, "saved block unchanged: " + k)
        r = read_data(fn, verbose=False) if spec["rd"] else read_mdif(fn, verbose=False)
    nm = spec["name"] or ("DATABLOCK" if not spec["file"] else None)
    check(len(r) == 1 and (nm is None or nm in r), "block names %r, expected %r", list(r), nm)
    r = list(r.values())[0]
    for nm, (w, dd) in vals.items():
        check(nm in r.vardata, "%s lost: %r", nm, r.vardata.keys())
        a = r[nm]
        coherent(a, nm)
        own = [x for x in dd if x.name not in ("i", "j")]
        for p in itertools.product(*[range(len(x.data)) for x in own]):
            idx = []
            for x in a.dims:
                if x.name in ("i", "j"):
                    idx.append(slice(None))
                elif x.name == "INDEX":
                    ps = dict(zip([z.name for z in own], p))
                    pos = [k for k in range(len(x.data)) if all(np.asarray(r[z.name])[k] == z.data[ps[z.name]] for z in dims[1:])]
                    check(len(pos) == 1, "point %r found %d times", p, len(pos))
                    idx.append(pos[0])
                else:
                    z = [k for k, y in enumerate(own) if y.name == x.name]
                    check(len(z) == 1, "%s has foreign dim %s", nm, x.name)
                    pos = np.flatnonzero(np.asarray(x.data) == own[z[0]].data[p[z[0]]])
                    check(len(pos) == 1, "coordinate not found")
                    idx.append(int(pos[0]))
            same(np.asarray(a)[tuple(idx)], w[p], rtol=1e-11, atol=0, what="%s at %r" % (nm, p))
    note.hit("dims%d" % len(dims), *["att" for v in spec["vs"] if v["att"]][:1])
    note.nontrivial(len(vals) > 1 and max(len(x.data) for x in dims) > 1)


BAD = ["noend", "nobegin", "short", "badtype", "notnum", "cut", "difffreq", "vartype", "nofile", "missingcol", "halfrecord"]


@S.sub("reject", st.tuples(case(), st.sampled_from(BAD)).map(list), quick=200)
def reject(arg, note):
    import random
    spec, b = arg
    spec = dict(spec, deco=False, tail=False, two=False, mix=False)
    txt, exp = gen(spec, random.Random(spec["seed"]))
    L = txt.split(spec["eol"])[:-1]
    rows = [i for i, l in enumerate(L) if l[:1] in "0123456789- " and l.strip()]
    k = rows[spec["seed"] % len(rows)]

    def pickline(pred):
        c = [i for i, l in enumerate(L) if pred(l)]
        return c[spec["seed"] % len(c)] if c else None
    if b == "noend":
        del L[pickline(lambda l: l == "END")]
    elif b == "nobegin":
        del L[pickline(lambda l: l.startswith("BEGIN"))]
    elif b == "short":
        L[k] = L[k].rstrip().rsplit(None, 1)[0]
    elif b == "badtype":
        i = pickline(lambda l: l.startswith("%"))
        L[i] = L[i].replace("(real)", "(reel)", 1)
    elif b == "notnum":
        w = L[k].split()
        w[0] = "x" + w[0] if False else "1.2.3"
        L[k] = " ".join(w)
    elif b == "cut":
        i = pickline(lambda l: l != "END")
        if i == 0:
            i = 1 if L[0] != "END" else 0
        L = L[:i]
        if L and L[-1] == "END" or not L:
            return
    elif b == "difffreq":
        K = spec["kinds"][0]
        if K["nb"] < 2:
            return
        k = rows[spec["seed"] % (K["nb"] * K["n"])]   # the blocks of the first kind come first
        w = L[k].split()
        w[0] = "7777.5" if spec["seed"] % 3 else repr(float(w[0]) + 0.0625)
        L[k] = " ".join(w)
    elif b == "vartype":
        i = pickline(lambda l: l.startswith("VAR"))
        if i is None:
            return
        L[i] = L[i].replace("(real)", "(foo)")
    elif b == "halfrecord":     # the last record of a block lacks its second line
        L = ["BEGIN B1", "% x(real) a(real)", "% b(real)"] + sum([["%d %d" % (k, k + 3), "%d" % -k] for k in range(1 + spec["seed"] % 4)], [])[:-1] + ["END"]
    elif b == "missingcol":
        # a column that some but not all blocks have (in one block only it would be taken as not swept)
        nb, lose = 3 + spec["seed"] % 2, spec["seed"] // 2 % 3
        L = []
        for q in range(nb):
            c = q != [0, 1, nb - 1][lose]
            L += ["VAR V1(real) = %d" % q, "BEGIN B1", "% x(real) a(real)" + (" b(real)" if c else "")]
            L += ["%d %d" % (k, q + k) + (" %d" % (k - q) if c else "") for k in range(1 + spec["seed"] % 3)] + ["END"]
    with Tmp() as d:
        fn = put(d, "x.mdif", "\n".join(L) + "\n", "cp1252")
        if b == "nofile":
            fn += "_missing"
        e = raises(lambda: read_mdif(fn, verbose=False))
    check(e is not None, "malformed file (%s) was read without an error:\n%s", b, "\n".join(L))
    note.hit(b)
    note.nontrivial()


S.sub("long", longf.spec(), quick=24, thorough=200)(longf.long_check("mdif", read_mdif, save_mdif))
