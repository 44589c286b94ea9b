"""C19: read_data picks the right reader, and reading many files gives each file's data under its own name."""
import os
import contextlib
import random
import shutil
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp, put
from hftools.file_formats import read_data, read_touchstone, read_citi, read_spdata, read_mdif, read_hdf5, read_to_cache, read_from_cache, save_hdf5
from hftools.file_formats import merge_blocks
from hftools.dataset import DataBlock, DimSweep, DimPartial
from hftools.dataset.comments import Comments
from checks import c12, c14, c15, c16, c17

S = Suite("C19", rule="files of every format generated as in C12-C17 under arbitrary (also misleading) names; sets of 1-5 (now and then 15) Touchstone / CITI / column / MDIF files with numbered "
          "names read by pattern, list or list of patterns, each with its own values and properties; histories of cached reads with changing files, rereads and failing "
          "bodies against a model of the cache; 2-130 blocks merged directly (also of mixed types, text and time sweeps, or refused for a differing sweep); non-trivial: >= 2 files or blocks, or a non-default name, or >= 2 cache steps",
          assumptions=["every file of a set holds one block", "cached files hold numbers or text (version 0.2 HDF5 keeps no comments)"])

NAMES = ["x.txt", "x.s2p", "x.citi", "a b.dat", "noext", "x.mdif", "x.hdf5", "\xe5.S1P", "x.tar.gz"]


def samedb(a, b, what):
    check(list(a.vardata) == list(b.vardata), "%s: variables %r / %r", what, list(a.vardata), list(b.vardata))
    check(list(a.ivardata) == list(b.ivardata), "%s: swept variables %r / %r", what, list(a.ivardata), list(b.ivardata))
    for k in a.vardata:
        exact(a[k], b[k], what + " " + k)
        samedims(a[k].dims, b[k].dims, what + " " + k)
        check(a[k].unit == b[k].unit and a[k].dtype == b[k].dtype, "%s: unit/type of %s", what, k)
    check(list(a.comments.fullcomments) == list(b.comments.fullcomments), "%s: comments", what)


@st.composite
def anyfile(draw):
    f = draw(st.sampled_from(["ts", "citi", "sp", "mdif", "hdf5"]))
    g = dict(ts=c12.case(), citi=c14.case(), sp=c15.single(), mdif=c16.case(), hdf5=c17.block())[f]
    return dict(f=f, s=draw(g), name=draw(st.sampled_from(NAMES)), kw=draw(st.booleans()))


@S.sub("detect", anyfile(), quick=250)
def detect(spec, note):
    s, f = spec["s"], spec["f"]
    rnd = random.Random(s.get("seed", 0))
    kw = dict(property_to_vars=False, guess_unit=False) if spec["kw"] and f != "hdf5" else {}
    with Tmp() as d:
        fn = os.path.join(d, spec["name"])
        if f == "ts":
            t = c12.text(s, rnd)
            put(d, spec["name"], t if isinstance(t, str) else t[0])
            rd = read_touchstone
        elif f == "citi":
            put(d, spec["name"], c14.text(s, rnd)[0])
            rd = read_citi
        elif f == "sp":
            L, _ = c15.block_text(s, rnd, len(s["sw"]), com=["plain text", "Vds_s = 1.5"])
            put(d, spec["name"], s["eol"].join(L) + s["eol"])
            rd = read_spdata
        elif f == "mdif":
            put(d, spec["name"], c16.gen(s, rnd)[0], "cp1252")
            rd = lambda fn, **kw: read_mdif(fn, verbose=False, **kw)
        else:
            db, vals, _ = c17.build(s)
            save_hdf5(db, fn)
            rd = read_hdf5
        want = rd(fn, **kw)
        got = read_data(fn, verbose=False, **kw)
        lst = read_data([fn], verbose=False, **kw) if f not in ("hdf5",) else got
    if f == "mdif":
        check(set(got) == set(want) == set(lst), "blocks %r", list(got))
        for k in want:
            samedb(got[k], want[k], "mdif %s" % k)
            samedb(lst[k], want[k], "mdif list %s" % k)
    else:
        samedb(got, want, f)
        samedb(lst, want, f + " list")
    note.hit(f)
    note.nontrivial(spec["name"] != "x.txt")


@st.composite
def fileset(draw):
    n = draw(npts(1, 5, 15))
    nums = draw(distinct(0, 120, n))
    return dict(f=draw(st.sampled_from(["ts", "sp", "citi", "mdif", "sp"])), nums=nums, nf=draw(npts(1, 4, 70)), how=draw(st.sampled_from(["glob", "list", "globs"])),
                pre=draw(st.sampled_from(["m", "run_", "A1x", "2w ", " v", "w  x"])), seed=draw(st.integers(0, 2 ** 30)), port=draw(st.integers(1, 3)), rd=draw(st.booleans()),
                pad=draw(st.booleans()), extra=draw(st.booleans()), fs=draw(st.sampled_from([1.0, 1.0, 1e9, 1e-13])))


def one(spec, k, fr, rnd):
    """-> text, {name: value array with sweep first}, {name: scalar}"""
    nf = len(fr)
    val = lambda: rnd.randrange(-4000, 4000) / 64.0
    if spec["f"] == "ts":
        p = spec["port"]
        M = np.array([[[complex(val(), val()) for _ in range(p)] for _ in range(p)] for _ in range(nf)])
        L = ["# HZ S RI R 50"]
        for q in range(nf):
            for i in range(p) if p > 2 else [None]:
                row = M[q].T.ravel() if p == 2 else M[q].ravel() if i is None else M[q][i]
                L.append(" ".join((["%r" % fr[q]] if not i else []) + ["%r %r" % (z.real, z.imag) for z in row]))
        return "\n".join(L) + "\n", {"S": M}, {}
    if spec["f"] == "citi":
        a = np.array([complex(val(), val()) for _ in range(nf)])
        b = np.array([val() for _ in range(nf)])
        L = ["CITIFILE A.01.00", "NAME DATA", "VAR freq MAG %d" % nf, "DATA q RI", "DATA w MAG", "VAR_LIST_BEGIN"] + [repr(x) for x in fr] + ["VAR_LIST_END"]
        L += ["BEGIN"] + ["%r,%r" % (z.real, z.imag) for z in a] + ["END", "BEGIN"] + [repr(x) for x in b] + ["END"]
        return "\n".join(L) + "\n", {"q": a, "w": b}, {}
    if spec["f"] == "mdif":
        a = np.array([complex(val(), val()) for _ in range(nf)])
        b = np.array([val() for _ in range(nf)])
        v, w = val(), val()
        L = ["VAR SWEEP.Vq(real) = %r" % v, "BEGIN blk", "# att(real) = %r" % w, "% freq(real) q(complex) w(real)"]
        L += ["%r %r %r %r" % (fr[k], a[k].real, a[k].imag, b[k]) for k in range(nf)] + ["END"]
        return "\n".join(L) + "\n", {"q": a, "w": b}, {"Vq": v, "att": w}
    a = np.array([val() for _ in range(nf)])
    b = np.array([float(rnd.randrange(9)) for _ in range(nf)])
    z = np.array([complex(val(), val()) for _ in range(nf)])
    v = val()
    L = ["!Vq=%r" % v] if spec["extra"] else []
    L += ["freq [Hz]\tp [mV]\tn\tRe(z)\tIm(z)"]
    for q in range(nf):
        L.append("%r\t%r\t%d\t%r\t%r" % (fr[q], a[q] * 1e3, b[q], z[q].real, z[q].imag))
    return "\n".join(L) + "\n", {"p": a, "n": b, "z": z}, ({"Vq": v} if spec["extra"] else {})


def spoilt(fr, fs, seed):
    """another value at one of the points"""
    q = seed // 7 % len(fr)
    return fr[:q] + [fr[q] + 0.5 * fs] + fr[q + 1:] if seed % 2 else fr[:-1] + [fr[-1] + 17.0 * fs]


def writeset(d, spec, rnd, spoil=None):
    fs = spec.get("fs", 1.0)
    fr = [float(x) * fs for x in sorted(rnd.sample(range(1, 1000), spec["nf"]))]
    files = []
    for k, nm in enumerate(spec["nums"]):
        f2 = fr
        if spoil is not None and k == spoil[0]:
            f2 = spoilt(fr, fs, spec["seed"]) if spoil[1] == "value" else fr + [fr[-1] + fs] if spoil[1] == "count" else fr
        t, e, sc = one(spec, k, f2, rnd)
        if spoil is not None and k == spoil[0] and spoil[1] == "name":
            t = t.replace("freq", "powr")
        name = spec["pre"] + ("%03d" if spec["pad"] else "%d") % nm + ".d"
        t = ("!note %d\n" % nm) + t
        files.append((nm, put(d, name, t), e, sc))
    return fr, files


READ = dict(ts=read_touchstone, sp=read_spdata, citi=read_citi, mdif=lambda f: read_mdif(f, verbose=False))


def doread(d, spec, files, rnd):
    rd = (lambda f: read_data(f, verbose=False)) if spec["rd"] else READ[spec["f"]]
    if spec["f"] == "mdif":
        rd0 = rd
        rd = lambda f: rd0(f)["blk"]
    if spec["how"] == "glob":
        return rd(os.path.join(d, spec["pre"] + "*.d")), sorted(files)
    order = files[:]
    rnd.shuffle(order)
    if spec["how"] == "list":
        if spec["seed"] % 5 == 0:      # a file listed again is read again
            order.append(order[spec["seed"] // 5 % len(order)])
        return rd([x[1] for x in order]), order
    # a pattern for the even numbers, then the odd ones by name
    a = [x for x in order if x[0] % 2 == 0 and not spec["pad"]]
    b = [x for x in order if x not in a]
    lst = []
    exp = []
    if a:
        lst.append(os.path.join(d, spec["pre"] + "*[02468].d"))
        exp += sorted(a)
    lst += [x[1] for x in b]
    return rd(lst), exp + b


@S.sub("files", fileset(), quick=300)
def files(spec, note):
    rnd = random.Random(spec["seed"])
    with Tmp() as d:
        fr, fs = writeset(d, spec, rnd)
        r, exp = doread(d, spec, fs, rnd)
    n = len(exp)
    if n == 1 and spec["f"] == "mdif":   # VARs of a single block are swept variables
        check(np.asarray(r["Vq"]).ravel().tolist() == [exp[0][3]["Vq"]], "Vq %r", r["Vq"])
        del exp[0][3]["Vq"]
    names = ["FILENAME"] + list(exp[0][2]) + list(exp[0][3])
    for k in names:
        check(k in r.vardata, "%s missing: %r", k, list(r.vardata))
    got = np.asarray(r["FILENAME"]).ravel().tolist()
    check(got == [x[1] for x in exp], "file order %r, expected %r", [os.path.basename(x) for x in got], [os.path.basename(x[1]) for x in exp])
    com = [c for c in r.comments.fullcomments if c.startswith("note")]
    check(com == ["note %d" % x[0] for x in exp], "comments %r", com)
    fi = np.asarray(r["FILEINDEX"].data if n == 1 else r["FILEINDEX"]).ravel().tolist()
    check(fi == list(range(n)), "FILEINDEX %r for %d files", fi, n)
    idx = None if n == 1 else r["FILENAME"].dims[0].name
    for k in list(exp[0][2]) + list(exp[0][3]):
        a = r[k]
        coherent(a, k)
        for q in range(n):
            w = exp[q][2].get(k, exp[q][3].get(k))
            g = a
            if n > 1:
                nm = [x.name for x in a.dims]
                check(idx in nm, "%s is not indexed by file: %r", k, nm)
                g = np.take(np.asarray(a), q, axis=nm.index(idx))
            same(np.asarray(g).ravel(), np.asarray(w).ravel(), rtol=1e-12, what="%s of file %d" % (k, q))
        if k in exp[0][2] and spec["nf"] > 1:
            check(a.dims[0].name == "freq", "%s: dims %r", k, a.dims)
            same(a.dims[0].data, fr, what="freq")
    note.hit(spec["f"], spec["how"], "files%d" % n)
    note.nontrivial(n > 1)


@S.sub("mismatch", st.tuples(fileset(), st.sampled_from(["value", "count", "name", "missing", "none"])).map(list), quick=150)
def mismatch(arg, note):
    spec, b = arg
    if len(spec["nums"]) < 2 or b == "name" and spec["f"] == "ts":
        return
    rnd = random.Random(spec["seed"])
    with Tmp() as d:
        if b in ("value", "count", "name"):
            fr, fs = writeset(d, spec, rnd, spoil=(spec["seed"] % len(spec["nums"]), b))
            e = raises(lambda: doread(d, spec, fs, rnd))
            check(e is not None, "files swept differently were merged")
        else:
            fr, fs = writeset(d, spec, rnd)
            pat = os.path.join(d, "nothing*.q")
            if b == "none":
                e = raises(lambda: read_data(pat))
                check(e is not None, "a pattern matching nothing gave data")
                e = raises(lambda: READ[spec["f"]](pat))
                check(e is not None, "a pattern matching nothing gave data")
            else:
                e = raises(lambda: read_data([pat, os.path.join(d, "nofile")]))
                check(e is not None, "missing files gave data")
    note.hit(b)
    note.nontrivial()


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


STEPS = ["read", "read", "change", "reread", "fail", "failre", "modify", "other", "from"]


@S.sub("cache", st.tuples(st.lists(st.sampled_from(STEPS), min_size=1, max_size=7), st.integers(0, 2 ** 30), st.booleans(), st.sampled_from(["ts", "sp"]), st.booleans()).map(list), quick=150)
def cache(arg, note):
    """model: per cache name, the contents of the file when it was last read in successfully"""
    hist, seed, named, fmt = arg[:4]
    default = len(arg) > 4 and arg[4]   # the cache folder and reread are left at their defaults
    rnd = random.Random(seed)
    spec = dict(f=fmt, port=2, extra=True)
    model = {}
    with Tmp() as d, cwd(d):
        cdir = os.path.join(d, "_hfcache") if default else os.path.join(d, "cc", "sub")
        ckw = {} if default else dict(cachedir=cdir)
        disk = {}

        def write(nm):
            t, e, sc = one(spec, 0, [1.0, 2.0, 5.0], rnd)
            put(d, nm, t)
            disk[nm] = dict(e, **sc)
        NA, NB = ("a.x.dat", "b.dat") if seed % 3 else ("a.x.dat", "a.y.dat")
        write(NA)
        write(NB)

        def look(db, want, what):
            for k, w in want.items():
                check(k in db.vardata, "%s: %s missing", what, k)
                same(np.asarray(db[k]), np.asarray(w), rtol=1e-12, what="%s %s" % (what, k))
                coherent(db[k], k)
        reads = 0
        for step in hist:
            nm = NB if step == "other" else NA
            key = "k." + nm[:-4] if named else nm[:-4]
            if step == "change":
                write(NA)
                continue
            if step == "from":
                if key in model:
                    look(read_from_cache(key, **ckw), model[key], "read_from_cache")
                else:
                    check(raises(lambda: read_from_cache(key, **ckw)) is not None, "read_from_cache of an empty cache")
                continue
            kw = dict(ckw, verbose=False)
            if step in ("reread", "failre") or not default:
                kw["reread"] = step in ("reread", "failre")
            if named:
                kw["cachename"] = key
            fresh = kw.get("reread") or key not in model
            want = disk[nm] if fresh else model[key]
            want = dict(want)
            try:
                with read_to_cache(os.path.join(d, nm), **kw) as (db, new):
                    check(bool(new) == fresh, "%s: fresh=%r, expected %r", step, new, fresh)
                    look(db, want, step)
                    if step == "modify":
                        db["extra_v"] = hfarray(7.5)
                        want["extra_v"] = 7.5
                    if step.startswith("fail"):
                        raise KeyError("body failed")
                if fresh:
                    model[key] = want
                check(not step.startswith("fail"), "the error of the body was swallowed")
            except KeyError as e:
                if "body failed" not in str(e):
                    raise
            reads += 1
        for key, want in model.items():
            look(read_from_cache(key, **ckw), want, "final")
        stray = [x for x in os.listdir(cdir) if os.path.splitext(x)[0] not in model] if os.path.isdir(cdir) else []
        check(not stray, "stray cache files %r", stray)
    note.hit(*hist)
    note.nontrivial(reads > 1)


@st.composite
def merge_case(draw):
    nb = draw(st.one_of(st.integers(2, 6), st.integers(2, 6), st.sampled_from([20, 60, 130])))
    return dict(nb=nb, coord=draw(st.sampled_from("fist")), n=draw(st.integers(2, 4)), parts=draw(st.integers(1, 3)), vs=draw(st.lists(st.sampled_from(["fi", "if", "fc", "s", "i", "f", "b", "cf"]), min_size=1, max_size=3)),
                nd=draw(st.integers(0, 2)), seed=draw(st.integers(0, 10 ** 6)), bad=draw(st.sampled_from([None, None, None, "coord", "count", "name"])))


@S.sub("merge", merge_case(), quick=250, thorough=5000)
def merge(spec, note):
    """merge_blocks: every value stands at its block and its coordinates; the blocks themselves stay as they were"""
    rng = np.random.RandomState(spec["seed"])
    nb, n = spec["nb"], spec["n"]
    x = {"f": np.arange(n) * 0.5 + 1, "i": np.arange(n) + 1, "s": np.array(["w%d" % k for k in range(n)]),
         "t": np.array(["2010-04-%02dT10:00:00" % (k + 1) for k in range(n)], dtype="datetime64[us]")}[spec["coord"]]
    blocks, model, parts = [], [], []
    for b in range(nb):
        db = DataBlock()
        db.blockname = "blk%d" % b
        xb, nm = x, "freq"
        if spec["bad"] and b == nb - 1:
            if spec["bad"] == "coord":
                xb = x.copy()
                xb[-1] = xb[0] if spec["coord"] != "t" else xb[-1] + np.timedelta64(1, "s")
            elif spec["bad"] == "count":
                xb = x[:-1]
            else:
                nm = "Freq2"
        dims = (DimSweep(nm, xb),) + tuple(DimSweep("q%d" % k, 2 + k) for k in range(spec["nd"]))
        sh = tuple(len(d.data) for d in dims)
        mod = {}
        for k, kinds in enumerate(spec["vs"]):
            t = kinds[b % len(kinds)]
            a = rng.randint(-50, 50, sh)
            a = {"i": a, "f": a + 0.25, "c": a + 0.5j, "b": a > 0, "s": np.array(["%d" % (z * 10 ** (b % 3)) for z in a.ravel()]).reshape(sh)}[t]
            db["v_%sx" % "abc"[k]] = hfarray(a, dims=dims, unit="V")
            mod["v_%sx" % "abc"[k]] = a
        mod["scal"] = np.array(b * 1.5)
        db["scal"] = hfarray(b * 1.5)
        pv = []
        for k in range(spec["parts"]):
            val = [b * 1.25, b % 2, "lot%d" % b][k]
            db["part%s" % "abc"[k]] = DimPartial("part%s" % "abc"[k], [val])
            pv.append(val)
        db.comments = Comments(["remark %d" % b])
        blocks.append(db)
        model.append(mod)
        parts.append(pv)
    before = [dict((k, np.array(v)) for k, v in b.vardata.items()) for b in blocks]

    def untouched():
        for b, old in zip(blocks, before):
            check(list(b.vardata) == list(old), "merging changed the variables of a block")
            for k in old:
                exact(b[k], old[k], "%s of a merged block" % k)
                check([d.name for d in b[k].dims][:1] in ([], ["freq"], ["Freq2"]), "merging changed the dims of a block")
            check(len(b.comments.fullcomments) == 1, "merging changed the comments of a block: %r", b.comments.fullcomments)
    if spec["bad"]:
        check(raises(lambda: merge_blocks(blocks)) is not None, "blocks with a different sweep (%s) were merged", spec["bad"])
        untouched()
        note.hit("refused")
        note.nontrivial()
        return
    r = merge_blocks(blocks)
    untouched()
    check(list(r.comments.fullcomments) == ["remark %d" % b for b in range(nb)], "comments %r", r.comments.fullcomments)
    for k in range(spec["parts"]):
        check(list(np.asarray(r["part%s" % "abc"[k]]).tolist()) == [p[k] for p in parts], "sweep of the blocks: %r", r["part%s" % "abc"[k]])
    index = r["parta"].dims[0].name
    for v in model[0]:
        y = r[v]
        coherent(y, v)
        ax = [d.name for d in y.dims].index(index)
        check(y.shape[ax] == nb, "%s: %d points of %d blocks", v, y.shape[ax], nb)
        for b in range(nb):
            exact(np.take(np.asarray(y), b, axis=ax), model[b][v], "%s of block %d" % (v, b))
        if v != "scal":
            check(y.unit == "V", "unit of %s", v)
            check([d.name for d in y.dims if d.name != index] == ["freq"] + ["q%d" % k for k in range(spec["nd"])], "dims of %s: %r", v, y.dims)
            exact(np.asarray(r.ivardata["freq"].data), x, "coordinates")
    note.nontrivial()
