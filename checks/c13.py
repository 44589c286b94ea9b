"""C13: saving a block as Touchstone and reading it back gives the same network data."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib import longf
from vlib.files import Tmp, get
from hftools.file_formats import read_touchstone, save_touchstone, read_data, Comments
from hftools.networks.multiports import SArray

S = Suite("C13", rule="blocks with an N x N S variable (N 1-6) over 1-6 frequencies, arbitrary finite values over 60 decades, reference "
          "impedance, scalar variables and comments, saved and read back (twice); non-trivial: N >= 2, no symmetric matrix",
          assumptions=["frequencies increase", "values are written with the default 17-digit format unless a format is set"])

WORDS = ["alpha", "W 7", "lot_3 b", "Type N male", "A=b", "on:off"]
NAMES = ["Vd_set", "T0", "lot", "P_avs", "Operator", "kk", "Ibias"]


@st.composite
def case(draw):
    n = draw(st.sampled_from([2, 3, 1, 2, 4, 5, 6]))
    nf = draw(npts(1, 6, 300 if n < 3 else 40))
    steps = draw(many(st.integers(1, 10 ** 6), nf))
    sc = draw(st.sampled_from([1.0, 1e3, 12345.678, 1e9, 0.1]))
    isint = draw(st.booleans())
    cur, fs = 0, []
    for s in steps:
        fs.append(cur if isint else cur * sc)
        cur += s
    f = st.one_of(small_float, st.floats(-1e30, 1e30, allow_nan=False).map(lambda v: 0.0 if abs(v) < 1e-30 else v))
    vals = draw(many(cpx(f), nf * n * n))
    if draw(st.integers(0, 3)) == 0:
        vals = [[float(k), 0.5 - k] for k in range(nf * n * n)]
    scal = []
    for nm in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
        k = draw(st.sampled_from("fis"))
        v = draw({"f": f, "i": st.integers(-10 ** 6, 10 ** 6), "s": st.sampled_from(WORDS)}[k])
        scal.append([nm, k, v])
    return dict(n=n, f=fs, v=vals, z0=draw(st.sampled_from([None, 50.0, 75.0, 1.0, 33.3, 1e-3, 12345.678, 50])), scal=scal,
                com=draw(st.lists(st.sampled_from(["plain text", "Lot: A7", "x=3", "T [C] = 23", "Date: 2010-04-20", "look out! and see", "50 % of it", "# marked", "a@b.se"]), max_size=3, unique=True)),
                nocom=draw(st.booleans()), sarr=draw(st.booleans()), twice=draw(st.booleans()),
                fname=draw(st.sampled_from(["freq", "freq", "f", "Frequency"])))


@S.sub("roundtrip", case(), quick=350)
def roundtrip(spec, note):
    n, nf = spec["n"], len(spec["f"])
    val = np.array([tocpx(v) for v in spec["v"]]).reshape(nf, n, n)
    db = DataBlock()
    dims = (DimSweep(spec["fname"], spec["f"], unit="Hz"), DimMatrix_i("i", n), DimMatrix_j("j", n))
    db.S = (SArray if spec["sarr"] else hfarray)(val.copy(), dims=dims)
    if spec["z0"] is not None:
        db.Z0 = hfarray(spec["z0"])
    for nm, k, v in spec["scal"]:
        db[nm] = hfarray(v)
    com = [] if spec["nocom"] else spec["com"]
    if not spec["nocom"]:
        db.comments = Comments(list(com))
    with Tmp() as d:
        fn = d + "/a.s%dp" % n
        save_touchstone(db, fn)
        exact(db.S, val, "saved block is unchanged")
        check(list(db.vardata.keys()) == ["S"] + (["Z0"] if spec["z0"] is not None else []) + [s[0] for s in spec["scal"]], "names unchanged")
        if not spec["nocom"]:
            check(db.comments.fullcomments == com, "comments unchanged")
        r = read_touchstone(fn)
        if spec["twice"]:
            fn2 = d + "/b.s%dp" % n
            save_touchstone(r, fn2)
            r = read_data(fn2)
            note.hit("twice")
    exact(r.S, val, "S")
    check([x.name for x in r.S.dims] == ["freq", "i", "j"], "dims %r", r.S.dims)
    exact(r.S.dims[0].data, np.array(spec["f"], float), "freq")
    check(r.S.dims[0].unit == "Hz", "freq unit")
    z = 50.0 if spec["z0"] is None else spec["z0"]
    check(r.Z0.shape == () and float(r.Z0) == z, "Z0 is %r, expected %r", r.Z0, z)
    for nm, k, v in spec["scal"]:
        check(nm in r.vardata and r[nm].shape == (), "scalar %s lost", nm)
        got = r[nm].item() if hasattr(r[nm], "item") else r[nm]
        check(got == v, "scalar %s: %r, expected %r", nm, got, v)
    check(r.comments.fullcomments[:len(com)] == com, "comments %r", r.comments.fullcomments)
    note.hit("ports%d" % n, *(["z0"] if spec["z0"] not in (None, 50.0) else []))
    note.nontrivial(n >= 2 and bool(np.any(val != val.transpose(0, 2, 1))))


@S.sub("formats", st.fixed_dictionaries(dict(n=st.sampled_from([1, 2, 3]), dig=st.integers(1, 9), v=st.lists(cpx(), min_size=18, max_size=18),
                                             fd=st.integers(1, 6))), quick=60)
def formats(spec, note):
    """a chosen output format limits the digits, nothing else"""
    n = spec["n"]
    val = np.array([tocpx(v) for v in spec["v"]])[:2 * n * n].reshape(2, n, n)
    db = DataBlock()
    f = [1.2345678912, 17.987654321]
    dims = (DimSweep("freq", f, outputformat="%%.%df" % spec["fd"]), DimMatrix_i("i", n), DimMatrix_j("j", n))
    db.S = hfarray(lay(val), dims=dims, outputformat="%%.%de" % spec["dig"])
    with Tmp() as d:
        save_touchstone(db, d + "/a.s2p")
        r = read_touchstone(d + "/a.s2p")
    m = np.maximum(np.abs(val.real), np.abs(val.imag))
    check(np.all(np.abs(np.asarray(r.S).real - val.real) <= np.abs(val.real) * 0.51 * 10.0 ** -spec["dig"] + 1e-300), "real part beyond rounding")
    check(np.all(np.abs(np.asarray(r.S).imag - val.imag) <= np.abs(val.imag) * 0.51 * 10.0 ** -spec["dig"] + 1e-300), "imag part beyond rounding")
    check(np.all(np.abs(np.asarray(r.freq) - f) <= 0.51 * 10.0 ** -spec["fd"]), "freq beyond rounding")
    note.nontrivial(m.max() > 0)


S.sub("long", longf.spec(), quick=24, thorough=200)(longf.long_check("touchstone", read_touchstone, save_touchstone, hand=False))
