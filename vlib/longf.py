"""long sweeps (1001-12000 points) of one two-port (or a few columns) in every text format"""
import contextlib
import io
from hypothesis import strategies as st
from vlib.build import *
from vlib.files import Tmp, put
from hftools.dataset import make_matrix


def spec():
    return st.tuples(st.one_of(st.sampled_from([1001, 1601, 4096, 5001, 8192, 10001]), st.integers(1001, 12000)), st.integers(0, 10 ** 6), st.booleans()).map(list)


def data(n, seed):
    """n frequencies and n complex 2x2 matrices that the decimal texts below carry exactly"""
    rng = np.random.RandomState(seed)
    f = np.cumsum(rng.randint(1, 9, n)) * 1e6
    v = rng.randint(-4000, 4000, (n, 2, 2)) / 4096. + 1j * rng.randint(-4000, 4000, (n, 2, 2)) / 4096.
    return f, v


def block(f, v):
    db = DataBlock()
    db.S = make_matrix(v, dims=(DimSweep("freq", f, unit="Hz"),))
    return db


def agree(r, f, v, what, tol=0.):
    check("S" in r.vardata and "freq" in r.ivardata, "%s: variables %r over %r", what, list(r.vardata), list(r.ivardata))
    check([d.name for d in r.S.dims][:1] == ["freq"] and r.S.shape == v.shape, "%s: dims %r", what, r.S.dims)
    d = abs(np.asarray(r.ivardata["freq"].data, float) - f)
    check(bool(np.all(d <= tol * abs(f))), "%s: frequency %d of %d differs", what, int(np.argmax(d > tol * abs(f))), len(f))
    d = abs(np.asarray(r.S) - v)
    check(bool(np.all(d <= tol * 2)), "%s: matrix %d of %d differs", what, int(np.argmax(np.max(d, axis=(1, 2)) > tol * 2)), len(f))


def text(kind, f, v):
    """the block as text, written by hand"""
    g = lambda x: repr(float(x))
    order = [(0, 0), (1, 0), (0, 1), (1, 1)] if kind == "touchstone" else [(0, 0), (0, 1), (1, 0), (1, 1)]
    L = []
    if kind == "touchstone":
        L.append("# MHz S RI R 50")
    elif kind == "citi":
        L += ["CITIFILE A.01.01", "NAME DATA", "VAR freq MAG %d" % len(f)] + ["DATA S[%d,%d] RI" % (i + 1, j + 1) for i, j in order]
        L += ["VAR_LIST_BEGIN"] + [g(x) for x in f] + ["VAR_LIST_END"]
        for i, j in order:
            L += ["BEGIN"] + ["%s,%s" % (g(x.real), g(x.imag)) for x in v[:, i, j]] + ["END"]
        return "\n".join(L) + "\n"
    elif kind == "spdata":
        L.append("\t".join(["freq [Hz]"] + ["%s(S%d%d)" % (p, i + 1, j + 1) for i, j in order for p in ("Re", "Im")]))
    else:
        L += ["BEGIN DATABLOCK", "% freq(real) " + " ".join("S[%d,%d](complex)" % (i + 1, j + 1) for i, j in order)]
    for x, m in zip(f / 1e6 if kind == "touchstone" else f, v):
        L.append("\t".join([g(x)] + [g(y) for i, j in order for y in (m[i, j].real, m[i, j].imag)]))
    if kind == "mdif":
        L.append("END")
    return "\n".join(L) + "\n"


EXT = dict(touchstone=".s2p", citi=".citi", spdata=".txt", mdif=".mdif")


def long_check(kind, read, save, hand=True):
    """check function: a hand-written long file reads as written (save None or the flag not set), or a saved block reads back"""
    def fn(arg, note):
        n, seed, back = arg
        f, v = data(n, seed)
        with Tmp() as d:
            name = d + "/long" + EXT[kind]
            if save is not None and (back or not hand):
                save(block(f, v), name)
            else:
                put(d, "long" + EXT[kind], text(kind, f, v))
            with contextlib.redirect_stdout(io.StringIO()):   # progress of the MDIF reader
                r = read(name)
        if kind == "mdif":
            r = r["DATABLOCK"]
        agree(r, f, v, "%d points" % n, 1e-12)
        note.hit("saved" if back else "by hand")
        note.nontrivial()
    return fn
