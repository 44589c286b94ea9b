"""C12: reading a Touchstone file gives exactly the network data the file describes."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib import longf
from vlib.files import Tmp, put
from hftools.file_formats import read_touchstone, read_data

S = Suite("C12", rule="generated Touchstone v1 text: 1-15 ports, 1-6 increasing frequencies, RI/MA/DB, any prefix and letter case, "
          "any wrapping of a point over lines, comments anywhere, blank lines, tabs, CRLF, 2-port noise blocks; "
          "non-trivial: >= 2 frequencies or >= 2 ports, values all distinct enough to show a misplaced element",
          assumptions=["frequencies increase; a noise block starts at or below the last network frequency",
                       "noise blocks only with MA data (the magnitude/angle form Touchstone prescribes for Gopt)"])

MULT = dict(HZ=1, KHZ=1e3, MHZ=1e6, GHZ=1e9, THZ=1e12, PHZ=1e15)


def order(n):
    """position k in the file -> (row, column)"""
    ij = [(i, j) for i in range(n) for j in range(n)]
    return [(j, i) for i, j in ij] if n == 2 else ij


@st.composite
def case(draw, ports=(2, 1, 3, 2, 4, 1, 2, 5, 6, 7), points=(3, 2, 1, 4, 5, 6), fmts=("RI", "MA", "DB"), noisy=None):
    n = draw(st.sampled_from(list(ports)))
    nf = draw(large_size(20 if n > 2 else 8)) if len(points) > 1 else 0
    nf = min(nf, 300 if n < 3 else 40) or draw(st.sampled_from(list(points)))
    steps = draw(many(st.integers(1, 400), nf))
    f0 = draw(st.sampled_from([0, 0, 1, 100]))
    fs, cur = [], f0
    for s in steps:
        fs.append(cur / 8.0)
        cur += s
    fmt = draw(st.sampled_from(list(fmts)))
    small = st.integers(-999, 999).map(lambda k: k / 8.0)
    if fmt == "MA":
        # integer magnitudes may exceed the frequencies, which must not confuse the port detection
        a = st.integers(0, 8000).map(lambda k: k / 16.0)
        b = st.integers(-1440, 1440).map(lambda k: k / 8.0)
    elif fmt == "DB":
        a = st.integers(-800, 300).map(lambda k: k / 8.0)
        b = st.integers(-1440, 1440).map(lambda k: k / 8.0)
    else:
        a = b = small
    data = draw(many(st.tuples(a, b).map(list), nf * n * n))
    how = draw(st.sampled_from(["r", "e", "g", "plus"]))
    sc = draw(st.sampled_from([1, 1, 1, 1, 1e-12, 1e11]))
    if fmt != "DB" and how != "plus" and sc != 1:
        data = [[x * sc, y * sc if fmt == "RI" else y] for x, y in data]
    noise = None
    if n == 2 and fmt == "MA" and (noisy or draw(st.booleans())):
        same_f = draw(st.booleans())
        if same_f and fs[0] <= fs[-1]:
            nfs = list(fs)
            if nf > 1 and draw(st.integers(0, 3)) == 0:     # a grid of their own near the other one
                nfs = [q * 1.001953125 for q in nfs]
            elif nf > 2 and draw(st.booleans()):     # only one point inside differs
                nfs[1] = (nfs[1] + 3 * nfs[2]) / 4
        else:
            k = draw(npts(1, 5, 40))
            ks = sorted(draw(distinct(0, 4000, k)))
            nfs = [min(ks[0] / 8.0, fs[-1])] + [max(q, 0) / 8.0 + fs[-1] for q in ks[1:]]
        noise = [dict(f=f, v=[draw(st.integers(0, 200)) / 16.0, draw(st.integers(0, 64)) / 64.0,
                              draw(st.integers(-1440, 1440)) / 8.0, draw(st.integers(0, 400)) / 64.0]) for f in nfs]
    wrap = draw(st.sampled_from(["line", "rows", "rows4", "pairs"] if n > 2 else ["line", "line", "split"]))
    if n == 1:
        wrap = "line"
    return dict(n=n, f=fs, fmt=fmt, d=data, noise=noise, wrap=wrap,
                pre=draw(st.sampled_from(sorted(MULT))), case=draw(st.sampled_from(["u", "l", "m"])),
                typ=draw(st.sampled_from("SSSZYGH")), z0=draw(st.sampled_from(["50", "75", "1", "100", "37.5", "50.0", None])),
                num=how, sep=draw(st.sampled_from([" ", "  ", "\t", " \t "])),
                eol=draw(st.sampled_from(["\n", "\n", "\r\n"])), seed=draw(st.integers(0, 2 ** 20)),
                deco=draw(st.sampled_from([0, 0, 1, 2])), lead=draw(st.sampled_from(["", " ", "\t"])),
                end=draw(st.booleans()))


def num(v, how):
    if how == "e":
        return "%.9e" % v
    if how == "g":
        return repr(v) if v != int(v) else "%d" % v
    if how == "plus":
        return "%+.8f" % v
    return repr(v)


def text(spec, rnd):
    n = spec["n"]
    cs = dict(u=str.upper, l=str.lower, m=lambda s: "".join(c.upper() if rnd.random() < .5 else c.lower() for c in s))[spec["case"]]
    opt = "%s %s %s" % (spec["pre"], spec["typ"], spec["fmt"])
    if spec["z0"] is not None:
        opt += " R " + spec["z0"]
    opt = "#" + rnd.choice(["", " ", "\t"]) + cs(opt)
    comments = []

    def comment(at_line=False):
        c = rnd.choice(["1 2 3 4", "freq S11 S21", "# HZ S MA R 50", "\xe4\xf6 plain text", "--"])
        if not at_line:
            comments.append(c)
        return "!" + rnd.choice(["", " "]) + c
    lines = []
    if spec["deco"]:
        lines.append(comment())
    lines.append(opt)

    def emit(vals):
        s = spec["lead"] + spec["sep"].join(num(v, spec["num"]) for v in vals)
        if spec["deco"] == 2 and rnd.random() < .3:
            s += rnd.choice([" ", "", "\t"]) + comment(True)
        lines.append(s)
        if spec["deco"] and rnd.random() < .25:
            lines.append(rnd.choice([lambda: "", lambda: "   ", comment])())
    it = iter(spec["d"])
    for f in spec["f"]:
        pairs = [next(it) for _ in range(n * n)]
        flat = [x for p in pairs for x in p]
        if spec["wrap"] == "line":
            emit([f] + flat)
        elif spec["wrap"] == "split":
            emit([f] + flat[:4])
            emit(flat[4:])
        elif spec["wrap"] == "pairs":
            emit([f] + flat[:2])
            for k in range(2, len(flat), 2):
                emit(flat[k:k + 2])
        else:
            per = 4 if spec["wrap"] == "rows4" else n
            first = True
            for r in range(n):
                row = flat[2 * n * r:2 * n * (r + 1)]
                for k in range(0, len(row), 2 * per):
                    emit(([f] if first else []) + row[k:k + 2 * per])
                    first = False
    if spec["noise"]:
        if spec["deco"]:
            lines.append(comment())
        for q in spec["noise"]:
            emit([q["f"]] + q["v"])
    return spec["eol"].join(lines) + (spec["eol"] if spec["end"] else ""), comments


def tocomplex(a, b, fmt):
    if fmt == "RI":
        return a + 1j * b
    r = a if fmt == "MA" else 10 ** (a / 20.0)
    return r * complex(math.cos(math.radians(b)), math.sin(math.radians(b)))


def otherwise(total, n):
    """could the same count of numbers be whole points of an m-port, m != n?"""
    return any(total % (2 * m * m + 1) == 0 for m in range(1, 40) if m != n)


def parse(spec, note):
    import random
    txt, comments = text(spec, random.Random(spec["seed"]))
    n, nf = spec["n"], len(spec["f"])
    with Tmp() as d:
        fn = put(d, "x.s%dp" % n, txt)
        r = (read_data if spec["seed"] % 3 == 0 else read_touchstone)(fn)
    typ = spec["typ"]
    check(typ in r.vardata, "no variable %s: %r", typ, r.vardata.keys())
    A = r[typ]
    want = np.empty((nf, n, n), complex)
    it = iter(spec["d"])
    for k in range(nf):
        for i, j in order(n):
            a, b = next(it)
            want[k, i, j] = tocomplex(a, b, spec["fmt"])
    same(A, want, rtol=1e-7, atol=1e-9 * np.abs(want).max(), what="%s data" % typ)
    check([dd.name for dd in A.dims] == ["freq", "i", "j"], "dims %r", A.dims)
    check(A.dims[1].__class__ is DimMatrix_i and A.dims[2].__class__ is DimMatrix_j, "dim classes")
    coherent(A, "S")
    fw = np.array(spec["f"]) * MULT[spec["pre"]]
    check(np.allclose(np.asarray(A.dims[0].data), fw, rtol=1e-7, atol=0), "freq %r want %r", A.dims[0].data, fw)
    check(np.array_equal(np.asarray(r.freq), np.asarray(A.dims[0].data)), "block freq")
    check(A.dims[0].unit == "Hz", "freq unit %r", A.dims[0].unit)
    if spec["z0"] is not None:
        check(r.Z0.shape == () and float(r.Z0) == float(spec["z0"]) and r.Z0.unit == "Ohm", "Z0 %r", r.Z0)
    check(list(r.comments.fullcomments) == comments, "comments %r want %r", r.comments.fullcomments, comments)
    if spec["noise"]:
        note.hit("noise")
        nw = np.array([q["f"] for q in spec["noise"]]) * MULT[spec["pre"]]
        v = np.array([q["v"] for q in spec["noise"]])
        z0 = float(spec["z0"]) if spec["z0"] is not None else float(r.Z0)
        for nm, w in [("Fmin", 10 ** (v[:, 0] / 10)), ("Gopt", v[:, 1] * np.exp(1j * np.radians(v[:, 2]))),
                      ("Rn", v[:, 3] * z0)]:
            same(r[nm], w, rtol=1e-7, atol=1e-9, what=nm)
            dd = r[nm].dims
            check(len(dd) == 1 and dd[0].name in ("freq", "freqn") and dd[0].unit == "Hz", "%s dims %r", nm, dd)
            check(np.allclose(np.asarray(dd[0].data), nw, rtol=1e-5, atol=1e-6 if dd[0].name == "freqn" else 1e-6), "%s freq %r want %r", nm, dd[0].data, nw)
    else:
        for nm in ("Fmin", "Gopt", "Rn"):
            check(nm not in r, "invented %s", nm)
    note.hit("ports%d" % n, spec["fmt"], spec["wrap"], "nf1" if nf == 1 else "nfn")
    note.nontrivial(nf > 1 or n > 1)


S.sub("parse", case(), quick=600)(parse)
S.sub("noise", case(ports=(2,), points=(1, 2, 3, 4), fmts=("MA",), noisy=True), quick=300)(parse)
S.sub("manyports", case(ports=(8, 9, 10, 11, 12, 15), points=(1, 2)), quick=30)(parse)


@st.composite
def badcase(draw):
    c = draw(case())
    c["noise"] = None
    c["bad"] = draw(st.sampled_from(["second", "missing", "fmt", "short", "long", "count4", "freqback", "text", "nodata"]))
    return c


@S.sub("reject", badcase(), quick=250)
def reject(spec, note):
    import random
    txt, _ = text(dict(spec, deco=0), random.Random(spec["seed"]))
    eol = spec["eol"]
    lines = txt.split(eol)
    if lines and not lines[-1]:
        lines.pop()
    b = spec["bad"]
    n, nf = spec["n"], len(spec["f"])
    if b == "second":
        lines.insert(1 + spec["seed"] % len(lines), lines[0])
    elif b == "missing":
        lines.pop(0)
    elif b == "fmt":
        lines[0] = lines[0].upper().replace(" %s" % spec["fmt"], " XX")
    elif b == "count4":
        if spec["z0"] is None:
            return
        lines[0] = " ".join(lines[0].split()[:-1])
    elif b == "short":
        if nf < 2 or n == 2:       # a short 2-port tail could be read as noise data
            return
        lines[-1] = " ".join(lines[-1].split()[:-1])
    elif b == "long":
        if nf < 2:
            return
        lines[-1] += " 0.25"
    elif b == "freqback":
        if nf < 2 or n <= 2 or spec["wrap"] != "line":
            return
        w = lines[-1].split()
        w[0] = num(spec["f"][0], spec["num"])
        lines[-1] = " ".join(w)
    elif b == "text":
        w = lines[-1].split()
        w[-1] = "abc"
        lines[-1] = " ".join(w)
    elif b == "nodata":
        lines = lines[:1]
    if b in ("short", "long", "freqback") and otherwise(sum(len(l.split()) for l in lines[1:]), n):
        return
    with Tmp() as d:
        fn = put(d, "x.s2p", eol.join(lines) + eol)
        e = raises(lambda: read_touchstone(fn))
    check(e is not None, "malformed file (%s) was read without an error:\n%s", b, "\n".join(lines))
    note.hit(b)
    note.nontrivial()


S.sub("long", longf.spec(), quick=24, thorough=200)(longf.long_check("touchstone", read_touchstone, None))
