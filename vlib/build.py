"""Shared generators (plain-JSON specs) and builders (spec -> hftools objects)."""
import zlib
import random
import datetime
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from hftools.dataset import (hfarray, DimSweep, DimRep, DimMatrix_i,
                             DimMatrix_j, DataBlock)
from hftools.dataset.dim import DimPartial, DiagAxis, DimAnonymous

CLS = dict(S=DimSweep, R=DimRep, I=DimMatrix_i, J=DimMatrix_j, P=DimPartial,
           D=DiagAxis, A=DimAnonymous)

# name pool: class is a function of the name inside one case
SWEEP_NAMES = ["freq", "Freq", "vd", "vg", "vd2", "Power", "t_0", "x", "IB", "Ang"]
REP_NAMES = ["rep", "run", "wafer", "Rep"]
UNITS = [None, "Hz", "V", "A", "s", "dBm", "%"]


def check(cond, msg="", *args):
    if not cond:
        raise AssertionError(msg % args if args else msg)


# ---------------------------------------------------------------- numbers
small_float = st.integers(-4096, 4096).map(lambda k: k / 64.0)
any_float = st.one_of(
    small_float,
    st.floats(min_value=-1e30, max_value=1e30, allow_nan=False,
              allow_infinity=False, allow_subnormal=False).map(
                  lambda v: 0.0 if abs(v) < 1e-30 else v))


def wide_float(lo=-1e12, hi=1e12, tiny=1e-12):
    return st.one_of(small_float, st.floats(lo, hi, allow_nan=False).map(
        lambda v: 0.0 if abs(v) < tiny else v))


def cpx(f=small_float):
    return st.tuples(f, f).map(list)


def tocpx(x):
    return complex(x[0], x[1])


# ---------------------------------------------------------------- dims
MICRO = [0, 125000, 250000, 375001, 500000, 999999, 7]
SCALES = [1.0, 0.1, 1e9, 1e-3, 2.5e6, 1.0, 1e9, 3.1234567891e13, 1e-14]


@st.composite
def dim_data(draw, n, kind=None, unique=True):
    if kind is None:
        kind = draw(st.sampled_from("iifffs"))
    if n > 12:  # many points: one draw decides all of them
        rnd = random.Random(draw(st.integers(0, 2 ** 20)))
        ks = rnd.sample(range(-2 * n, 3 * n), n)
        how = draw(st.sampled_from(["asis", "up", "down"]))
        if how != "asis":
            ks.sort(reverse=how == "down")
        if kind == "i":
            return ks
        if kind == "f":
            scale = draw(st.sampled_from(SCALES))
            return [float(k) * scale for k in ks]
        if kind == "s":
            return ["w%d" % k for k in ks]
        t0 = datetime.datetime(2009, 12, 31, 23, 0, 0)
        return [(t0 + datetime.timedelta(seconds=k * 977, microseconds=MICRO[k % 7])).isoformat() for k in ks]
    if kind == "i":
        if draw(st.booleans()):
            return list(range(n))
        return draw(st.lists(st.integers(-40, 40), min_size=n, max_size=n,
                             unique=unique))
    if kind == "f":
        scale = draw(st.sampled_from(SCALES))
        base = draw(st.lists(st.integers(-60, 60), min_size=n, max_size=n,
                             unique=unique))
        return [float(b) * scale for b in base]
    if kind == "s":
        pool = ["a", "b", "c", "dd", "W1", "lot 2", "x-1", "Q", "r2d2", "zz",
                "k9", "m", "n0", "oo", "p p"]
        return list(draw(st.permutations(pool))[:n])
    if kind == "t":
        ks = draw(st.lists(st.integers(0, 10 ** 6), min_size=n, max_size=n,
                           unique=unique))
        t0 = datetime.datetime(2009, 12, 31, 23, 0, 0)
        return [(t0 + datetime.timedelta(seconds=k * 977,
                                         microseconds=MICRO[k % 7])
                 ).isoformat() for k in ks]
    raise ValueError(kind)


@st.composite
def dim_spec(draw, name, cls, n=None, kinds="ifs", maxn=5, minn=1):
    if n is None:
        n = draw(st.integers(minn, maxn))
    kind = draw(st.sampled_from(kinds))
    d = draw(dim_data(n, kind))
    u = draw(st.sampled_from(UNITS)) if kind in "if" else None
    fmt = draw(st.sampled_from([None, None, "%.3f"])) if kind == "f" else None
    return dict(n=name, c=cls, d=d, k=kind, u=u, f=fmt)


def mkdim(s):
    data = s["d"]
    if s.get("k") == "t":
        data = [datetime.datetime.fromisoformat(x) for x in data]
    return CLS[s["c"]](s["n"], data, unit=s.get("u"), outputformat=s.get("f"))


@st.composite
def large_size(draw, one_in=10):
    """0 in most cases, else a number of points well above the usual few"""
    if draw(st.integers(1, one_in)) < one_in:
        return 0
    return draw(st.one_of(st.integers(9, 16), st.integers(17, 70), st.integers(100, 300)))


@st.composite
def npts(draw, lo, hi, top=300, one_in=10):
    """number of points: mostly lo..hi, now and then many"""
    k = draw(large_size(one_in))
    return min(k, top) if k else draw(st.integers(lo, hi))


@st.composite
def perm(draw, n):
    """list(range(n)) in any order"""
    if n <= 30:
        return list(draw(st.permutations(list(range(n)))))
    out = list(range(n))
    random.Random(draw(st.integers(0, 2 ** 20))).shuffle(out)
    return out


@st.composite
def many(draw, elem, n):
    """list of n draws of elem; when there are many, few are drawn and used again and again in random order"""
    if n <= 60:
        return draw(st.lists(elem, min_size=n, max_size=n))
    few = draw(st.lists(elem, min_size=24, max_size=24))
    rnd = random.Random(draw(st.integers(0, 2 ** 20)))
    return [rnd.choice(few) for _ in range(n)]


@st.composite
def distinct(draw, lo, hi, n):
    """n different integers of lo..hi"""
    if n <= 30:
        return draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n, unique=True))
    return random.Random(draw(st.integers(0, 2 ** 20))).sample(range(lo, hi + 1), n)


@st.composite
def enlarge(draw, dims, top=300, one_in=10):
    """the dim specs with one of them, now and then, given many points"""
    k = min(draw(large_size(one_in)), top)
    if not k or not dims:
        return dims
    i = draw(st.integers(0, len(dims) - 1))
    d = dims[i]
    return dims[:i] + [dict(d, d=draw(dim_data(k, d["k"])))] + dims[i + 1:]


@st.composite
def dim_pool(draw, maxdims=4, maxn=4, kinds="ifs", matrix=True, minn=1,
             names=None, big=True):
    """A list of dim specs with distinct names, in arbitrary order."""
    k = draw(st.sampled_from([k for k in (2, 3, 1, 2, 3, 4, 5, 6) if k <= maxdims]))
    cand = [(n, "S") for n in (names or SWEEP_NAMES)] + [(n, "R") for n in REP_NAMES]
    picked = draw(st.lists(st.sampled_from(cand), min_size=k, max_size=k,
                           unique_by=lambda x: x[0]))
    large = draw(large_size()) if big and maxn > 1 else 0
    if large > 20:
        maxn = min(maxn, 2)
        minn = min(minn, maxn)
        picked = picked[:3]
    which = draw(st.integers(0, len(picked) - 1)) if large else None
    out = [draw(dim_spec(n, c, n=large if i == which else None, kinds=kinds, maxn=maxn, minn=minn))
           for i, (n, c) in enumerate(picked)]
    if matrix and draw(st.integers(0, 2)) == 0:
        ni = draw(st.integers(minn, 2 if large > 20 else 3))
        nj = draw(st.integers(minn, 2 if large > 20 else 3))
        oi = draw(st.sampled_from([0, 0, 0, 1, 4]))
        oj = draw(st.sampled_from([oi, oi, 0, 2]))
        out.append(dict(n="i", c="I", d=list(range(oi, oi + ni)), k="i", u=None, f=None))
        out.append(dict(n="j", c="J", d=list(range(oj, oj + nj)), k="i", u=None, f=None))
    return out


@st.composite
def values(draw, n, dtype):
    if n > 60:  # many values: one draw decides all of them
        rnd = random.Random(draw(st.integers(0, 2 ** 20)))
        f = lambda: rnd.randint(-4096, 4096) / 64.0
        one = {"i": lambda: rnd.randint(-50, 50), "f": f, "c": lambda: [f(), f()],
               "F": lambda: rnd.randint(-50, 50), "I": lambda: rnd.randint(-50, 50), "U": lambda: rnd.randint(0, 50),
               "C": lambda: [rnd.randint(-50, 50), rnd.randint(-50, 50)],
               "N": lambda: f() if rnd.random() < 0.7 else rnd.choice(["nan", "inf", "-inf"]),
               "b": lambda: rnd.random() < 0.5,
               "s": lambda: "".join(rnd.choice("abXY_z019 ") for _ in range(rnd.randint(1, 6)))}[dtype]
        return [one() for _ in range(n)]
    if dtype == "i":
        return draw(st.lists(st.integers(-50, 50), min_size=n, max_size=n))
    if dtype == "f":
        return draw(st.lists(small_float, min_size=n, max_size=n))
    if dtype == "c":
        return draw(st.lists(cpx(), min_size=n, max_size=n))
    if dtype in "FIU":
        return draw(st.lists(st.integers(-50 if dtype != "U" else 0, 50), min_size=n, max_size=n))
    if dtype == "C":
        return draw(st.lists(st.tuples(st.integers(-50, 50), st.integers(-50, 50)).map(list), min_size=n, max_size=n))
    if dtype == "N":
        return draw(st.lists(st.one_of(small_float, small_float, st.sampled_from(["nan", "inf", "-inf"])), min_size=n, max_size=n))
    if dtype == "b":
        return draw(st.lists(st.booleans(), min_size=n, max_size=n))
    if dtype == "s":
        return draw(st.lists(st.text("abXY_z019 ", min_size=1, max_size=6),
                             min_size=n, max_size=n))
    raise ValueError(dtype)


# types narrower than the default, with small whole values
NARROW = {"F": "f4", "I": "i2", "U": "u1"}


def nval(dims):
    return int(np.prod([len(d["d"]) for d in dims])) if dims else 1


def mkvals(vals, dtype, shape):
    if dtype == "c":
        a = np.array([tocpx(v) for v in vals], dtype=complex)
    elif dtype in ("f", "N"):
        a = np.array([float(x) for x in vals], dtype=float)
    elif dtype == "C":
        a = np.array([tocpx(v) for v in vals], dtype="c8")
    elif dtype in NARROW:
        a = np.array(vals, dtype=NARROW[dtype])
    elif dtype == "i":
        a = np.array(vals, dtype=int)
    elif dtype == "b":
        a = np.array(vals, dtype=bool)
    else:
        a = np.array(vals)
    return a.reshape(shape)


@st.composite
def array_spec(draw, dims, dtypes="ffci", unit=True):
    """hfarray over all of `dims` (specs) in the given order."""
    dt = draw(st.sampled_from(dtypes))
    v = draw(values(nval(dims), dt))
    u = draw(st.sampled_from(UNITS)) if unit else None
    return dict(dims=dims, t=dt, v=v, u=u)


def lay(a):
    """the same values stored in another order in memory (decided by the
    values, so that a case always gets the same one)"""
    a = np.asarray(a)
    if a.ndim < 2:
        return a
    k = zlib.crc32(repr(a.shape).encode() + repr(a.ravel()[:6].tolist()).encode())
    if k % 2:
        return np.array(a, order="C")
    axes = list(range(a.ndim))
    axes = sorted(axes, key=lambda x: zlib.crc32(b"%d %d" % (k, x)))
    inv = [axes.index(x) for x in range(a.ndim)]
    return np.ascontiguousarray(a.transpose(axes)).transpose(inv)


def mkarr(s, cls=None):
    dims = tuple(mkdim(d) for d in s["dims"])
    shape = tuple(len(d["d"]) for d in s["dims"])
    a = lay(mkvals(s["v"], s["t"], shape))
    return (cls or hfarray)(a, dims=dims, unit=s.get("u"),
                            outputformat=s.get("fmt"))


def mknp(s):
    shape = tuple(len(d["d"]) for d in s["dims"])
    return mkvals(s["v"], s["t"], shape)


@st.composite
def subperm(draw, pool, minsize=0, maxsize=None):
    """an arbitrary sub-list of pool in arbitrary order"""
    top = len(pool) if maxsize is None else min(len(pool), maxsize)
    # lean towards many dims: that is where alignment matters
    k = max(minsize, top - draw(st.sampled_from([0, 1, 0, 1, 2, 3, 9])))
    k = min(k, top)
    return draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k,
                         unique_by=lambda d: d["n"])) if k else []


# ---------------------------------------------------------------- comparing
def plain(a):
    return np.asarray(a)


def same(got, want, rtol=1e-9, atol=1e-12, what=""):
    """value equality within a stated tolerance, nan == nan; exact for
    non-floats; shape must match."""
    got, want = np.asarray(got), np.asarray(want)
    check(got.shape == want.shape, "%s: shape %r, expected %r", what, got.shape, want.shape)
    if got.dtype.kind in "fc" or want.dtype.kind in "fc":
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        check(bool(np.all(ok)), "%s: values differ\n got %r\nwant %r", what, got, want)
    else:
        check(bool(np.all(got == want)), "%s: values differ\n got %r\nwant %r", what, got, want)


def exact(got, want, what=""):
    got, want = np.asarray(got), np.asarray(want)
    check(got.shape == want.shape, "%s: shape %r, expected %r", what, got.shape, want.shape)
    if {got.dtype.kind, want.dtype.kind} in ({"i", "f"}, {"u", "f"}, {"i", "c"}, {"u", "c"}):
        # python compares these without rounding the whole numbers
        eq = np.asarray(got.astype(object) == want.astype(object), dtype=bool)
    else:
        eq = (got == want)
    if got.dtype.kind in "fc" and want.dtype.kind in "fc":
        eq = eq | (np.isnan(got) & np.isnan(want))
    check(bool(np.all(eq)), "%s: values differ\n got %r\nwant %r", what, got, want)


def samedim(got, want, what="", unit=True):
    """dims agree in name, class and coordinate data (and unit)"""
    check(got.name == want.name, "%s: dim name %r, expected %r", what, got.name, want.name)
    check(got.__class__ is want.__class__, "%s: dim %s class %s, expected %s",
          what, got.name, got.__class__.__name__, want.__class__.__name__)
    g, w = np.asarray(got.data), np.asarray(want.data)
    check(g.shape == w.shape, "%s: dim %s has %d coordinates, expected %d", what, got.name, g.size, w.size)
    check(bool(np.all(g == w)), "%s: dim %s coordinates %r, expected %r", what, got.name, g, w)
    if unit:
        check(got.unit == want.unit, "%s: dim %s unit %r, expected %r", what, got.name, got.unit, want.unit)
        if len(g) and g.dtype.kind == w.dtype.kind:
            check(got.outputformat == want.outputformat, "%s: dim %s format %r, expected %r", what, got.name, got.outputformat, want.outputformat)


def samedims(got, want, what="", unit=True):
    check([d.name for d in got] == [d.name for d in want],
          "%s: dims %r, expected %r", what, [d.name for d in got], [d.name for d in want])
    for g, w in zip(got, want):
        samedim(g, w, what, unit)


def coherent(a, what=""):
    """shape of an hfarray agrees with its dims"""
    check(a.ndim == len(a.dims), "%s: ndim %d but %d dims", what, a.ndim, len(a.dims))
    sh = tuple(len(d.data) for d in a.dims)
    check(a.shape == sh, "%s: shape %r but dims lengths %r", what, a.shape, sh)


def raises(fn, *exc):
    exc = exc or (Exception,)
    try:
        fn()
    except exc as e:
        return e
    return None
