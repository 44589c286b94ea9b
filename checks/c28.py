"""C28: phase, dB, delay, smoothing and interpolation helpers follow their definitions."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
import hftools.math as hm

S = Suite("C28", rule="complex values in all quadrants and on the axes, any branch, 1-12 points over 1-3 dims, apertures 1-9 and polynomial orders 0-3, increasing grids with query points "
          "inside, on and outside; plain arrays, labelled arrays and numbers; non-trivial: >= 3 points",
          assumptions=["phase steps below pi for unwrapping", "non-zero magnitudes", "smoothing windows no longer than the data"])

SW = [("freq", "S"), ("vd", "S"), ("rep", "R")]


def grid(n, rng, lo=0.1, hi=1.0):
    return np.cumsum(rng.uniform(lo, hi, n))


def wrap(v, seed, kinds=True):
    """labelled array with dims freq, vd, rep (as many as v has)"""
    sw = SW if seed % 2 else [SW[0], SW[2], SW[1]]
    dims = tuple(CLS[c](n, range(k)) for (n, c), k in zip(sw, v.shape))
    return hfarray(lay(v), dims=dims)


def named(r, dims, what):
    """values of r in the order of dims"""
    names = [d.name for d in r.dims]
    check(sorted(names) == sorted(d.name for d in dims), "%s: dims %r, expected %r", what, names, [d.name for d in dims])
    for d in dims:
        samedim(r.dims[names.index(d.name)], d, what)
    return np.transpose(np.asarray(r), [names.index(d.name) for d in dims])


PT = st.tuples(st.sampled_from([1e-9, 0.3, 1., 5., 1e6]), st.integers(-720, 720)).map(list)
shape = st.lists(st.integers(1, 5), min_size=0, max_size=2) | st.tuples(npts(2, 5)).map(list)


@S.sub("angle", st.tuples(npts(1, 8).flatmap(lambda n: many(PT, n)), st.booleans(),
                          st.sampled_from([None, None, 0, -90, 45.5, -360, 180, 1000]), st.booleans()).map(list), quick=500)
def angle(arg, note):
    pts, deg, br, lab = arg
    z = np.array([m * np.exp(1j * np.pi * a / 360) for m, a in pts])
    b = br if deg or br is None else br / 180 * np.pi
    src = wrap(z, 0) if lab else z
    r = hm.angle(src, deg=deg, branch=b) if br is not None else hm.angle(src, deg=deg)
    exact(src, z, "argument")
    full = 360. if deg else 2 * np.pi
    lo = (-full / 2) if b is None else b
    R = np.asarray(r)
    check(bool(np.all((R >= lo - 1e-9 * full) & (R <= lo + full + 1e-9 * full))), "angles %r outside [%r, %r]", R, lo, lo + full)
    same(np.exp(2j * np.pi * R / full), z / abs(z), 1e-9, 1e-9, "direction")
    if lab:
        samedims(r.dims, src.dims)
    if len(pts) == 1:
        same(hm.angle(complex(z[0]), deg, b), R[0], 1e-12, 1e-12, "angle of a number")
    note.nontrivial(len(pts) > 2)


@S.sub("db", st.tuples(npts(1, 8).flatmap(lambda n: many(PT, n)), st.booleans()).map(list), quick=200)
def db(arg, note):
    pts, lab = arg
    mag = np.array([p[0] for p in pts])
    ang = np.array([p[1] / 2. for p in pts])
    z = mag * (np.cos(ang * np.pi / 180) + 1j * np.sin(ang * np.pi / 180))
    W = (lambda x: wrap(x, 0)) if lab else (lambda x: x)
    d = hm.dB(W(z))
    same(np.asarray(d), 20 * np.log10(mag), 1e-9, 1e-9, "dB")
    same(np.asarray(hm.dBinv(W(np.asarray(d)))), mag, 1e-9, 0, "dBinv")
    same(np.asarray(hm.dB(W(-mag))), 20 * np.log10(mag), 1e-9, 1e-9, "dB of negative values")
    same(np.asarray(hm.dB_angle_to_complex(W(np.asarray(d)), W(ang))), z, 1e-9, 1e-12 * mag.max(), "dB, angle")
    same(np.asarray(hm.mag_angle_to_complex(W(mag), W(ang))), z, 1e-9, 1e-12 * mag.max(), "magnitude, angle")
    exact(np.asarray(hm.re_im_to_complex(W(z.real), W(z.imag))), z, "real, imaginary")
    same(hm.mag_angle_to_complex(mag[0], ang[0]), z[0], 1e-9, 1e-12 * mag[0], "numbers")
    if lab:
        samedims(hm.dB_angle_to_complex(d, W(ang)).dims, d.dims)
    tiny = mag * 1e-24
    same(np.asarray(hm.dB(W(tiny))), 20 * np.log10(tiny), 1e-9, 1e-9, "dB of small values")
    for th in (0.3, 1., 5.):
        exact(np.asarray(hm.chop(W(mag), th)), np.where(mag < th, 0, mag), "chop at %r" % th)
    keep, lb = mag.copy(), W(mag.copy())
    hm.chop(keep, 2.), hm.chop(lb, 2.)
    exact(keep, mag, "argument of chop")
    exact(np.asarray(lb), mag, "argument of chop")
    same(np.asarray(hm.chop(W(mag), 0.5)), np.where(mag < 0.5, 0, mag), 0, 0, "chop")
    same(np.asarray(hm.chop(W(z), 0.5)), np.where(mag < 0.5, 0, z), 0, 0, "chop")
    exact(hm.chop(mag[0], 0.5), 0 if mag[0] < .5 else mag[0], "chop of a number")
    note.nontrivial(len(pts) > 2)


@S.sub("unwrap", st.tuples(npts(1, 10), shape, st.integers(0, 10 ** 6), st.booleans(), st.sampled_from([0.5, 1.5, 3.0])).map(list), quick=300)
def unwrap(arg, note):
    n, sh, seed, deg, step = arg
    rng = np.random.RandomState(seed)
    sh = [n] + sh
    ph = np.cumsum(rng.uniform(-step, step, sh), axis=0) + rng.uniform(-3, 3) + rng.uniform(-.4, .4, sh[1:])
    z = rng.uniform(0.1, 5, sh) * np.exp(1j * ph)
    a = wrap(z, seed)
    r = hm.unwrap_phase(a, deg=deg)
    exact(a, z, "argument")
    samedims(r.dims, a.dims)
    R = np.asarray(r)
    if deg:
        R = R / 180 * np.pi
    same(np.exp(1j * R), z / abs(z), 1e-8, 1e-8, "phase")
    same(np.exp(1j * R) / (z / abs(z)), np.ones(z.shape), 1e-11, 1e-11, "phase, exactly")
    same(np.diff(R, axis=0), np.diff(ph, axis=0), 1e-7, 1e-7, "phase steps")
    same(R[0].flat[0], np.angle(z[0].flat[0]), 1e-9, 1e-9, "first point")
    # traces that start close to the first one come out close to it
    near = abs(ph[0] - ph[0].flat[0]) < 1.9
    same(np.where(near, R[0] - R[0].flat[0], 0), np.where(near, ph[0] - ph[0].flat[0], 0), 1e-8, 1e-8, "start of the traces")
    q = hm.continous_phase_sqrt(a)
    Q = named(q, a.dims, "root")
    same(Q ** 2, z, 1e-9, 1e-9, "square of the root")
    if n > 1:
        dq = Q[1:] / Q[:-1]
        same(np.angle(dq), np.diff(ph, axis=0) / 2, 1e-7, 1e-7, "continuous root")
    note.nontrivial(n > 2)


@S.sub("delay", st.tuples(npts(2, 10), shape, st.integers(0, 10 ** 6), st.booleans(), st.booleans()).map(list), quick=300)
def delay(arg, note):
    n, sh, seed, const, last = arg
    rng = np.random.RandomState(seed)
    unit = [1e9, 1e9, 1.0, 1e12][seed // 3 % 4]
    f = (grid(n, rng) + [0, 0, 1, 60][seed % 4]) * unit
    tau = rng.uniform(-0.4, 0.4, sh) / unit * np.ones([n - 1] + sh) if const else rng.uniform(-.4, .4, [n - 1] + sh) / unit
    df = np.diff(f).reshape([-1] + [1] * len(sh))
    ph = np.concatenate([np.zeros([1] + sh), np.cumsum(-2 * np.pi * tau * df, axis=0)]) + rng.uniform(-3, 3)
    z = rng.uniform(0.5, 2, [n] + sh) * np.exp(1j * ph)
    sw = SW[1:] if last else SW[:0:-1]
    fu = [None, "Hz", "GHz", "MHz", "s"][seed // 12 % 5]   # a label: the coordinates are not scaled by it
    dims = (DimSweep("freq", f, unit=fu),) + tuple(CLS[c](m, range(k)) for (m, c), k in zip(sw, sh))
    fr, v = hfarray(dims[0]), hfarray(lay(z), dims=dims)
    fm, t = hm.delay(fr, v)
    exact(v, z, "argument")
    same(np.asarray(fm).reshape(-1), (f[1:] + f[:-1]) / 2, 1e-12, 0, "mid frequencies")
    names = [d.name for d in t.dims]
    check(sorted(names) == sorted(d.name for d in dims) and names[0] == "freq", "dims %r", t.dims)
    same(np.transpose(np.asarray(t), [names.index(d.name) for d in dims]), tau, 1e-5, 1e-9 / unit, "delay")
    note.nontrivial(n > 2)


@S.sub("smooth", st.tuples(npts(1, 10), shape, st.integers(0, 10 ** 6), npts(1, 9, 40), st.integers(0, 2), st.sampled_from("fci"), st.booleans(), st.booleans()).map(list), quick=400)
def smooth(arg, note):
    n, sh, seed, ap, ax, dt, lab, neg = arg
    rng = np.random.RandomState(seed)
    sh = [n] + sh
    ax = ax % len(sh)
    v = rng.randint(-50, 50, sh) if dt == "i" else rng.uniform(-1, 1, sh)
    if dt == "c":
        v = v + 1j * rng.uniform(-1, 1, sh)
    a = wrap(v, 0) if lab else v.copy()
    r = hm.smooth(a, ap, axis=ax - len(sh) if neg else ax) if ax or neg else hm.smooth(a, ap)
    exact(a, v, "argument")
    m = np.moveaxis(v, ax, 0)
    want = np.empty(m.shape, dtype=complex if dt == "c" else float)
    N = len(m)
    for i in range(N):
        w = min(i, ap // 2, N - 1 - i)
        hi = i + w + 1 if ap % 2 else i + w
        want[i] = m[i] if w == 0 else sum(m[k] * 1. for k in range(i - w, hi)) / (hi - (i - w))
    want = np.moveaxis(want, 0, ax)
    same(np.asarray(r), want, 1e-9, 1e-9, "moving average")
    if lab:
        samedims(r.dims, a.dims)
    r[...] = 0
    exact(a, v, "argument after changing the result")
    note.nontrivial(sh[ax] > 2 and ap > 1)


@S.sub("poly", st.tuples(npts(6, 12, 60), shape, st.integers(0, 10 ** 6), st.integers(5, 6), st.integers(0, 3), st.booleans()).map(list), quick=200)
def poly(arg, note):
    n, sh, seed, ap, N, lab = arg
    if ap > n - 1:
        return
    rng = np.random.RandomState(seed)
    x = grid(n, rng)
    sh = sh[:1]
    co = rng.uniform(-1, 1, [N + 1] + sh)
    y = sum(co[k] * (x.reshape([-1] + [1] * len(sh)) - 3) ** k for k in range(N + 1)) * np.ones([n] + sh)
    X, Y = (hfarray(DimSweep("freq", range(n))) * 0 + x, wrap(y, 0)) if lab and not sh else (x, y)
    r = hm.poly_smooth(X, Y, ap, N=N)
    exact(Y, y, "argument")
    same(np.asarray(r), y, 1e-6, 1e-6, "a polynomial of order %d is not changed by smoothing of order %d" % (N, N))
    # linearity
    y2 = rng.uniform(-1, 1, y.shape)
    a = np.asarray(hm.poly_smooth(x, y2, ap, N=N))
    b = np.asarray(hm.poly_smooth(x, 3 * y2 + y, ap, N=N))
    same(b, 3 * a + y, 1e-6, 1e-6, "linearity")
    # away from the edges the fit is that of the window around the point
    w = ap // 2
    for i in range(w, n - 1 - w - 1):
        sl = slice(i - w, i + w + ap % 2)
        V = np.vander(x[sl] - x[i], N + 1)
        c = np.linalg.lstsq(V, y2[sl], rcond=None)[0]
        same(a[i], c[-1], 1e-6, 1e-6, "fit at point %d" % i)
    note.nontrivial()


@S.sub("magphase", st.tuples(npts(7, 12, 40), st.integers(0, 10 ** 6), st.integers(1, 6), st.integers(0, 3), st.sampled_from([0.5, 1.5, 3.0])).map(list), quick=150)
def magphase(arg, note):
    n, seed, ap, N, step = arg
    rng = np.random.RandomState(seed)
    ph = np.cumsum(rng.uniform(-step, step, n)) + rng.uniform(-3, 3)
    mag = rng.uniform(0.1, 5, n)
    z = mag * np.exp(1j * ph)
    a = wrap(z, seed)
    x = grid(n, rng)
    # magnitude and (unwrapped) phase are smoothed, each like a real array
    todo = [("smooth_magphase", hm.smooth_magphase(a, ap), hm.smooth(mag, ap), hm.smooth(ph, ap))]
    if N < ap:
        todo.append(("poly_smooth_magphase", hm.poly_smooth_magphase(x, a, ap, N=N), hm.poly_smooth(x, mag, ap, N=N), hm.poly_smooth(x, ph, ap, N=N)))
    exact(a, z, "argument")
    for what, r, m, p in todo:
        same(np.asarray(r), np.asarray(m) * np.exp(1j * np.asarray(p)), 1e-6, 1e-6, what)
        samedims(r.dims, a.dims, what)
    note.nontrivial(ap > 2)


@S.sub("interpolate", st.tuples(npts(3, 10), st.integers(0, 10 ** 6), st.lists(st.integers(-3, 30), min_size=1, max_size=6), st.booleans(), st.sampled_from([1, 1, 1e-12, 1e9])).map(list), quick=300)
def interpolate(arg, note):
    n, seed, qs, cplx, scale = arg
    rng = np.random.RandomState(seed)
    x = grid(n, rng) * scale
    y = rng.uniform(-5, 5, n)
    if cplx:
        y = y + 1j * rng.uniform(-5, 5, n)
    xi = []
    for q in qs:
        if q < 0:
            xi.append(x[0] + q * 0.7 * scale)
        elif q >= 27:
            xi.append(x[-1] + (q - 26) * .9 * scale)
        else:
            k = q % n
            xi.append(x[k] if q % 2 or k == n - 1 else x[k] + (x[k + 1] - x[k]) * (q + 1) / 32.)
    xi = np.array(xi)

    def f(v):
        k = 0
        while k < n - 2 and v > x[k + 1]:
            k += 1
        return y[k] + (y[k + 1] - y[k]) * (v - x[k]) / (x[k + 1] - x[k])
    want = np.array([f(v) for v in xi])
    same(hm.linear_extrapolate(x, y, xi), want, 1e-8, 1e-8, "piecewise linear")
    same(hm.linear_extrapolate(x, y, float(xi[0])), want[0], 1e-8, 1e-8, "one point")
    out = bool(np.any(xi < x[0]) or np.any(xi > x[-1]))
    if out:
        check(raises(lambda: hm.interpolate(x, y, xi), ValueError) is not None, "interpolated outside %r..%r at %r", x[0], x[-1], xi)
    else:
        same(hm.interpolate(x, y, xi), want, 1e-8, 1e-8, "interpolate")
    # the same question about another grid with the same end points
    if n > 2:
        x = np.concatenate([x[:1], x[:1] + (x[1:-1] - x[:1]) * 0.5, x[-1:]])
        same(hm.linear_extrapolate(x, y, xi), np.array([f(v) for v in xi]), 1e-7, 1e-7, "piecewise linear on the next grid")
    note.hit("outside" if out else "inside")
    note.nontrivial()
