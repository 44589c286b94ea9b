"""C31: Smith and polar charts: every grid line is the curve of constant resistance, reactance, conductance or susceptance it stands for."""
import sys
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
import hftools.plotting
smith = sys.modules["hftools.plotting.smith"]

S = Suite("C31", rule="circles of constant resistance / reactance / conductance / susceptance with values 0-50 (+-50) and any finite or infinite limits in either order, sampled along the drawn artist; "
          "all chart kinds; non-trivial: limits given",
          assumptions=["resistance and conductance are not negative", "normalised to the reference impedance"])

PI = np.pi


def trace(artist, steps=9):
    """points along the drawn artist as complex reflection coefficients"""
    p = artist.get_patch_transform().transform_path(artist.get_path())
    out = []
    for seg, _code in p.iter_bezier():
        if len(seg.control_points) > 1:
            out.extend(complex(*seg(t)) for t in np.linspace(0, 1, steps))
    return np.array(out)


def z_of(g):
    return (1 + g) / (1 - g)


def y_of(g):
    return (1 - g) / (1 + g)


vals = st.one_of(st.floats(0, 20).map(lambda x: round(x, 3)), st.sampled_from([0., 0.1, 1 / 3., 0.5, 1., 2., 3., 10., 50.]))
svals = st.one_of(st.floats(-20, 20).map(lambda x: round(x, 3)).filter(lambda x: x == 0 or abs(x) > 0.02), st.sampled_from([-50., -10., -3., -1., -1 / 3., 0., 1 / 3., 0.5, 1., 2., 3., 10., 50.]))
lim_any = st.sampled_from([-np.inf, -10., -2., -1., -0.3, 0., 0.3, 1., 2., 10., np.inf]).map(float)
lim_pos = st.sampled_from([0., 0.1, 0.5, 1., 2., 5., 30., np.inf])
T = {"inf": np.inf, "-inf": -np.inf}


def enc(x):
    return {np.inf: "inf", -np.inf: "-inf"}.get(x, x)


def dec(x):
    return T.get(x, x)


def one(kind, value, lims, note):
    f = getattr(smith, kind + "Circle")
    if lims is None:
        c = f(value)
        lo, hi = (-np.inf, np.inf) if kind in "RG" else (None, None)
    else:
        a, b = [dec(x) for x in lims]
        c = f(value, a, b)
        lo, hi = sorted((a, b))
    note.nontrivial(lims is not None)
    g = trace(c.get_artist(color="k"))
    return g, lo, hi


@S.sub("circles", st.tuples(st.sampled_from("RXGB"), vals, svals, st.one_of(st.none(), st.tuples(lim_any, lim_any).map(lambda t: [enc(x) for x in t])),
                            st.one_of(st.none(), st.tuples(lim_pos, lim_pos).map(lambda t: [enc(x) for x in t]))).map(list), quick=900)
def circles(arg, note):
    kind, v, sv, la, lp = arg
    value, lims = (v, la) if kind in "RG" else (sv, lp)
    if lims is not None and dec(lims[0]) == dec(lims[1]):
        lims = None
    if la is not None and kind in "RG" and lims is not None and any(np.isinf(dec(x)) for x in lims) and False:
        return
    g, lo, hi = one(kind, value, lims, note)
    inv = kind in "GB"
    pole = -1 if inv else 1
    conv = y_of if inv else z_of
    check(len(g) > 2, "nothing is drawn")
    if kind in "XB" and lims is None:
        # the whole circle, also outside the chart
        if value == 0:
            same(g.imag, 0 * g.imag, 0, 1e-9, "line")
            same([min(g.real), max(g.real)], [-1, 1], 0, 1e-9, "the line of no reactance")
        else:
            c0 = pole + (1j if not inv else -1j) / value
            same(abs(g - c0), np.full(len(g), 1 / abs(value)), 2e-3, 0, "radius")
        return
    near = abs(g - pole) < 2e-3 + 4e-3 * (hi is not None and not np.isfinite(hi))
    q = conv(g[~near])
    # positions on the chart are compared: distance between the drawn point and the exact curve
    back = (lambda w: (1 - w) / (1 + w)) if inv else (lambda w: (w - 1) / (w + 1))
    if kind in "RG":
        ideal = back(value + 1j * q.imag)
        run = q.imag
    else:
        ideal = back(q.real + 1j * value)
        run = q.real
    check(bool(np.all(abs(ideal - g[~near]) < 2e-3)), "%s%r: a drawn point lies %r off the curve", kind, (value, lims), max(abs(ideal - g[~near])))
    if lims is None:
        # a whole circle of resistance
        c0 = (-1 if inv else 1) * value / (value + 1.)
        same(abs(g - c0), np.full(len(g), 1 / (1. + value)), 2e-3, 0, "radius")
        check(np.ptp(g.imag) > 1.9 / (1 + value), "not a full circle")
        return
    # every drawn point is within the limits, in chart distance, and both ends are reached

    def at(limit):
        if np.isinf(limit):
            return complex(pole)
        return back(value + 1j * limit) if kind in "RG" else back(limit + 1j * value)
    for w, p in zip(run, g[~near]):
        if w < lo:
            check(abs(p - at(lo)) < 3e-3, "%s%r: drawn outside the limits at %r", kind, (value, lims), w)
        if w > hi:
            check(abs(p - at(hi)) < 3e-3, "%s%r: drawn outside the limits at %r", kind, (value, lims), w)
    for l in (lo, hi):
        check(min(abs(g - at(l))) < 3e-3, "%s%r: does not reach %r", kind, (value, lims), l)
    # no gaps along the way
    mids = np.tan(np.linspace(np.arctan(lo), np.arctan(hi), 9)[1:-1])
    for m in mids:
        check(min(abs(g - at(m))) < 0.12 * max(0.05, np.ptp(abs(g - at(lo))), 1), "%s%r: %r is not drawn", kind, (value, lims), m)
    note.hit(kind)


CH = {"smith": [("R", "full")], "inv_smith": [("G", "full")], "smith_lower": [("R", "lower")], "smith_upper": [("R", "upper")], "smith_polar": [("R", "lower"), ("P", "upper")],
      "polar_full": [("P", "full")], "polar_lower": [("P", "lower")], "polar_upper": [("P", "upper")], "empty": [],
      "grid_lower": [("G", "lower")], "grid_upper": [("G", "upper")], "grid_both": [("G", "full"), ("R", "full")], "grid_mixed": [("P", "upper"), ("G", "lower")]}
VAL = (1 / 3., 1., 3.)
TT = np.tan(np.linspace(-PI / 2, PI / 2, 402)[1:-1])


def expected(kind, mode):
    """the lines a grid consists of, as points on the chart"""
    half = {"full": lambda c: c, "upper": lambda c: c[c.imag >= -1e-12], "lower": lambda c: c[c.imag <= 1e-12]}[mode]
    out = []
    if kind == "P":
        turn = np.exp(1j * np.linspace(0, 2 * PI, 401))
        out = [half(r * turn) for r in (0.2, 0.4, 0.6, 0.8, 1.)]
        for k in range(8):
            ray = np.linspace(0, 1, 81) * np.exp(1j * k * PI / 4)
            if mode == "full" or (mode == "upper" and k <= 4) or (mode == "lower" and k in (0, 4, 5, 6, 7)):
                out.append(ray)
        return out
    back = (lambda w: (1 - w) / (1 + w)) if kind == "G" else (lambda w: (w - 1) / (w + 1))
    for r in (0.,) + VAL:
        out.append(half(back(r + 1j * TT)))
    out.append(back(abs(TT) + 0j))
    for x in VAL + tuple(-v for v in VAL):
        c = back(abs(TT) + 1j * x)
        if len(half(c)) == len(c):
            out.append(c)
    return out


def far(a, b):
    """largest distance from a point of a to the nearest of b"""
    return max(float(np.min(abs(b - p))) for p in a)


@S.sub("charts", st.tuples(st.sampled_from(sorted(CH)), st.sampled_from(["axes", "gca"])).map(list), quick=60)
def charts(arg, note):
    name, how = arg
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111)
        given = ax if how == "axes" else None
        if name.startswith("grid"):
            smith.empty_grid(given)
        if name in ("grid_lower", "grid_upper"):
            smith.smith_grid(given, name[5:], standard=False)
        elif name == "grid_both":
            smith.smith_grid(given)
            smith.smith_grid(given, standard=False)
        elif name == "grid_mixed":
            smith.polar_grid(given, "upper")
            smith.smith_grid(given, "lower", standard=False)
        elif name.startswith("polar"):
            smith.polar_grid(given, name[6:])
        elif name == "empty":
            smith.empty_grid(given)
        else:
            getattr(smith, name)(given)
        curves = [trace(p, 65) for p in ax.patches]
        curves = [c for c in curves if len(c) and np.ptp(abs(c - c[0])) > 1e-9]
        want = [c for k, m in CH[name] for c in expected(k, m)]
        if any(k == "P" for k, m in CH[name]):
            # a polar grid has the whole unit circle, also when only half of it is filled
            want.append(np.exp(1j * np.linspace(0, 2 * PI, 801)))
        if want:
            drawn = np.concatenate(curves)
            wanted = np.concatenate(want)
            check(bool(np.all(abs(drawn) <= 1.002)), "%s draws outside the unit circle: %r", name, max(abs(drawn)))
            # the two are compared as sets of points: nothing else is drawn, nothing is left out
            check(far(drawn, wanted) < 0.02, "%s draws a line that does not belong to the grid (%r off)", name, far(drawn, wanted))
            for c in want:
                check(far(c, drawn) < 0.04, "%s leaves out part of the line through %r (%r off)", name, complex(c[len(c) // 2]), far(c, drawn))
        else:
            check(not curves, "%s draws lines", name)
        fig.canvas.draw()
        # the whole unit circle is shown, and it is round
        if want:
            a, b, c, d = ax.axis()
            check(a <= -1 and b >= 1 and c <= -1 and d >= 1, "%s: the axis %r does not show the unit circle", name, (a, b, c, d))
            o, e1, e2 = ax.transData.transform([(0, 0), (1, 0), (0, 1)])
            same(np.hypot(*(e1 - o)), np.hypot(*(e2 - o)), 1e-6, 0, "%s: the unit circle is not round" % name)
    finally:
        plt.close(fig)
    note.nontrivial()
    note.hit(name)


@S.sub("plot", st.tuples(st.lists(st.tuples(st.sampled_from([0., 0.3, 1., 5.]), st.sampled_from([-7., -1., 0., 0.2, 2.])).map(list), min_size=1, max_size=6), st.sampled_from(["smith", "cpolar"])).map(list), quick=40)
def plot(arg, note):
    zs, proj = arg
    g = np.array([(complex(r, x) - 1) / (complex(r, x) + 1) for r, x in zs])
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection=proj)
        l, = ax.plot(hfarray(g, dims=(DimSweep("freq", range(len(g))),)))
        same(l.get_xdata(), g.real, 1e-12, 1e-12, "real part")
        same(l.get_ydata(), g.imag, 1e-12, 1e-12, "imaginary part")
        n = 0
        for gg, (r, x) in zip(g, zs):
            same(smith.z2gamma(complex(r, x)), gg, 1e-12, 1e-12, "z2gamma")
            if r or x:
                same(smith.y2gamma(1 / complex(r, x)), gg, 1e-9, 1e-9, "y2gamma")
                n += 1
        fig.canvas.draw()
    finally:
        plt.close(fig)
    note.nontrivial(n > 1)
