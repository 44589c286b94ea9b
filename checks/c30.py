"""C30: plotting draws exactly the projected values, every line along its dimension."""
import os
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp
import hftools.plotting
from hftools.plotting.helper import twin_axes_legend, twin_fig_legend, build_figlegend, adjust_axwidth, all_figures, save_all_figures_to_pdf, set_xtick, set_ytick

S = Suite("C30", rule="real and complex arrays over 1-3 sweep / repeat dims in any order, drawn on every projection with and without an x array (over the first or another dim, or over all dims in "
          "another order), with a line format or a per-call projection, also plain arrays; non-trivial: more than one line",
          assumptions=["no matrix dims", "non-zero magnitudes", "group delay and unwrapped phase are drawn along a sweep of labelled data", "polar plots get complex data"])

REALY = ["db", "db10", "mag", "mag_square", "rad", "deg", "real", "imag", "x-si", "unwraprad", "unwrapdeg", "groupdelay"]
CPLX = ["cplx", "smith", "cpolar", "rectilinear"]
ALL = REALY + CPLX + ["cplxpolar"]


@st.composite
def case(draw):
    nd = draw(st.integers(1, 3))
    names = draw(st.permutations(["freq", "vd", "rep"]))[:nd]
    dims = []
    big = draw(large_size())
    for n in names:
        k = draw(st.integers(1, 4))
        if big and n == names[-1]:
            k = min(big, 80)
        if n == "freq":
            k = max(k, 2)
        dims.append(dict(n=n, c="R" if n == "rep" else "S", d=sorted(draw(distinct(1, 50 if k < 20 else 500, k))), u={"freq": "Hz", "vd": "V", "rep": None}[n]))
    return dict(dims=dims, seed=draw(st.integers(0, 10 ** 6)), dt=draw(st.sampled_from("cccf")), proj=draw(st.sampled_from(ALL)), x=draw(st.sampled_from(["no", "no", "dim", "other", "full", "list"])),
                perm=draw(st.permutations(list(range(nd)))), fmt=draw(st.sampled_from([None, None, "r--"])), call=draw(st.booleans()), mono=draw(st.booleans()))


def data(sp):
    rng = np.random.RandomState(sp["seed"])
    sh = tuple(len(d["d"]) for d in sp["dims"])
    v = rng.uniform(0.05, 3, sh) * 10. ** (rng.randint(-2, 3) if sp["seed"] % 5 else -29)
    if sp["dt"] == "c":
        v = v * np.exp(1j * rng.uniform(-np.pi, np.pi, sh))
    else:
        v = v * rng.choice([-1, 1], sh)
    return v


def columns(v):
    return v.reshape(v.shape[0], -1).T


def shown(line):
    x, y = line.get_data(orig=True)
    return np.asarray(x), np.asarray(y)


def delays(y, x):
    q = y[1:] / y[:-1]
    return -np.arctan2(q.imag, q.real) / (2 * np.pi * np.diff(x))


@S.sub("projections", case(), quick=450)
def projections(sp, note):
    proj = sp["proj"]
    if proj == "cplxpolar":
        sp = dict(sp, dt="c")
    v = data(sp)
    dims = [CLS[d["c"]](d["n"], np.array(d["d"]) * (1e9 if d["n"] == "freq" else 1.), unit=d["u"]) for d in sp["dims"]]
    a = hfarray(v, dims=tuple(dims), unit="W")
    coords = [np.array(d.data, dtype=float) for d in dims]
    xmode = sp["x"]
    if proj in ("unwraprad", "unwrapdeg", "groupdelay"):
        fi = [d["n"] for d in sp["dims"]].index("freq") if any(d["n"] == "freq" for d in sp["dims"]) else None
        if fi is None:
            proj = "db"
        elif fi != 0 and xmode in ("no", "dim", "list", "full"):
            xmode = "freq"
        if proj == "groupdelay" and xmode in ("full", "list"):
            xmode = "no" if fi == 0 else "freq"
    # the order of dims in which lines are drawn
    order = list(range(len(dims)))
    xa = None
    if xmode == "dim":
        xa = hfarray(dims[0])
    elif xmode in ("other", "freq"):
        k = [d["n"] for d in sp["dims"]].index("freq") if any(d["n"] == "freq" for d in sp["dims"]) else len(dims) - 1
        xa = hfarray(dims[k])
        order = [k] + [i for i in order if i != k]
    elif xmode == "full":
        order = sp["perm"]
        if proj in ("unwraprad", "unwrapdeg") and order[0] != fi:
            order = [fi] + [i for i in order if i != fi]
        rng = np.random.RandomState(sp["seed"] + 1)
        xv = rng.uniform(0, 10, [len(coords[i]) for i in order])
        xa = hfarray(xv, dims=tuple(dims[i] for i in order), unit="A")
    elif xmode == "list":
        xa = np.arange(len(coords[0])) * 1.5 + 2
    w = np.transpose(v, order)
    if xmode == "full":
        X = columns(xv)
    elif xmode == "list":
        X = [xa] * (w.size // len(w))
    else:
        X = [coords[order[0]]] * (w.size // len(w))
    Y = columns(w)
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection="rectilinear" if (sp["call"] and proj in REALY) else proj)
        kw = dict(projection=proj) if (sp["call"] and proj in REALY) else {}
        args = ([] if xa is None else [xa]) + [a] + ([] if sp["fmt"] is None else [sp["fmt"]])
        style = dict(label="meas 1", linewidth=3.25, marker="v") if sp["seed"] % 3 == 0 else {}
        lines = ax.plot(*args, **dict(kw, **style))
        check(not style or all((l.get_linewidth(), l.get_marker()) == (3.25, "v") and l.get_label() == "meas 1" for l in lines), "line properties given by keyword are lost")
        check(list(lines) == list(ax.lines), "returned lines are not the drawn lines")
        check(len(lines) == len(Y), "%s: %d lines, expected %d", proj, len(lines), len(Y))
        if proj == "groupdelay":
            # lines may come in the order of the dims or of the sorted dims
            so = [order[0]] + sorted(order[1:], key=lambda i: sp["dims"][i]["c"] == "R")
            alt = columns(np.transpose(v, so))
            if not all(np.allclose(shown(l)[1], delays(y, x), rtol=1e-6, atol=0) for l, y, x in zip(lines, Y, X)):
                Y = alt
        for line, x, y in zip(lines, X, Y):
            gx, gy = shown(line)
            what = "%s line" % proj
            ex, ey = x, None
            if proj == "db":
                ey = 20 * np.log10(abs(y))
            elif proj == "db10":
                ey = 10 * np.log10(abs(y))
            elif proj == "mag":
                ey = abs(y)
            elif proj == "mag_square":
                ey = y.real ** 2 + y.imag ** 2
            elif proj == "rad":
                ey = np.arctan2(y.imag, y.real)
            elif proj == "deg":
                ey = np.arctan2(y.imag, y.real) * 180 / np.pi
            elif proj == "real":
                ey = y.real
            elif proj == "imag":
                ey = y.imag
            elif proj == "x-si":
                ey = y
            elif proj in ("unwraprad", "unwrapdeg"):
                same(gx, ex, 1e-12, 0, what + " x")
                ph = gy * (np.pi / 180 if proj == "unwrapdeg" else 1)
                same(np.exp(1j * ph), y / abs(y), 1e-7, 1e-7, what + " phase")
                step = np.diff(ph)
                check(bool(np.all(abs(step) <= np.pi + 1e-7)), "%s jumps by %r", what, step)
                continue
            elif proj == "groupdelay":
                ex = (x[1:] + x[:-1]) / 2
                q = y[1:] / y[:-1]
                ey = delays(y, x)
                turn = abs(abs(np.arctan2(q.imag, q.real)) - np.pi) < 1e-6
                ey = np.where(turn, abs(ey), ey)
                gy = np.where(turn, abs(gy), gy)
            elif proj == "cplxpolar":
                ex, ey = np.arctan2(y.imag, y.real), abs(y)
            elif sp["dt"] == "c":
                ex, ey = y.real, y.imag
            else:
                ey = y
            same(gx, ex, 1e-9, 1e-12, what + " x")
            same(gy, ey, 1e-9, 1e-12 if proj != "deg" else 1e-9, what + " y")
        exact(a, v, "plotted array")
        check([d.name for d in a.dims] == [d["n"] for d in sp["dims"]], "dims of the plotted array changed")
        if sp["fmt"]:
            check(all(l.get_linestyle() == "--" and l.get_color() == "r" for l in lines), "line format ignored")
        # the x axis knows the unit of x
        if proj in ("db", "db10", "mag_square", "real", "imag", "x-si", "rad", "deg", "mag") and not kw and xmode != "list":
            want = "A" if xmode == "full" else sp["dims"][order[0]]["u"]
            if want:
                check(ax.get_xlabel_unit() == want, "%s: unit of the x axis %r, expected %r", proj, ax.get_xlabel_unit(), want)
        if sp["mono"]:
            fig.canvas.draw()
    finally:
        plt.close(fig)
    note.hit(proj, "x:" + xmode)
    note.nontrivial(len(Y) > 1)


PLAIN = ["db", "db10", "mag", "mag_square", "rad", "deg", "real", "imag", "x-si", "cplxpolar"] + CPLX


@S.sub("plain", st.tuples(st.sampled_from(PLAIN), st.integers(1, 5), st.one_of(st.none(), st.integers(1, 3)), st.integers(0, 10 ** 6), st.booleans(), st.sampled_from("cf")).map(list), quick=150)
def plain(arg, note):
    proj, n, m, seed, hasx, dt = arg
    if proj == "cplxpolar":
        dt = "c"
    v = data(dict(dims=[dict(d=range(n))] + ([] if m is None else [dict(d=range(m))]), seed=seed, dt=dt))
    x = np.arange(n) * 2. + 3
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection=proj)
        style = dict(linewidth=3.25, marker="v") if seed % 3 == 0 else {}
        lines = ax.plot(x, v, **style) if hasx else ax.plot(v, **style)
        check(not style or all((l.get_linewidth(), l.get_marker()) == (3.25, "v") for l in lines), "line properties given by keyword are lost")
        Y = columns(v)
        check(len(lines) == len(Y), "%d lines, expected %d", len(lines), len(Y))
        fn = dict(db=lambda y: 20 * np.log10(abs(y)), db10=lambda y: 10 * np.log10(abs(y)), mag=abs, mag_square=lambda y: abs(y) ** 2, rad=np.angle, deg=lambda y: np.angle(y) * 180 / np.pi,
                  real=np.real, imag=np.imag)
        for l, y in zip(lines, Y):
            gx, gy = shown(l)
            ex, ey = (x if hasx else np.arange(n)), fn.get(proj, lambda y: y)(y)
            if proj in CPLX and dt == "c":
                ex, ey = y.real, y.imag
            if proj == "cplxpolar":
                same(gy * np.exp(1j * gx), y, 1e-9, 1e-12, "point in the polar plot")
                continue
            same(gx, ex, 1e-12, 1e-12, proj + " x")
            same(gy, ey, 1e-9, 1e-9, proj + " y")
    finally:
        plt.close(fig)
    note.nontrivial(m is not None and m > 1)


OWN = ["db", "db10", "mag", "mag_square", "rad", "deg", "real", "imag", "x-si", "rectilinear", "unity"]


@S.sub("per_call", st.tuples(st.sampled_from(OWN), st.sampled_from([None, None, "db", "mag", "deg", "imag", "real", "x-si"]), st.integers(0, 10 ** 6), st.booleans()).map(list), quick=80)
def per_call(arg, note):
    """the projection asked for in the call wins over that of the axes; None means the values as they are"""
    own, proj, seed, lab = arg
    v = data(dict(dims=[dict(d=range(4))], seed=seed, dt="f" if proj in (None, "x-si") else "c"))
    y = hfarray(v, dims=(DimSweep("freq", [1., 2., 4., 5.], unit="Hz"),)) if lab else v
    fig = plt.figure()
    try:
        ax = fig.add_subplot(111, projection=own)
        line, = ax.plot(np.array([1., 2., 4., 5.]), y, projection=proj)
        gx, gy = shown(line)
        same(gx, [1., 2., 4., 5.], 1e-12, 0, "x")
        fn = dict(db=lambda y: 20 * np.log10(abs(y)), mag=abs, deg=lambda y: np.angle(y) * 180 / np.pi, real=np.real, imag=np.imag)
        same(gy, fn.get(proj, lambda y: y)(v), 1e-9, 0, "%s on %s axes" % (proj, own))
        # and the next call is back to the axes' own
        line, = ax.plot(np.array([1., 2., 4., 5.]), abs(v))
        if own in ("db", "mag", "real"):
            same(shown(line)[1], fn[own](abs(v)), 1e-9, 1e-9, "next call on %s axes" % own)
    finally:
        plt.close(fig)
    note.nontrivial(own != proj)


@S.sub("helpers", st.tuples(st.lists(st.lists(st.sampled_from(["a", "b", "_hidden", "_", "c d", ""]), max_size=4), min_size=1, max_size=3), st.integers(-3, 3), st.integers(1, 3)).map(list), quick=60)
def helpers(arg, note):
    axes, dw, nfig = arg
    plt.close("all")
    try:
        nums = [[5], [7, 2], [4, 9, 3], [1], [1, 2], [1, 2, 3]][nfig - 1 + 3 * (dw % 2)]
        figs = [plt.figure(n) for n in nums]
        fig = figs[-1]
        axs, want = [], []
        for n, labels in enumerate(axes):
            ax = fig.add_subplot(len(axes), 1, n + 1)
            axs.append(ax)
            for k, lab in enumerate(labels):
                l = ax.plot([0, 1], [k, n], label=lab)[0]
                if not l.get_label().startswith("_"):
                    want.append(l)
        for given in (None, axs):
            lines, labels = build_figlegend(given)
            check(list(lines) == want and list(labels) == [l.get_label() for l in want], "legend entries %r, expected %r", labels, [l.get_label() for l in want])
        lines, labels = build_figlegend(axs[:1])
        check(list(lines) == [l for l in want if l.axes is axs[0]], "legend entries of one axes")
        pos = [ax.get_position().bounds for ax in axs]
        dw = dw * 20 if nfig == 3 else dw
        adjust_axwidth(dw / 100., axs[0])
        adjust_axwidth(dw / 100.)
        for n, (ax, p) in enumerate(zip(axs, pos)):
            q = ax.get_position().bounds
            same(np.array(q), np.array([p[0], p[1], p[2] + (2 if n == 0 else 1) * dw / 100., p[3]]), 1e-9, 1e-9, "position after adjust_axwidth")
        check([f.number for f in all_figures()] == sorted(nums), "all_figures gives %r", all_figures())
        set_xtick(0.5, 0.125, axs[0] if dw % 2 else axs)
        for ax in axs[:1] if dw % 2 else axs:
            ax.set_xlim(0, 2), ax.set_ylim(0, 2)
            same([x for x in ax.xaxis.get_majorticklocs() if 0 <= x <= 2], [0, .5, 1, 1.5, 2], 1e-9, 1e-9, "x ticks")
            same([x for x in ax.xaxis.get_minorticklocs() if 0.01 < x < .49], [.125, .25, .375], 1e-9, 1e-9, "minor x ticks")
        set_xtick(0.5, 0.4, axs[0])
        same([x for x in axs[0].xaxis.get_minor_locator()() if 0 < x < 1.9], [.4, .8, 1.2, 1.6], 1e-9, 1e-9, "coarse minor x ticks")
        set_ytick(0.25, 0.05, axs)
        same(np.ptp(np.diff(axs[0].xaxis.get_majorticklocs())) + np.diff(axs[0].xaxis.get_majorticklocs())[0], 0.5, 1e-9, 1e-9, "x tick distance")
        for ax in axs:
            same(np.ptp(np.diff(ax.yaxis.get_majorticklocs())) + np.diff(ax.yaxis.get_majorticklocs())[0], 0.25, 1e-9, 1e-9, "y tick distance")
            ax.set_ylim(0, 1)
            same([y for y in ax.yaxis.get_minorticklocs() if 0.01 < y < .24], [.05, .1, .15, .2], 1e-9, 1e-9, "minor y ticks")
        plt.sca(axs[-1])
        for fn, own in ((twin_axes_legend, lambda: axs[-1].get_legend()), (twin_fig_legend, lambda: fig.legends[-1])):
            for given in (None, axs[:1], axs[::-1]):
                src = want if given is None else [l for ax in given for l in want if l.axes is ax]
                fn(given)
                texts = [t.get_text() for t in own().get_texts()]
                check(texts == [l.get_label() for l in src], "%s shows %r, expected %r", fn.__name__, texts, [l.get_label() for l in src])
        with Tmp() as d:
            fn = os.path.join(d, "f.pdf" if dw % 2 else "f.PDF")
            save_all_figures_to_pdf(fn)
            raw = open(fn, "rb").read()
            check(raw.startswith(b"%PDF") and raw.count(b"/Type /Page ") == nfig or raw.count(b"/Type /Page\n") == nfig or raw.count(b"/Count %d" % nfig) >= 1, "the file does not have %d pages", nfig)
            try:
                save_all_figures_to_pdf(os.path.join(d, "f.png"))
                check(False, "a file that is not pdf was accepted")
            except ValueError:
                pass
    finally:
        plt.close("all")
    note.nontrivial(len(want) > 1)
