"""C32: what an axis shows (tick text times the prefix in the axis label) equals the tick's value."""
import re
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
import hftools.plotting
from hftools.plotting.helper import xlabel_fmt, ylabel_fmt

S = Suite("C32", rule="axes of every projection with prefixed ticks, data over 1e-24..1e24, followed by 1-4 changes of limits or explicit ticks (also spanning many decades, zero, negative), label formats "
          "and units, redrawn after each; non-trivial: a prefix is shown or the ticks carry their own",
          assumptions=["the label format has a unit field ([] or [^])", "values are compared to a thousandth of the prefixed unit, ticks with their own prefix to half a hundredth of it"])

PRE = {"y": -24, "z": -21, "a": -18, "f": -15, "p": -12, "n": -9, "u": -6, "\xb5": -6, "\u03bc": -6, "m": -3, "": 0, "k": 3, "M": 6, "G": 9, "T": 12, "P": 15, "E": 18, "Z": 21, "Y": 24}
UNITS = ["Hz", "V", "s", "m", "Ohm", None, "deg", "h", "min"]
NAME = {"Hz": "Frequency", "s": "Time", "h": "Time", "min": "Time", "m": "Length"}
mant = st.integers(1, 9999).map(lambda k: k / 1000.)
change = st.one_of(st.tuples(st.just("lim"), mant, mant, st.integers(-29, 29), st.sampled_from(["pos", "zero", "sym", "neg"])).map(list),
                   st.tuples(st.just("ticks"), st.lists(st.tuples(mant, st.integers(-6, 9)).map(list), min_size=1, max_size=5)).map(list),
                   st.tuples(st.just("fmt"), st.sampled_from(["foo []", "{default} []", "[]", "Gain %%, []", "a [^]", "{default} [^]"]), st.sampled_from([None, None, "V", "Hz", "deg"])).map(list),
                   st.tuples(st.just("plot"), st.sampled_from(["Hz", "V", "s", "W"]), st.integers(-3, 3)).map(list),
                   st.tuples(st.just("unit"), st.sampled_from(["Hz", "V", "s", "m", "W"])).map(list))


def parse_label(lab, unit):
    unit = "\xb0" if unit == "deg" else unit
    m = re.search(r"\$\[10\^\{+(-?[0-9]+)\}+(\\rm\{(.*)\})?\]\$", lab)
    if m:
        check((m.group(3) or "") == (unit or ""), "label %r does not name the unit %r", lab, unit)
        return int(m.group(1))
    m = re.search(r"\[([^\]]*)\]", lab)
    check(m is not None, "label %r has no unit field", lab)
    inside = m.group(1)
    u = unit or "U"
    check(inside.endswith(u), "label %r does not name the unit %r", lab, u)
    p = inside[:-len(u)]
    check(p in PRE, "label %r has an unknown prefix", lab)
    return PRE[p]


def verify(ax, axis, fig, unit, note, what, fmt=None, name="sweep"):
    fig.canvas.draw()
    a = ax.xaxis if axis == "x" else ax.yaxis
    lab = ax.get_xlabel() if axis == "x" else ax.get_ylabel()
    lo, hi = sorted(a.get_view_interval())
    ticks = [(t.get_loc(), t.label1.get_text()) for t in a.get_major_ticks() if lo <= t.get_loc() <= hi]
    if not ticks:
        return
    exp = parse_label(lab, unit)
    if fmt is not None:
        head = re.split(r" ?\$?\[", lab)[0]
        want = re.split(r" ?\[", fmt)[0].replace("%%", "%").replace("{default}", NAME.get(unit, name))
        check(head == want, "%s: label %r, expected %r", what, lab, want)
    own = False
    shown = []
    size = [abs(loc) for loc in map(float, a.get_majorticklocs()) if loc]
    wide = size and max(size) > 10001 * min(size)
    for loc, text in ticks:
        t = text.replace("\u2212", "-").strip()
        m = re.match(r"^([-+]?[0-9.]+(?:e[-+][0-9]+)?)\s*([a-zA-Z\xb5\u03bc]?)$", t)
        check(m is not None, "%s: tick text %r", what, text)
        num, p = float(m.group(1)), m.group(2)
        check(p in PRE, "tick text %r", text)
        sci = "e" in m.group(1)
        val = num * 10. ** (exp + PRE[p])
        if sci:
            tol = 6e-4 * abs(loc)
        elif p:
            own = True
            tol = 5.1e-3 * 10. ** (exp + PRE[p])
            check(exp == 0, "%s: tick %r has a prefix of its own and the label %r too", what, text, lab)
        else:
            tol = (5.1e-3 if exp == 0 and len(t.partition(".")[2]) == 2 else 1.05e-3) * 10. ** exp
        if wide and 1e-24 <= abs(loc) < 1e27:
            tol = 6e-3 * abs(loc)
        shown.append((abs(loc), abs(num), p or sci))
        check(abs(val - loc) <= tol, "%s: the tick at %r shows %r with label %r", what, loc, text, lab)
    top = max(shown)
    if not wide and not top[2] and 1e-24 <= top[0] < 1e27 and top[0] == max(size or [0]):
        check(0.99 <= top[1] <= 1000.1, "%s: the prefix of %r does not fit the largest tick %r", what, lab, top)
    note.nontrivial(exp != 0 or own)
    note.hit("prefix %d" % exp if not own else "own prefix")


PROJ = {"db": "x", "db10": "x", "mag": "xy", "mag_square": "xy", "unity": "xy", "x-si": "x", "cplx": "xy", "groupdelay": "xy", "real": "xy", "imag": "xy", "deg": "x", "rad": "x", "unwraprad": "x", "unwrapdeg": "x"}


@S.sub("ticks", st.tuples(st.sampled_from(sorted(PROJ)), st.booleans(), st.sampled_from(UNITS), st.tuples(mant, st.integers(-29, 29)).map(list), st.lists(change, min_size=1, max_size=4)).map(list), quick=220)
def ticks(arg, note):
    proj, yax, unit, (m, e), changes = arg
    axis = "y" if yax and "y" in PROJ[proj] else "x"
    fig = plt.figure(figsize=(4, 3))
    try:
        ax = fig.add_subplot(111, projection=proj)
        v = np.array([1., 1.5, 2., 3.]) * m * 10. ** e
        if axis == "x":
            f = DimSweep("sweep", v, unit=unit)
            y = hfarray(np.array([1., 2., 4., 3.]) + (1j * np.array([3., 1., 1., 2.]) if proj == "cplx" else 0), dims=(f,))
            if proj == "cplx":
                y = y * (m * 10. ** e)
                y = hfarray(np.asarray(y), dims=(DimSweep("sweep", v, unit="K"),), unit=unit)
        else:
            f = DimSweep("sweep", [1., 2., 3., 4.], unit="Hz")
            y = hfarray(np.array(v) * np.exp(1j * 0.3), dims=(f,), unit=unit)
        ax.plot(y)
        cur = unit
        deffmt = "{default} []" if axis == "x" and proj != "cplx" else None
        verify(ax, axis, fig, cur, note, "first draw", deffmt)
        for c in changes:
            if c[0] == "lim":
                _, a, b, e2, kind = c
                s = 10. ** e2
                lo, hi = min(a, b) * s, max(a, b) * s
                if hi - lo < 0.2 * hi:
                    hi = hi * 1.5
                lo, hi = {"pos": (lo, hi), "zero": (0., hi), "sym": (-hi, hi), "neg": (-hi, -lo)}[kind]
                ax.set_xlim(lo, hi) if axis == "x" else ax.set_ylim(lo, hi)
            elif c[0] == "ticks":
                locs = sorted({mm * 10. ** ee for mm, ee in c[1]})
                if len(locs) < 2:
                    locs = [0.] + locs
                ax.set_xlim(locs[0], locs[-1]) if axis == "x" else ax.set_ylim(locs[0], locs[-1])
                (ax.xaxis if axis == "x" else ax.yaxis).set_major_locator(matplotlib.ticker.FixedLocator(locs))
            elif c[0] == "fmt":
                deffmt = c[1] if axis == "x" and proj != "cplx" else None
                if c[2] is None:
                    (xlabel_fmt if axis == "x" else ylabel_fmt)(c[1], axes=ax)
                else:
                    (xlabel_fmt if axis == "x" else ylabel_fmt)(c[1], c[2], axes=ax)
                    cur = c[2]
                check((ax.get_xlabel_fmt() if axis == "x" else ax.get_ylabel_fmt()) == c[1], "label format not kept")
            elif c[0] == "plot":
                cur = c[1]
                if axis == "x" and proj != "cplx":
                    again = hfarray(np.array([1., 2.]), dims=(DimSweep("other", v[:2] * 10. ** c[2], unit=cur),))
                else:
                    again = hfarray(v[:2] * 10. ** c[2] * np.exp(.4j), dims=(DimSweep("other", [1., 2.], unit="Pa"),), unit=cur)
                ax.plot(again)
            else:
                cur = c[1]
                (ax.set_xlabel_unit if axis == "x" else ax.set_ylabel_unit)(cur)
                check((ax.get_xlabel_unit() if axis == "x" else ax.get_ylabel_unit()) == cur, "unit not kept")
            verify(ax, axis, fig, cur, note, "after %r" % (c,), deffmt)
    finally:
        plt.close(fig)


@S.sub("db", st.tuples(st.sampled_from(["db", "db10"]), st.tuples(st.integers(-90, 60), st.integers(1, 80)).map(list), st.lists(st.sampled_from([0., 0.05, 0.25, 0.3, 0.007, 0.125, 1., 0.06, 2.5, 0.999]), max_size=4)).map(list), quick=120)
def db(arg, note):
    proj, (lo, span), fix = arg
    fig = plt.figure(figsize=(4, 3))
    try:
        ax = fig.add_subplot(111, projection=proj)
        ax.plot(hfarray([1., 2.], dims=(DimSweep("freq", [1e9, 2e9], unit="Hz"),)))
        ax.set_ylim(lo, lo + span / 4.)
        if fix:
            ax.yaxis.set_major_locator(matplotlib.ticker.FixedLocator([lo + q for q in fix]))
        fig.canvas.draw()
        check("dB" in ax.get_ylabel(), "label %r", ax.get_ylabel())
        for t in ax.yaxis.get_major_ticks():
            check(abs(float(t.label1.get_text()) - t.get_loc()) <= 1.05e-3, "the tick at %r shows %r", t.get_loc(), t.label1.get_text())
    finally:
        plt.close(fig)
    note.nontrivial()
