"""C34: physical constants and the waveguide table are consistent with each other."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
import hftools.constants as hc
import hftools.constants.waveguide as wgm

S = Suite("C34", rule="every entry of the waveguide table (enumerated) and every pair of entries; products and quotients of constants; non-trivial: every case",
          assumptions=["rectangular guides, dominant mode TE10, dimensions in mm, frequencies in Hz", "table values are rounded to 4 digits"])
NAMES = sorted(wgm.WR)


@S.sub("waveguides", st.sampled_from(NAMES), quick=60)
def waveguides(name, note):
    w = wgm.WR[name]
    c = 299792458.
    check(w.EIA == name and name.startswith("WR") and str(w.RCSC).startswith("WG") and str(w.IEC).startswith("R"), "names %r", w)
    a, b = w.a * 1e-3, w.b * 1e-3
    fc = c / (2 * a)
    same(w.fcl, fc, 5e-4, 0, "%s: cut-off frequency of a guide %g mm wide" % (name, w.a))
    same(w.fcu, min(c / a, c / (2 * b) if b < a / 2 * 0.9999 else c / a, 2 * fc), 2e-3, 0, "%s: cut-off of the next mode" % name)
    check(w.fcl < w.f0 < w.f1 < w.fcu, "%s: band %g-%g not within %g-%g", name, w.f0, w.f1, w.fcl, w.fcu)
    check(1.2 < w.f0 / w.fcl < 1.4 and 1.8 < w.f1 / w.fcl < 2., "%s: band %g-%g unusual for cut-off %g", name, w.f0, w.f1, w.fcl)
    check(0.4 < b / a <= 0.501, "%s: height %g of width %g", name, w.b, w.a)
    same(w.a / 25.4, float(name[2:]) / 100., 0.15, 0, "%s: width in inches" % name)
    check(abs(float(w.IEC[1:]) * 1e8 / ((w.f0 * w.f1) ** 0.5) - 1) < 0.08, "%s: %s for %g-%g", name, w.IEC, w.f0, w.f1)
    note.nontrivial()


@S.sub("order", st.tuples(st.sampled_from(NAMES), st.sampled_from(NAMES)).map(list), quick=300)
def order(arg, note):
    x, y = [wgm.WR[n] for n in arg]
    if x.a > y.a:
        check(x.b > y.b * 0.99 and x.fcl < y.fcl and x.fcu < y.fcu and x.f0 < y.f0 and x.f1 < y.f1, "%r and %r are not in order", x, y)
        check(float(x.IEC[1:]) < float(y.IEC[1:]), "%r and %r are not in order", x.IEC, y.IEC)
    if arg[0] != arg[1]:
        check(len({x.EIA, y.EIA, x.RCSC, y.RCSC, x.IEC, y.IEC}) == 6, "%r and %r share a name", x, y)
    note.nontrivial(arg[0] != arg[1])


@S.sub("constants", st.floats(0.01, 100), quick=30)
def constants(t, note):
    same(hc.c0 ** 2 * hc.epsilon * hc.mu, 1., 1e-8, 0, "speed of light squared times permittivity and permeability")
    same(np.sqrt(hc.mu / hc.epsilon), 376.730313, 1e-6, 0, "impedance of vacuum")
    same(hc.k * 290, 4.00388e-21, 1e-4, 0, "thermal noise density at 290 K")
    check(hc.k == hc.boltzmann, "two values of the Boltzmann constant")
    same(hc.planck * hc.c0 / hc.qelectron, 1.239841e-6, 1e-5, 0, "energy times wavelength of a photon in eV m")
    same(hc.boltzmann * 300 * t / hc.qelectron, 0.0258520 * t, 1e-4, 0, "thermal voltage")
    same(2 * hc.qelectron / hc.planck, 4.835978e14, 1e-5, 0, "Josephson constant")
    same(hc.qelectron ** 2 / (2 * hc.epsilon * hc.planck * hc.c0), 7.297353e-3, 1e-5, 0, "fine structure constant")
    note.nontrivial()
