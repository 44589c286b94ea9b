"""C29: SI units: prefixes scale by their power of ten; numbers with units parse and format consistently."""
from fractions import Fraction
import re
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.constants import unit_to_multiplier, string_number_with_unit_to_value, convert_with_unit, SIFormat
from hftools.constants.si_units import format_number
from hftools.constants import siprefixes, si_units

S = Suite("C29", rule="all prefix/unit pairs and unknown units; decimal numbers of 1-17 digits in plain, signed, exponent and bare-point notation with a unit attached, "
          "separated or bracketed; values of any magnitude, mostly 1e-24..1e27 (also next to powers of 1000) formatted with 0-12 digits; non-trivial: a prefix or exponent is involved",
          assumptions=["prefixes in front of the units Hz s S Ohm m V A F W", "a unit glued to a number does not start with e or E; a unit parsed from text is letters or %"])

EXP = dict(d=-1, c=-2, m=-3, u=-6, n=-9, p=-12, f=-15, a=-18, k=3, M=6, G=9, T=12, P=15, E=18)
OUT = dict(EXP, Z=21, Y=24, z=-21, y=-24)
BASES = ["Hz", "s", "S", "Ohm", "m", "V", "A", "F", "W"]
OTHER = ["dB", "dBm", "C", "K", "rpm", "mXYZ", "kg", "Pa", "min", "deg", "T", "M", "GHzz", "mm2", "cd", "B", "kk", "GHZ", "Mhz", "ghz", "kohm", "mOHM", "KHz", "HZ", "MM", "gV", "hm", "Zm", "yV"]


def mult(u):
    if u == "%":
        return Fraction(1, 100), None
    if u == "#":
        return Fraction(1), None
    if len(u) > 1 and u[0] in EXP and u[1:] in BASES:
        return Fraction(10) ** EXP[u[0]], u[1:]
    return Fraction(1), u


anyunit = st.one_of(st.tuples(st.sampled_from(sorted(EXP) + [""]), st.sampled_from(BASES)).map("".join), st.sampled_from(OTHER + ["%", "#"]),
                    st.text("abcdkmMGTzHOVAsSFW", min_size=1, max_size=4))


@S.sub("multiplier", st.tuples(anyunit, st.sampled_from(["", " ", "  "])).map(list), quick=500)
def multiplier(arg, note):
    u, pad = arg
    m, b = mult(u)
    gm, gb = unit_to_multiplier(pad + u + pad)
    check(gb == b, "%r has base unit %r, expected %r", u, gb, b)
    check(abs(gm - float(m)) <= 1e-12 * float(m), "%r multiplies by %r, expected %r", u, gm, float(m))
    if u[:-2] in EXP and u.endswith("Hz"):
        check(np.isclose(getattr(si_units.siunits, u), float(m), rtol=1e-12), "siunits.%s", u)
        check(np.isclose(siprefixes[u[:-2]], float(m), rtol=1e-12), "siprefixes[%s]", u[:-2])
    note.hit("prefix" if m != 1 else "plain")
    note.nontrivial(m != 1 or len(u) > 1)


@st.composite
def decimal(draw):
    """text of a decimal number and its exact value"""
    i = draw(st.integers(0, 10 ** draw(st.sampled_from([1, 3, 9, 15]))))
    t = str(i)
    k = draw(st.sampled_from(["int", "frac", "frac", "point", "lead"]))
    if k == "frac":
        t += "." + draw(st.text("0123456789", min_size=1, max_size=6))
    elif k == "point":
        t += "."
    elif k == "lead":
        t = "." + draw(st.text("0123456789", min_size=1, max_size=6))
    t = draw(st.sampled_from(["", "", "-", "+"])) + t
    if draw(st.booleans()):
        t += draw(st.sampled_from("eE")) + draw(st.sampled_from(["", "+", "-"])) + draw(st.sampled_from(["%d", "%02d", "%03d"])) % draw(st.integers(0, 15))
    return t


def exactval(t):
    m = re.match(r"([+-]?)(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?$", t)
    s, a, b, e = m.groups()
    return (-1 if s == "-" else 1) * Fraction(int((a + b) or "0"), 10 ** len(b)) * Fraction(10) ** int(e or 0)


@S.sub("parse", st.tuples(decimal(), st.one_of(st.none(), anyunit), st.sampled_from(["", " ", "  ", "\t"]), st.booleans()).map(list), quick=800)
def parse(arg, note):
    t, u, sep, brk = arg
    u = {"#": "%", "mm2": "mm"}.get(u, u)
    if u and u[0] in "eE" and not sep:
        sep = " "
    if u == "#":
        u = "%"
    txt = t + ((sep + ("[%s]" % u if brk else u)) if u else "")
    v = string_number_with_unit_to_value(txt)
    m, b = mult(u) if u else (Fraction(1), None)
    w = float(exactval(t) * m)
    check(abs(float(v) - w) <= 4e-16 * abs(w) * 4, "%r parsed as %r, expected %r", txt, float(v), w)
    check(v.unit == b, "%r has unit %r, expected %r", txt, v.unit, b)
    check(v.shape == (), "scalar")
    # a number is its own value
    for q in (float(t), int(float(t))):
        check(string_number_with_unit_to_value(q) == q, "the number %r became %r", q, string_number_with_unit_to_value(q))
    # the same value given as number or text with a separate unit
    if u:
        for val in (t, float(t)):
            c = convert_with_unit(u, val)
            check(abs(float(c) - w) <= 2e-15 * abs(w) and c.unit == b, "convert_with_unit(%r, %r) = %r %r", u, val, c, c.unit)
    note.hit("unit" if u else "bare")
    note.nontrivial(m != 1 or "e" in t.lower())


@S.sub("reject", st.sampled_from(["abc", "", "V", "-", ".", "1.2.3", "--3", "e5", "x12", "+-1", "[V]", "..5"]), quick=40)
def reject(t, note):
    e = raises(lambda: string_number_with_unit_to_value(t), ValueError)
    check(e is not None, "%r was accepted as a number", t)
    note.nontrivial()


@st.composite
def mag(draw):
    e = draw(st.one_of(st.integers(-24, 26), st.integers(-24, 26), st.integers(-290, 300)))
    k = draw(st.integers(0, 5))
    if k == 0:
        m = draw(st.sampled_from([1.0, 9.99999, 9.9999999999, 1.0000001, 0.99999999999, 5.0]))
    else:
        m = draw(st.integers(10 ** 6, 10 ** 7 - 1)) / 1e6
    v = m * 10.0 ** e if e >= 0 else m / 10.0 ** -e
    return v if draw(st.booleans()) else -v


@S.sub("format", st.tuples(st.one_of(mag(), mag(), st.just(0.0), st.sampled_from([1e3, 1e6, 1e-3, 1e-6, 1e9, 1e-9, 1e-12, 1e15, 1.0, 10.0, 100.0])), st.integers(0, 12),
                           st.sampled_from(BASES + ["dBm", "", "K"]), st.booleans()).map(list), quick=800)
def fmt(arg, note):
    v, digs, unit, greek = arg
    inf = float("inf")
    for w, t in ((inf, "inf"), (-inf, "-inf")):
        check(SIFormat(unit=unit, digs=digs, greek=greek) % w == "%s %s" % (t, unit), "%r formats as %r", w, SIFormat(unit=unit, digs=digs, greek=greek) % w)
    check(format_number(3e-6, unit=unit, digs=0, greek=greek) == "3 %s%s" % ("\u03bc" if greek else "u", unit), "3e-6 formats as %r", format_number(3e-6, unit=unit, digs=0, greek=greek))
    s = SIFormat(unit=unit, digs=digs, greek=greek) % v
    w = SIFormat(unit=unit, digs=digs, greek=greek) % float("nan")
    check(w == "nan %s" % unit, "nan formats as %r", w)
    check(s == format_number(v, unit=unit, digs=digs, greek=greek), "SIFormat and format_number differ")
    num, u = s.split(" ")
    check(u.endswith(unit), "%r does not end with the unit %r", s, unit)
    p = u[:len(u) - len(unit)]
    check(p == "" or p in OUT or (greek and p == "\u03bc"), "prefix %r in %r", p, s)
    check(not (greek and p == "u"), "greek prefix expected in %r", s)
    if v and not 1e-24 <= abs(v) < 1e27:   # beyond the prefixes
        check(p == "", "%r formats as %r", v, s)
        q = re.match(r"-?\d(\.\d+)?e[+-]\d+$", num)
        check(q is not None and len((q.group(1) or ".")[1:]) == digs, "%r formats as %r", v, s)
        err = abs(Fraction(num) - Fraction(v))
        check(err <= abs(Fraction(v)) * (Fraction(51, 100) / 10 ** digs + Fraction(1, 10 ** 13)), "%r formats as %r", v, s)
        note.nontrivial()
        return
    e = 0 if p == "" else -6 if p == "\u03bc" else OUT[p]
    check(p not in ("d", "c"), "prefix %r", p)
    check(len(num.split(".")[1]) == digs if digs else "." not in num, "%r does not have %d decimals", s, digs)
    back = Fraction(num) * Fraction(10) ** e
    err = abs(back - Fraction(v))
    lim = Fraction(10) ** e * Fraction(10) ** -digs * Fraction(501, 1000) + abs(Fraction(v)) * Fraction(1, 10 ** 13)
    check(err <= lim, "%r formats as %r", v, s)
    if v:
        a = abs(v) / 10.0 ** e
        check(.999999999 <= a < 1000.000001, "%r formats as %r: not in engineering range", v, s)
    else:
        check(p == "", "zero has a prefix: %r", s)
    if unit in BASES and not greek and (p == "" or p in EXP):
        q = string_number_with_unit_to_value(s)
        check(abs(float(q) - float(back)) <= 1e-14 * abs(float(back)) and q.unit == unit, "%r reads back as %r %r", s, q, q.unit)
        note.hit("readback")
    note.hit("prefix" if p else "none")
    note.nontrivial(p != "")
