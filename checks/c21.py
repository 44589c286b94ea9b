"""C21: comments keep their text, and name/value comments become values with units; standard names are normalised without losing data."""
import random
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
import hftools.dataset.comments as dcom
import hftools.file_formats.common as fcom

S = Suite("C21", rule="lists of 1-8 comment lines (name = value, name : value, name [unit] = value; numbers in many notations with SI-prefixed, plain or no unit, dates, "
          "free text), in both comment classes, extended / copied / turned into block variables; blocks whose variable and dimension names come from the "
          "normalisation table, Mean()/Std() forms and others; non-trivial: >= 2 lines with a value, or >= 2 renamed variables",
          assumptions=["a name has no ':', '=' or brackets; text values start with a letter and do not spell nan or inf", "a number is followed by nothing or one unit of letters"])

PRE = dict(m=1e-3, u=1e-6, n=1e-9, p=1e-12, f=1e-15, a=1e-18, k=1e3, M=1e6, G=1e9, T=1e12, P=1e15, E=1e18, d=.1, c=.01)
BASES = ["Hz", "s", "S", "Ohm", "V", "A", "F", "W", "m"]
PLAIN = ["dBm", "dB", "C", "rpm", "mXYZ", "K"]
name = st.sampled_from(["Vgs", "Power1", "T", "Cable port 1", "x_y", "IF Bandwidth", "a.b", "Start_Frequency", "\xe5ngstr\xf6m", "Id", "n-1"])
TXT = ["TRL", "Type N male load  SP503388 S/N 00923", "no, thanks", "a=b", "Fri Jun 11 09:53:19 2010", "No Cal - Raw Data", '"quoted"', "x:y", "OML WR-03"]


def multof(u):
    """(factor, base) of a unit by the rule: an SI prefix before a known SI unit"""
    if u is None:
        return 1, None
    if u == "%":
        return .01, None
    if u == "#":
        return 1, None
    if len(u) > 1 and u[0] in PRE and u[1:] in BASES:
        return PRE[u[0]], u[1:]
    return 1, u


@st.composite
def unit(draw):
    k = draw(st.integers(0, 9))
    if k < 2:
        return None
    if k < 6:
        return draw(st.sampled_from(sorted(PRE) + [""] * 6)) + draw(st.sampled_from(BASES))
    if k == 6:
        return "%"
    return draw(st.sampled_from(PLAIN))


@st.composite
def numtext(draw):
    v = draw(st.one_of(st.integers(-10 ** 6, 10 ** 6), small_float, st.floats(-1e15, 1e15, allow_nan=False).map(lambda x: x if abs(x) > 1e-15 else 0.0)))
    f = draw(st.sampled_from(["%r", "%.6f", "%e", "%+.9E", "%d", "%g", "%.3e"]))
    if f == "%d" and abs(v) > 1e12:
        f = "%r"
    return f % v


@st.composite
def line(draw):
    kind = draw(st.sampled_from(["num", "num", "num", "date", "datetime", "text", "utext", "plain"]))
    nm = draw(name)
    eq = draw(st.sampled_from(["=", ":", " = ", " : ", "  =  ", ": "]))
    lead = draw(st.sampled_from(["", "!", "! ", "!  "]))
    trail = draw(st.sampled_from(["", "", " "]))
    if kind == "num":
        u = draw(unit())
        t = draw(numtext())
        where = draw(st.sampled_from(["after", "nosep", "brk", "brkafter"])) if u else "none"
        if where == "nosep" and u[0] in "eE":
            where = "after"
        return dict(k=kind, n=nm, eq=eq, t=t, u=u, w=where, lead=lead, trail=trail)
    if kind in ("date", "datetime"):
        d = "%04d-%02d-%02d" % (draw(st.integers(1950, 2100)), draw(st.integers(1, 12)), draw(st.integers(1, 28)))
        if kind == "datetime":
            d += draw(st.sampled_from([" ", "  ", "\t"])) + "%02d:%02d" % (draw(st.integers(0, 23)), draw(st.integers(0, 59)))
            if draw(st.booleans()):
                d += ":%02d" % draw(st.integers(0, 59))
                d += draw(st.sampled_from(["", "", ".25"]))
        return dict(k=kind, n=nm, eq=eq, t=d, lead=lead, trail="")
    if kind == "plain":
        return dict(k=kind, t=draw(st.sampled_from(["Measurement Setups", "free text 1 2 3", "--", "note", "", "# note", "#", "look out!"])), lead=lead, trail=trail)
    return dict(k=kind, n=nm, eq=eq, t=draw(st.sampled_from(TXT)), u=draw(st.sampled_from(["V", "mA", " ", "C"])), lead=lead, trail="")


def write(l):
    if l["k"] == "plain":
        s = l["t"]
    elif l["k"] == "num":
        s = dict(none=l["n"] + l["eq"] + l["t"], after=l["n"] + l["eq"] + l["t"] + " " + str(l["u"]), nosep=l["n"] + l["eq"] + l["t"] + str(l["u"]),
                 brk=l["n"] + " [%s]" % l["u"] + l["eq"] + l["t"], brkafter=l["n"] + l["eq"] + l["t"] + " [%s]" % l["u"])[l["w"]]
    elif l["k"] == "utext":
        s = l["n"] + " [%s]" % l["u"] + l["eq"] + l["t"]
    else:
        s = l["n"] + l["eq"] + l["t"]
    return l["lead"] + s + l["trail"], s


def want(l, cls):
    """-> None (no property) or (kind, value, unit)"""
    if l["k"] == "plain":
        return None
    if l["k"] == "num":
        m, b = multof(l["u"])
        return "num", float(l["t"]) * m, b
    if l["k"] == "datetime" or (l["k"] == "date" and cls == "f"):
        return "date", np.datetime64(" ".join(l["t"].split())), None
    return "text", l["t"], None


def verify(got, w, key):
    kind, v, u = w
    if kind == "num":
        check(not isinstance(got, str), "%s is text %r, expected the number %r", key, got, v)
        check(np.isclose(float(got), v, rtol=1e-12, atol=1e-300), "%s = %r, expected %r", key, got, v)
        check(getattr(got, "unit", None) == u, "%s: unit %r, expected %r", key, getattr(got, "unit", None), u)
    elif kind == "date":
        check(isinstance(got, np.datetime64) or getattr(got, "dtype", np.dtype(int)).kind == "M", "%s is %r, expected a date", key, got)
        check(np.datetime64(got) == v, "%s = %r, expected %r", key, got, v)
    else:
        check(str(got).strip() == v.strip(), "%s = %r, expected text %r", key, got, v)


@S.sub("comments", st.tuples(st.lists(line(), min_size=1, max_size=8) | st.lists(line(), min_size=12, max_size=30), st.lists(line(), max_size=4), st.booleans()).map(list), quick=600)
def comments(arg, note):
    a, b, db_too = arg
    for cls, mod in (("d", dcom), ("f", fcom)):
        ta, tb = [write(l) for l in a], [write(l) for l in b]
        given = [x[0] for x in ta]
        c = mod.Comments(list(given))
        model = {}
        for l in a:
            w = want(l, cls)
            if w:
                model[l["n"]] = w

        def look(c, model, what):
            check(set(c.property) == set(model), "%s: properties %r, expected %r", what, sorted(c.property), sorted(model))
            for k, w in model.items():
                verify(c.property[k], w, what + " " + k)
        look(c, model, "Comments")
        full = [x[1].strip() for x in ta if x[1].strip()] if cls == "d" else given
        check(list(c.fullcomments) == full, "comment texts %r, expected %r", c.fullcomments, full)
        one = mod.Comments()
        for x in given:
            one.add_from_comment(x)
        look(one, model, "one at a time")
        kwd = mod.Comments(list(given), Zzz_kw=3.5)
        check(kwd.property.get("Zzz_kw") == 3.5 and set(kwd.property) == set(model) | {"Zzz_kw"}, "properties given by name: %r", sorted(kwd.property))
        other = mod.Comments([x[0] for x in tb])
        keep = c.copy()
        m2 = dict(model)
        for l in b:
            w = want(l, cls)
            if w:
                m2[l["n"]] = w
        nfull = list(c.fullcomments) + list(other.fullcomments)
        c.extend(other)
        look(c, m2, "extended")
        check(list(c.fullcomments) == nfull, "extended texts %r", c.fullcomments)
        look(keep, model, "copy after extend")
        check(len(keep.fullcomments) == len(full), "copy shares its texts")
        if db_too:
            db = DataBlock()
            db.Vgs = hfarray(77.0)
            db.comments = c
            db.values_from_property()
            for k, w in m2.items():
                check(k in db.vardata, "%s did not become a variable", k)
                if k == "Vgs":
                    check(float(db.Vgs) == 77, "an existing variable was replaced by a comment")
                    continue
                verify(db[k] if w[0] != "date" else np.asarray(db[k])[()], w, "variable " + k)
            check(set(db.vardata) == set(m2) | {"Vgs"}, "variables %r", list(db.vardata))
    note.hit(*{l["k"] for l in a})
    note.nontrivial(sum(want(l, "f") is not None for l in a) > 1)


TR = {'b1/a1 raw': 'b11', 'b1/a2 raw': 'b12', 'b2/a1 raw': 'b21', 'b2/a2 raw': 'b22', 'a1 raw': 'a11', 'a1/a2 raw': 'a12', 'a2/a1 raw': 'a21', 'a2 raw': 'a22',
      'b1/a1': 'b11', 'b1/a2': 'b12', 'b2/a1': 'b21', 'b2/a2': 'b22', 'a1': 'a11', 'a1/a2': 'a12', 'a2/a1': 'a21', 'a2': 'a22',
      'Freq[Hz]': 'freq', 'Frequency': 'freq', 'Freq': 'freq'}
POOL = sorted(TR) + ["Mean(x)", "Std(x)", "Mean(y)", "Std(z q)", "Mean(b1/a1)", "plain", "a11", "b12", "Max(x)", "x", "Mean", "f(Mean(x))", "freq2", "mean(x)", "STD(q)", "Meanx(y)", "Mean(f(y))", "Std((q))", "Std(f(q))", "Mean(x)(y)"]


@S.sub("normalize", st.tuples(st.lists(st.sampled_from(POOL), min_size=1, max_size=7, unique=True), st.sampled_from(["Freq", "Freq[Hz]", "Frequency", "freq", "VD"])).map(list), quick=400)
def normalize(arg, note):
    """no variable is lost, values follow their variable, and a name is changed exactly as documented when the new name is free"""
    names, dim = arg
    names = [n for n in names if n != dim]
    if dim == "VD":
        pass
    elif any(TR.get(n) == "freq" or n == "freq" for n in names):
        names = [n for n in names if TR.get(n) != "freq"]
    if not names:
        return
    f = DimSweep(dim, [1.0, 2.0, 5.0], unit="Hz")
    db = DataBlock()
    db.blockname = "bn"
    vals = {}
    for i, n in enumerate(names):
        vals[n] = np.array([1.0, 2, 4]) * (i + 1)
        db[n] = hfarray(vals[n].copy(), dims=(f,), unit="V")

    def new(n):
        if n in TR:
            return TR[n]
        if n.startswith("Mean(") and n.endswith(")"):
            return n[5:-1]
        if n.startswith("Std(") and n.endswith(")"):
            return "s_" + n[4:-1]
        return n
    targets = [new(n) for n in names]
    # Mean(x) when x is taken is refused
    clash = any(n.startswith(("Mean(", "Std(")) and new(n) != n and (targets.count(new(n)) > 1 or new(n) in names) for n in names)
    e = None
    try:
        r = fcom.normalize_names(db)
    except ValueError as err:
        e = err
    check(list(db.vardata) == names and list(db.ivardata) == [dim], "the given block was changed")
    for n in names:
        exact(db[n], vals[n], n)
    if e is not None:
        check(clash, "refused to normalise %r: %s", names, e)
        note.hit("refused")
        return
    check(len(list(r.vardata)) == len(names), "%r became %r", names, list(r.vardata))
    left = list(r.vardata)
    for pos, n in enumerate(names):
        hit = [k for k in left if np.array_equal(np.asarray(r[k]), vals[n])]
        check(len(hit) == 1, "values of %s found %d times", n, len(hit))
        k = hit[0]
        check(left[pos] == k, "order of the variables changed: %r -> %r", names, left)
        check(k in (n, new(n)), "%s became %s", n, k)
        if targets.count(new(n)) == 1 and new(n) not in names:
            check(k == new(n), "%s was not renamed (is %s)", n, k)
        check(r[k].unit == "V", "unit lost")
        samedim(r[k].dims[0], DimSweep("freq" if dim in TR else dim, [1.0, 2.0, 5.0], unit="Hz"), "dim")
    check(list(r.ivardata) == ["freq" if dim in TR else dim], "dims %r", list(r.ivardata))
    note.hit("renamed%d" % min(3, sum(t != n for t, n in zip(targets, names))))
    note.nontrivial(sum(t != n for t, n in zip(targets, names)) > 1)


FR = ["Freq", "Freq[Hz]", "Frequency", "freq"]


@S.sub("sweepnames", st.tuples(st.sampled_from(FR), st.lists(st.sampled_from(FR + ["x", "a1", "Mean(x)"]), min_size=1, max_size=4, unique=True)).map(list), quick=100)
def sweepnames(arg, note):
    """a sweep and variables whose names all stand for the frequency: neither the sweep nor a variable is lost"""
    dim, names = arg
    names = [n for n in names if n != dim]
    if not names or ("Mean(x)" in names and "x" in names):
        return
    c = [1.0, 2.0, 5.0]
    f = DimSweep(dim, c, unit="Hz")
    db = DataBlock()
    for i, n in enumerate(names):
        db[n] = hfarray(np.array([1.0, 3, 4]) * (i + 2), dims=(f,))
    r = fcom.normalize_names(db)
    check(len(r.ivardata) == 1 and len(r.vardata) == len(names), "sweep %s and %r became %r and %r", dim, names, list(r.ivardata), list(r.vardata))
    d = list(r.ivardata.values())[0]
    check(d.name in (dim, "freq"), "the sweep %s became %s", dim, d.name)
    same(d.data, c, what="sweep")
    check(d.name not in r.vardata, "%s is sweep and variable", d.name)
    got = sorted(np.asarray(v).tolist() for v in r.vardata.values())
    check(got == sorted(np.asarray(db[n]).tolist() for n in names), "values of the variables changed: %r", got)
    for v in r.vardata.values():
        samedim(v.dims[0], d, "dim")
    note.nontrivial(any(n in FR for n in names))
