"""C35: the reading options switch exactly their own step on and off, in every reader."""
import re
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp, put
from hftools.file_formats import read_spdata, read_citi, read_touchstone, read_mdif, read_data

S = Suite("C35", rule="generated column-text, CITI, Touchstone and MDIF files with complex pairs, units, standard names, complete and incomplete matrix elements and value "
          "comments, read with every combination of make_complex / property_to_vars / guess_unit / normalize / make_matrix by the reader itself and by read_data, "
          "against a model that applies the steps one by one; non-trivial: at least one option off and at least one variable that option would change",
          assumptions=["merge=True (merge=False is not claimed)", "names are distinct after every step"])

OPT = ["make_complex", "property_to_vars", "guess_unit", "normalize", "make_matrix"]
MUL = dict(GHz=1e9, kHz=1e3, Hz=1, mV=1e-3, V=1, uA=1e-6, A=1, dBm=1, mW=1e-3, pF=1e-12, fF=1e-15, kOhm=1e3)
BASE = dict(GHz="Hz", kHz="Hz", Hz="Hz", mV="V", V="V", uA="A", A="A", dBm="dBm", mW="W", pF="F", fF="F", kOhm="Ohm")
GUESS = dict(Id="A", Vds="V", Ic="A", Freq="Hz", freq="Hz", Frequency="Hz")
TAB = {"b1/a1 raw": "b11", "b1/a1": "b11", "b2/a2": "b22", "a1/a2 raw": "a12", "a2": "a22", "Freq[Hz]": "freq", "Frequency": "freq", "Freq": "freq"}
COM = [("Vdd [mV]: 12", "Vdd", 12e-3, "V"), ("Tq = 25", "Tq", 25, None), ("Pin_x=3 mW", "Pin_x", 3e-3, "W"), ("just text", None, None, None), ("Op: me", "Op", "me", None)]
options = st.fixed_dictionaries({k: st.booleans() for k in OPT})


@st.composite
def case(draw):
    cols = []
    for nm in draw(st.lists(st.sampled_from(["Id", "Vds", "qq", "beta", "Ic", "b1/a1", "b2/a2", "a1/a2 raw", "a2", "Mean(w)", "Std(w)", "Mean(Id2)"]), min_size=1, max_size=4, unique=True)):
        k = draw(st.sampled_from(["re", "re", "ri", "ma"])) if "(" not in nm and "/" not in nm else "re"
        cols.append([nm, k, draw(st.sampled_from([None, None] + sorted(MUL)))])
    mat = None
    if draw(st.booleans()):
        I, J = draw(st.sampled_from([(2, 2), (1, 2), (3, 3), (2, 1), (2, 2), (4, 4), (5, 2)]))
        mat = dict(I=I, J=J, c=draw(st.sampled_from([True, False, 0.15])), u=draw(st.sampled_from([None, None, "mV"])), n=draw(st.sampled_from(["S", "Zq"])),
                   miss=draw(st.integers(0, 3)) == 0, off=draw(st.sampled_from([1, 1, 1, 2])))
    return dict(cols=cols, mat=mat, n=draw(st.integers(1, 4)), sname=draw(st.sampled_from(["freq", "Freq", "Freq[Hz]", "Frequency", "Vx", "freq [GHz]", "Vx [mV]"])),
                com=draw(st.lists(st.integers(0, len(COM) - 1), unique=True, max_size=4)), opt=draw(options), seed=draw(st.integers(0, 2 ** 30)), rd=draw(st.booleans()))


def columns(spec, rnd):
    """raw columns: list of (name, values)"""
    val = lambda: [rnd.randrange(-4000, 4000) / 64.0 for _ in range(spec["n"])]
    out = []
    u0 = lambda u: " [%s]" % u if u else ""
    for nm, k, u in spec["cols"]:
        if k == "re":
            out.append((nm + u0(u), val()))
        elif k == "ri":
            out += [("Re(%s)" % nm + u0(u), val()), ("Im(%s)" % nm + u0(u), val())]
        else:
            out += [("Mag(%s)" % nm + u0(u), [abs(x) for x in val()]), ("Arg(%s)" % nm, val())]
    m = spec["mat"]
    if m:
        el = [(i, j) for i in range(m["I"]) for j in range(m["J"])]
        rnd.shuffle(el)
        if m["miss"]:
            el = el[:-1]
        for i, j in el:
            nm = "%s%d%d" % (m["n"], i + m["off"], j + m["off"])
            if m["c"] is True or rnd.random() < m["c"]:
                out += [("Re(%s)" % nm + u0(m["u"]), val()), ("Im(%s)" % nm + u0(m["u"]), val())]
            else:
                out.append((nm + u0(m["u"]), val()))
    return out


def pipeline(sname, sw, raw, com, opt, elem=r"^([A-Za-z_]+)([0-9])([0-9])$", sunit=None):
    """the model: raw names -> (sweep name, data, unit), {name: (values, unit)}; matrices have shape (n, I, J)"""
    v = dict((k, (np.array(x), None)) for k, x in raw)
    s = (sname, np.array(sw, float), sunit)
    if opt["make_complex"]:
        for k in list(v):
            m = re.match(r"^(Re|Mag)\((.+)\)(| \[[A-Za-z]+\])$", k)
            if not m:
                continue
            f, nm, u = m.groups()
            other = "Im(%s)%s" % (nm, u) if f == "Re" else "Arg(%s)" % nm
            if other in v:
                a, b = v.pop(k)[0], v.pop(other)[0]
                v[nm + u] = (a + 1j * b if f == "Re" else a * np.exp(1j * np.radians(b)), None)
    if opt["property_to_vars"]:
        for c in com:
            t, nm, x, u = COM[c]
            if nm:
                v[nm] = (np.array(x), u)
    if opt["guess_unit"]:
        w = {}
        for k, (x, u) in v.items():
            m = re.match(r"^(.+?) \[([A-Za-z]+)\]$", k)
            if m and u is None:
                w[m.group(1)] = (x * MUL[m.group(2)], BASE[m.group(2)])
            else:
                w[k] = (x, u or GUESS.get(k))
        v = w
        m = re.match(r"^(.+?) ?\[([A-Za-z]+)\]$", s[0])
        s = (m.group(1), s[1] * MUL[m.group(2)], BASE[m.group(2)]) if m else (s[0], s[1], s[2] or GUESS.get(s[0]))
    if opt["normalize"]:
        s = (TAB.get(s[0], s[0]),) + s[1:]
        w = {}
        for k, x in v.items():
            k = TAB.get(k, k)
            m = re.match(r"^(Mean|Std)\((.+)\)$", k)
            w[{"Mean": "", "Std": "s_"}[m.group(1)] + m.group(2) if m else k] = x
        v = w
    if opt["make_matrix"]:
        g = {}
        for k in v:
            m = re.match(elem, k)
            if m:
                g.setdefault(m.group(1), {})[int(m.group(2)), int(m.group(3))] = k
        for nm, e in g.items():
            I, J = sorted({i for i, j in e}), sorted({j for i, j in e})
            if len(e) == len(I) * len(J) and len(e) > 1:
                x = np.array([[v[e[i, j]][0] for j in J] for i in I])
                u = v[e[I[0], J[0]]][1]
                for k in e.values():
                    del v[k]
                v[nm] = (np.moveaxis(x, 2, 0), u)
    return s, v


def verify(r, s, v, what, rtol=1e-9):
    names = [k for k in r.ivardata.keys() if k not in ("FILEINDEX", "i", "j")]
    check(names == [s[0]], "%s: sweeps %r, expected %r", what, names, s[0])
    d = r.ivardata[s[0]]
    same(np.array(d.data), s[1], rtol=rtol, atol=0, what=what + " sweep")
    check(d.unit == s[2], "%s: sweep unit %r, expected %r", what, d.unit, s[2])
    got = set(r.vardata.keys()) - {"FILENAME"}
    check(got == set(v), "%s: variables %r, expected %r", what, sorted(got), sorted(v))
    for k, (x, u) in v.items():
        a = r[k]
        coherent(a, k)
        if x.dtype.kind in "US":
            check(str(a.item()) == x.item(), "%s: %s is %r, expected %r", what, k, a, x)
        else:
            same(a, x, rtol=rtol, atol=1e-9 * max(1e-30, np.abs(x).max()), what=what + " " + k)
            check(a.unit == u, "%s: unit of %s is %r, expected %r", what, k, a.unit, u)


def clash(spec):
    """names that collide after some steps are outside the property"""
    for g in (True, False):
        for m in (True, False):
            opt = dict.fromkeys(OPT, True)
            opt["guess_unit"], opt["make_matrix"] = g, m
            raw = [(k, [0.0]) for k, _ in columns(dict(spec, n=1), __import__("random").Random(spec["seed"]))]
            full = pipeline(spec["sname"], [0.0], raw, spec["com"], dict(opt, normalize=False, make_matrix=False))[1]
            norm = pipeline(spec["sname"], [0.0], raw, spec["com"], dict(opt, make_matrix=False))[1]
            if len(full) != len(norm):
                return True
            mm = pipeline(spec["sname"], [0.0], raw, spec["com"], opt)[1]
            if any(k in ("a", "b") for k in mm):  # standard elements a22, b11 that pair into a matrix: left to C15
                return True
    return False


def changes(sname, sw, raw, com, opt, **kw):
    """does switching some disabled option on change the expected result?"""
    a = pipeline(sname, sw, raw, com, opt, **kw)
    for k in OPT:
        if not opt[k]:
            b = pipeline(sname, sw, raw, com, dict(opt, **{k: True}), **kw)
            if set(a[1]) != set(b[1]) or a[0][0] != b[0][0] or a[0][2] != b[0][2] or any(a[1][x][1] != b[1][x][1] for x in a[1]):
                return True
    return False


@S.sub("spdata", case(), quick=500)
def spdata(spec, note):
    import random
    if clash(spec):
        return
    rnd = random.Random(spec["seed"])
    raw = columns(spec, rnd)
    sw = sorted(rnd.sample(range(-800, 800), spec["n"]))
    sw = [k / 8.0 for k in sw]
    L = ["!" + COM[c][0] for c in spec["com"]] + ["\t".join([spec["sname"]] + [k for k, _ in raw])]
    for i in range(spec["n"]):
        L.append("\t".join([repr(sw[i])] + [repr(x[i]) for _, x in raw]))
    with Tmp() as d:
        fn = put(d, "x.txt", "\n".join(L) + "\n")
        r = (read_data if spec["rd"] else read_spdata)(fn, **spec["opt"])
    s, v = pipeline(spec["sname"], sw, raw, spec["com"], spec["opt"])
    verify(r, s, v, "sp-data")
    note.hit(*[k + "=off" for k in OPT if not spec["opt"][k]])
    note.nontrivial(changes(spec["sname"], sw, raw, spec["com"], spec["opt"]))


@st.composite
def citi_case(draw):
    cols = [[nm, draw(st.booleans())] for nm in draw(st.lists(st.sampled_from(["Id", "Vds", "qq", "b1/a1", "a2", "Mean(w)"]), min_size=1, max_size=3, unique=True))]
    mat = draw(st.sampled_from([None, [2, 2], [1, 2], [2, 2], [3, 3]]))
    return dict(cols=cols, mat=mat, miss=draw(st.integers(0, 3)) == 0, sty=draw(st.sampled_from(["%s[%d,%d]", "%s%d%d"])), n=draw(st.integers(1, 4)), sname=draw(st.sampled_from(["freq", "Freq", "Vx"])),
                com=draw(st.lists(st.integers(0, len(COM) - 1), unique=True, max_size=4)), opt=draw(options), seed=draw(st.integers(0, 2 ** 30)), rd=draw(st.booleans()))


ELEM_CITI = r"^([A-Za-z_]+)\[?([0-9]),?([0-9])\]?$"


@S.sub("citi", citi_case(), quick=350)
def citi(spec, note):
    import random
    rnd = random.Random(spec["seed"])
    n = spec["n"]
    val = lambda: rnd.randrange(-4000, 4000) / 64.0
    raw = []
    for nm, c in spec["cols"]:
        raw.append((nm, [complex(val(), val()) if c else val() for _ in range(n)]))
    if spec["mat"]:
        el = [(i + 1, j + 1) for i in range(spec["mat"][0]) for j in range(spec["mat"][1])]
        if spec["miss"]:
            el.pop()
        for i, j in el:
            raw.append((spec["sty"] % ("S", i, j), [complex(val(), val()) for _ in range(n)]))
    sw = [k / 8.0 for k in sorted(rnd.sample(range(-800, 800), n))]
    L = ["CITIFILE A.01.01"] + ["COMMENT " + COM[c][0] for c in spec["com"]] + ["NAME DATA", "VAR %s MAG %d" % (spec["sname"], n)]
    L += ["DATA %s %s" % (k, "RI" if isinstance(x[0], complex) else "MAG") for k, x in raw]
    L += ["VAR_LIST_BEGIN"] + [repr(x) for x in sw] + ["VAR_LIST_END"]
    for k, x in raw:
        L += ["BEGIN"] + ["%r,%r" % (y.real, y.imag) if isinstance(y, complex) else repr(y) for y in x] + ["END"]
    with Tmp() as d:
        fn = put(d, "x.cti", "\n".join(L) + "\n")
        r = (read_data if spec["rd"] else read_citi)(fn, **spec["opt"])
    kw = dict(elem=ELEM_CITI)
    s, v = pipeline(spec["sname"], sw, raw, spec["com"], spec["opt"], **kw)
    verify(r, s, v, "CITI")
    note.hit(*[k + "=off" for k in OPT if not spec["opt"][k]])
    note.nontrivial(changes(spec["sname"], sw, raw, spec["com"], spec["opt"], **kw))


@st.composite
def snp_case(draw):
    return dict(N=draw(st.integers(1, 3)), n=draw(st.integers(1, 4)), com=draw(st.lists(st.integers(0, len(COM) - 1), unique=True, max_size=4)),
                opt=draw(options), seed=draw(st.integers(0, 2 ** 30)), rd=draw(st.booleans()))


@S.sub("touchstone", snp_case(), quick=200)
def touchstone(spec, note):
    import random
    rnd = random.Random(spec["seed"])
    n, N = spec["n"], spec["N"]
    val = lambda: rnd.randrange(-4000, 4000) / 64.0
    f = [k / 8.0 for k in sorted(rnd.sample(range(1, 800), n))]
    M = np.array([[[complex(val(), val()) for _ in range(N)] for _ in range(N)] for _ in range(n)])
    L = ["!" + COM[c][0] for c in spec["com"]] + ["# GHZ S RI R 50"]
    for k in range(n):
        X = M[k].T if N == 2 else M[k]
        L.append(" ".join([repr(f[k])] + ["%r %r" % (z.real, z.imag) for z in X.ravel().tolist()]))
    with Tmp() as d:
        fn = put(d, "x.s%dp" % N, "\n".join(L) + "\n")
        r = (read_data if spec["rd"] else read_touchstone)(fn, **spec["opt"])
    s, v = pipeline("freq", np.array(f) * 1e9, [], spec["com"], spec["opt"], sunit="Hz")
    v["S"], v["Z0"] = (M, None), (np.array(50.0), "Ohm")
    verify(r, s, v, "Touchstone")
    note.hit(*[k + "=off" for k in OPT if not spec["opt"][k]])
    note.nontrivial(not spec["opt"]["property_to_vars"] and len(spec["com"]) > 0)


@st.composite
def mdif_case(draw):
    cols = [[nm, draw(st.sampled_from(["real", "complex"]))] for nm in draw(st.lists(st.sampled_from(["Id", "Vds", "qq", "b1/a1", "a2", "Mean(w)"]), min_size=1, max_size=3, unique=True))]
    return dict(cols=cols, mat=draw(st.sampled_from([None, [2, 2], [3, 3]])), miss=draw(st.sampled_from([False, False, True])), vec=draw(st.sampled_from([None, [1, 2], [1, 3], [2, 3]])), n=draw(st.integers(1, 4)),
                sname=draw(st.sampled_from(["freq", "Freq", "Vx"])), com=draw(st.lists(st.integers(0, len(COM) - 1), unique=True, max_size=4)), opt=draw(options),
                seed=draw(st.integers(0, 2 ** 30)))


@S.sub("mdif", mdif_case(), quick=350)
def mdif(spec, note):
    import random
    rnd = random.Random(spec["seed"])
    n = spec["n"]
    val = lambda: rnd.randrange(-4000, 4000) / 64.0
    raw = [(nm, [complex(val(), val()) if t == "complex" else val() for _ in range(n)]) for nm, t in spec["cols"]]
    extra = {}
    if spec["mat"]:
        I, J = spec["mat"]
        el = [(i + 1, j + 1) for i in range(I) for j in range(J)]
        if spec["miss"]:
            el.remove(rnd.choice(el))
        e = [("S[%d,%d]" % p, [complex(val(), val()) for _ in range(n)]) for p in el]
        raw += e
        if not spec["miss"]:
            extra["S"] = np.moveaxis(np.array([x for _, x in e]).reshape(I, J, n), 2, 0)
    if spec["vec"] and not spec["mat"]:
        e = [("V[%d]" % i, [val() for _ in range(n)]) for i in spec["vec"]]
        raw += e
        if spec["vec"] == [1, 2]:
            extra["V"] = np.array([x for _, x in e]).T
    sw = [k / 8.0 for k in sorted(rnd.sample(range(-800, 800), n))]
    L = ["!" + COM[c][0] for c in spec["com"]] + ["BEGIN SP", "% " + " ".join(["%s(real)" % spec["sname"]] + ["%s(%s)" % (k, "complex" if isinstance(x[0], complex) else "real") for k, x in raw])]
    for i in range(n):
        L.append(" ".join([repr(sw[i])] + ["%r %r" % (x[i].real, x[i].imag) if isinstance(x[i], complex) else repr(x[i]) for _, x in raw]))
    L.append("END")
    with Tmp() as d:
        fn = put(d, "x.mdif", "\n".join(L) + "\n")
        r = read_mdif(fn, verbose=False, **spec["opt"])
    check(list(r) == ["SP"], "blocks %r", list(r))
    plain = [(k, x) for k, x in raw if not ("S" in extra and k.startswith("S[") or "V" in extra and k.startswith("V["))]
    none = r"^(?!)(.)(.)(.)$"
    s, v = pipeline(spec["sname"], sw, plain, spec["com"], spec["opt"], elem=none)
    for k, x in extra.items():
        v[k] = (x, None)
    verify(r["SP"], s, v, "MDIF")
    note.hit(*[k + "=off" for k in OPT if not spec["opt"][k]])
    note.nontrivial(changes(spec["sname"], sw, plain, spec["com"], spec["opt"], elem=none))


@st.composite
def enc_case(draw):
    return dict(enc=draw(st.sampled_from(["utf-8", "cp1252", "latin-1", "utf-16"])), com=draw(st.lists(st.text("abc \xe5\xe4\xf6\xb5\xa3\xfcx=", min_size=1, max_size=8), min_size=1, max_size=3)),
                cell=draw(st.lists(st.text("ab\xe5\xe4\xf6\xb5", min_size=1, max_size=5), min_size=1, max_size=4)), name=draw(st.sampled_from(["L\xe4ge", "plats", "\xb5_x"])))


@S.sub("encoding", enc_case(), quick=200)
def encoding(spec, note):
    """text written in an encoding comes back as the same text when that encoding is given"""
    com = ["Anm " + c.strip().replace("=", "e") for c in spec["com"]]
    n = len(spec["cell"])
    cell = ["x" + c for c in spec["cell"]]
    L = ["!" + c for c in com] + ["Vx\t%s" % spec["name"]] + ["%d\t%s" % (k, c) for k, c in enumerate(cell)]
    with Tmp() as d:
        with open(d + "/x.txt", "w", encoding=spec["enc"]) as fh:
            fh.write("\n".join(L) + "\n")
        if spec["enc"] == "cp1252":
            r = read_spdata(d + "/x.txt")
        else:
            r = read_spdata(d + "/x.txt", encoding=spec["enc"])
    check(spec["name"] in r.vardata, "column %r missing: %r", spec["name"], r.vardata.keys())
    exact(r[spec["name"]], np.array(cell), "text column")
    got = [str(c) for c in r.comments.fullcomments]
    check([g.strip() for g in got] == [c.strip() for c in com], "comments %r, expected %r", got, com)
    note.hit(spec["enc"])
    note.nontrivial(spec["enc"] != "cp1252" and any(ord(c) > 127 for c in "".join(com + cell)))
