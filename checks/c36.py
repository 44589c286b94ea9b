"""C36: files of the muwave MATLAB toolbox read as written."""
import os
import datetime
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp
import scipy.io as sio
from hftools.file_formats import read_muwave_matlabdata, read_data
from hftools.core.exceptions import HFToolsIOError

S = Suite("C36", rule="generated MATLAB files with 1-5 sweep points, 1-5 frequencies, 1-4 ports, real or complex matrices, with or without covariance, numeric and text states, text properties "
          "(also empty, numeric and dates), one file or several, read by the reader and by read_data; non-trivial: several points and frequencies",
          assumptions=["every point has the same state and property names", "the data is of type S", "several files have one point each"])

STATE = ["V1", "V2", "I1", "I2", "V1_SET", "V2_SET", "I1_SET", "I2_SET", "Temp", "Pin", "Mode"]
UNIT = dict(V1="V", V2="V", V1_SET="V", V2_SET="V", I1="A", I2="A", I1_SET="A", I2_SET="A", Z0="Ohm")
WORDS = ["on", "off", "a longer text", "X", "me & you", "wafer Q", "c:\\dir\\f.mat"]
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
num = st.one_of(st.integers(-50, 50).map(float), st.floats(-1e6, 1e6).map(lambda x: float("%.12g" % x)))


@st.composite
def point(draw, states, props, nf, np_, cov, cplx):
    return dict(index=draw(st.integers(1, 99)), z0=None,
                state=[draw(st.sampled_from(WORDS)) if s == "Mode" else draw(num) for s in states],
                prop=[draw({"text": st.sampled_from(WORDS), "maybe": st.sampled_from(WORDS + ["", ""]), "empty": st.just(""), "num": st.integers(-99, 99).map(str),
                            "date": st.tuples(st.integers(1990, 2060), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(list),
                            "baddate": st.sampled_from(["yesterday", "2014-01-02", "01-Gur-2014 10:00:00"])}[k]) for _, k in props],
                seed=draw(st.integers(0, 2 ** 30)))


@st.composite
def case(draw):
    states = draw(st.lists(st.sampled_from(STATE), unique=True, max_size=4))
    props = [[n, draw(st.sampled_from(["text", "maybe", "empty", "num"]))] for n in draw(st.lists(st.sampled_from(["Operator", "Info", "Origin", "Wafer", "Note"]), unique=True, max_size=3))]
    if draw(st.booleans()):
        props.insert(draw(st.integers(0, len(props))), ["Date", draw(st.sampled_from(["date", "date", "baddate"]))])
    nf, np_ = draw(npts(1, 5, 60)), draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    cov, cplx = draw(st.booleans()), draw(st.sampled_from([True, True, False]))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 2, 3, 12]))
    return dict(states=states, props=props, nf=nf, np=np_, cov=cov, cplx=cplx, freq=draw(st.sampled_from([sorted, list]))(draw(distinct(1, 10 ** 6, nf))),
                z0=draw(st.sampled_from([50., 50., 75., 1., 12.5])), pos=draw(st.integers(0, 4)), points=[draw(point(states, props, nf, np_, cov, cplx)) for _ in range(n)],
                files=draw(st.sampled_from([False, False, True])), how=draw(st.sampled_from(["reader", "read_data"])), drop=draw(st.sampled_from([None, True, False])))


def cell(items):
    a = np.empty((1, len(items)), object)
    for i, x in enumerate(items):
        a[0, i] = x
    return a


def date(d):
    return "%02d-%s-%04d %02d:%02d:%02d" % (d[2], MON[d[1] - 1], d[0], d[3], d[4], d[5])


def matrices(sp, p):
    rng = np.random.RandomState(p["seed"])
    sh = (sp["np"], sp["np"], sp["nf"])
    m = rng.uniform(-2, 2, sh)
    if sp["cplx"]:
        m = m + 1j * rng.uniform(-2, 2, sh)
    m2 = sp["np"] ** 2
    return m, rng.uniform(0, 1, (m2, m2, sp["nf"])) + 0j


def mlab(sp, p):
    m, c = matrices(sp, p)
    names, vals = list(sp["states"]), [np.array([[x]]) if isinstance(x, float) else x for x in p["state"]]
    k = min(sp["pos"], len(names))
    names.insert(k, "Index")
    vals.insert(k, np.array([[float(p["index"])]]))
    props = [date(v) if isinstance(v, list) else v for v in p["prop"]]
    return dict(measstate=dict(props=cell(names), values=cell(vals)), measmnt=dict(props=cell([n for n, _ in sp["props"]]), values=cell(props)),
                data=dict(type="S", reference=sp["z0"], freq=np.array(sp["freq"], float)[:, None] * 1e3, data=dict(mtrx=m), datacov=dict(mtrx=c) if sp["cov"] else np.zeros((0, 0))))


def save(d, name, points):
    fn = os.path.join(d, name)
    sio.savemat(fn, dict(swp=dict(data=cell(points))))
    return fn


def squeezed(a, *names):
    """values of a with the dims in this order; a dim of size one may be left out"""
    have = [x.name for x in a.dims]
    check(all(n in names for n in have), "unexpected dims %r", have)
    v = np.transpose(np.asarray(a), [have.index(n) for n in names if n in have])
    return v.reshape([x for x in v.shape if x != 1])


def sq(v):
    v = np.asarray(v)
    return v.reshape([x for x in v.shape if x != 1])


@S.sub("read", case(), quick=250)
def read(sp, note):
    pts = sp["points"]
    n = len(pts)
    drop = sp["drop"] is not False
    kw = {} if sp["drop"] is None else dict(drop_empty=sp["drop"])
    with Tmp() as d:
        if sp["files"]:
            for i, p in enumerate(pts):
                save(d, "f%d.mat" % (i + 8), [mlab(sp, p)])
            fn = os.path.join(d, "f*.mat")
        else:
            fn = save(d, "a.mat", [mlab(sp, p) for p in pts])
        f = read_muwave_matlabdata if sp["how"] == "reader" else read_data
        b = f(fn, **kw)
    S_ = b["S"]
    ref = np.array([matrices(sp, p)[0] for p in pts])      # point, i, j, freq
    dims = ("freq", "INDEX1", "i", "j")
    same(squeezed(S_, *dims), sq(np.transpose(ref, (3, 0, 1, 2))), 0, 0, "S")
    if sp["np"] > 1:
        check([x.name for x in S_.dims][-2:] == ["i", "j"], "dims of S are %r", S_.dims)
    if "freq" in [x.name for x in S_.dims]:
        check(S_.dims[0].name == "freq", "dims of S are %r", S_.dims)
    same(np.asarray(b["freq"]).reshape(-1), np.array(sp["freq"], float) * 1e3, 0, 0, "freq")
    check(b["freq"].unit == "Hz", "unit of freq")
    if sp["cov"]:
        cov = np.array([matrices(sp, p)[1] for p in pts])
        same(squeezed(b["Scov"], *dims), sq(np.transpose(cov, (3, 0, 1, 2))), 0, 0, "Scov")
    else:
        check("Scov" not in b, "covariance invented")

    def per_point(name, want, num=True):
        check(name in b, "%s is missing", name)
        got = squeezed(b[name], "INDEX1")
        if num:
            same(got, sq(want), 0, 0, name)
        else:
            check(got.reshape(-1).tolist() == (want if n > 1 else want[:1]), "%s is %r, expected %r", name, got.tolist(), want)
        check(b[name].unit == UNIT.get(name), "unit of %s is %r", name, b[name].unit)
    names = {"S", "Index", "Z0"} | ({"Scov"} if sp["cov"] else set()) | ({"Index2"} if sp["files"] and n > 1 else set())
    per_point("Index", [p["index"] for p in pts])
    if sp["files"] and n > 1:
        per_point("Index2", list(range(n)))
    per_point("Z0", [sp["z0"]] * n)
    for k, s in enumerate(sp["states"]):
        per_point(s, [p["state"][k] for p in pts], s != "Mode")
        names.add(s)
    for k, (s, kind) in enumerate(sp["props"]):
        vals = [p["prop"][k] for p in pts]
        if kind == "date":
            per_point(s, [datetime.datetime(*v) for v in vals], False)
        elif kind == "num":
            per_point(s, [float(v) for v in vals])
        elif drop and not any(vals):
            check(s not in b, "empty property %s is kept", s)
            continue
        else:
            per_point(s, vals, False)
        names.add(s)
    check(set(b.vardata.keys()) == names, "variables %r, expected %r", sorted(b.vardata.keys()), sorted(names))
    note.nontrivial(n > 1 and sp["nf"] > 1)
    note.hit("files" if sp["files"] else "file")


@S.sub("refused", st.tuples(case(), st.sampled_from(["grid", "grid2", "notmuwave", "missing"])).map(list), quick=40)
def refused(arg, note):
    sp, what = arg
    pts = [mlab(sp, p) for p in (sp["points"] * 2)[:max(2, len(sp["points"]))]]
    with Tmp() as d:
        if what == "grid":
            f = pts[-1]["data"]["freq"]
            pts[-1]["data"]["freq"] = f + (0.5e3 if len(f) > 1 else 0)
            if len(f) == 1:
                return
        elif what == "grid2":
            q = pts[0]["data"]
            q["freq"] = np.concatenate([q["freq"], q["freq"][-1:] + 7e3])
            q["data"]["mtrx"] = np.concatenate([q["data"]["mtrx"], q["data"]["mtrx"][:, :, :1]], axis=2)
            q["datacov"] = np.zeros((0, 0))
        fn = os.path.join(d, "a.mat")
        if what == "notmuwave":
            sio.savemat(fn, {["sweep", "data", "measmnt", "swp2"][sp["nf"] % 4]: np.arange(3)})
        elif what != "missing":
            save(d, "a.mat", pts)
        f = read_muwave_matlabdata if sp["how"] == "reader" and what != "missing" else read_data
        check(raises(lambda: f(fn), HFToolsIOError, IOError, ValueError), "a file (%s) is accepted", what)
    note.nontrivial()
    note.hit(what)
