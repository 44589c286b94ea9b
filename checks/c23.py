"""C23: network parameter conversions describe the same terminal voltages and currents."""
import copy
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import ismatrix
from vlib.net import *
from hftools.networks.multiports import unit_matrix, unit_smatrix, SArray

S = Suite("C23", rule="Z Y S (1-4 ports), ABCD G H T Tp networks with generic integer, real or complex values over 0-2 sweep / repeat dims, reference impedances 1-100 Ohm, "
          "converted to every kind (also copy=False), in chains of up to 6 conversions, selections, reorderings and copies; element access by name; non-trivial: "
          "target kind differs and the conversion exists (condition < 1e9)",
          assumptions=["matrix dims named i and j stand last", "real positive reference impedance", "conversions that do not exist (singular) are not asked for"])
C = classes()


def tag(a):
    return [k for k in C if type(a) is C[k]][0]


def target(draw_n, kinds):
    return kinds


@st.composite
def conv(draw):
    sp = draw(st.one_of(net(), net(), net(), net(maxdims=4)))
    to = draw(st.sampled_from(MULTI if sp["n"] != 2 else KINDS))
    return dict(sp=sp, to=to, copy=draw(st.booleans()), z=draw(st.sampled_from([None, 50., 75., 10., 50.3, 50.0001])) if to == "S" else None)


@S.sub("convert", conv(), quick=700)
def convert(spec, note):
    sp, to = spec["sp"], spec["to"]
    a, v = build(sp)
    check(type(a) is C[sp["kind"]], "wrong class")
    exact(a, v, "constructor")
    if sp["kind"] in ("S", "T", "Tp"):
        check(a.Z0 == sp["z0"], "reference impedance %r, given %r", a.Z0, sp["z0"])
    V, I = vi(sp["kind"], v, sp["z0"])
    kw = {}
    if spec["z"] is not None:
        kw["Z0"] = spec["z"]
    z = spec["z"] if spec["z"] is not None else 50.
    want, c = extract(to, V, I, z)
    if want is None:
        return
    r = C[to](a, copy=spec["copy"], **kw)
    check(type(r) is C[to], "class %s", type(r).__name__)
    samedims(r.dims, a.dims, "converted")
    coherent(r)
    if to == "S":
        if spec["z"] is not None:
            check(r.Z0 == spec["z"], "reference impedance %r, asked for %r", r.Z0, spec["z"])
        elif sp["kind"] not in ("S", "T", "Tp"):
            check(r.Z0 == 50, "default reference impedance %r", r.Z0)
    if to in ("T", "Tp") and sp["kind"] in ("S", "T", "Tp"):
        check(r.Z0 == sp["z0"], "reference impedance %r, the source has %r", r.Z0, sp["z0"])
    zz = r.Z0 if to in ("S", "T", "Tp") else 50.
    want, c = extract(to, V, I, zz)
    if want is None:
        return
    close(r, want, c, "%s -> %s" % (sp["kind"], to))
    exact(a, v, "source of the conversion")
    if sp["kind"] in ("S", "T", "Tp"):
        check(a.Z0 == sp["z0"], "converting changed the reference impedance of the source")
    if to != sp["kind"] or spec["copy"]:
        r[...] = 0
        exact(a, v, "source after changing the result")
    note.hit(sp["kind"] + to)
    note.nontrivial(to != sp["kind"])


step = st.one_of(st.sampled_from(KINDS).map(lambda k: ["to", k]), st.tuples(st.integers(0, 3), st.integers(0, 3)).map(lambda t: ["sel", t[0], t[1]]),
                 st.integers(0, 3).map(lambda k: ["order", k]), st.sampled_from(["copy", "view", "all", "class", "squeeze", "slice"]).map(lambda k: [k]))


@S.sub("chain", st.tuples(net(dts="cf"), st.lists(step, min_size=2, max_size=6)).map(list), quick=500)
def chain(arg, note):
    sp, steps = arg
    a, v = build(sp)
    V, I = vi(sp["kind"], v, sp["z0"])
    names = [d["n"] for d in sp["dims"]]
    coords = {d["n"]: list(d["d"]) for d in sp["dims"]}
    worst, nconv = 1.0, 0
    cur = a
    for s in steps:
        k = s[0]
        if k == "to":
            if sp["n"] != 2 and s[1] not in MULTI:
                continue
            want, c = extract(s[1], V, I, 50.)
            if want is None or c > 1e6:
                continue
            nxt = C[s[1]](cur)
            if s[1] in ("S", "T", "Tp"):
                want, c = extract(s[1], V, I, nxt.Z0)
                if want is None or c > 1e6:
                    return
            cur = nxt
            worst = max(worst, c)
            nconv += 1
        elif k == "sel":
            if not names:
                continue
            ax = s[1] % len(names)
            i = s[2] % len(coords[names[ax]])
            cur = cur[(slice(None),) * ax + (i,)]
            V, I = np.take(V, i, ax), np.take(I, i, ax)
            names = names[:ax] + names[ax + 1:]
        elif k == "slice":
            if not names:
                continue
            cur = cur[::-1]
            V, I = V[::-1], I[::-1]
            coords[names[0]] = coords[names[0]][::-1]
        elif k == "order":
            if not names:
                continue
            n = names[s[1] % len(names)]
            ax = names.index(n)
            cur = cur.reorder_dimensions(n)
            V, I = np.moveaxis(V, ax, 0), np.moveaxis(I, ax, 0)
            names = [n] + [x for x in names if x != n]
        elif k == "squeeze":
            if sp["n"] == 1:
                continue
            ones = tuple(i for i, n in enumerate(names) if len(coords[n]) == 1)
            cur = cur.squeeze()
            V, I = np.squeeze(V, ones), np.squeeze(I, ones)
            names = [n for n in names if len(coords[n]) != 1]
        elif k == "copy":
            cur = cur.copy()
        elif k == "view":
            cur = cur.view()
        elif k == "all":
            cur = cur[...]
        elif k == "class":
            cur = type(cur)(cur)
        kind = tag(cur)
        check([d.name for d in cur.dims] == names + ["i", "j"], "after %r: dims %r", s, [d.name for d in cur.dims])
        for d in cur.dims[:-2]:
            check(list(d.data) == coords[d.name], "coordinates of %s", d.name)
        z = cur.Z0 if kind in ("S", "T", "Tp") else 50.
        want, c = extract(kind, V, I, z)
        if want is None:
            return
        close(cur, want, worst * c, "%r after %r" % (kind, s), extra=100.)
        note.hit(k)
    exact(a, v, "first network")
    note.nontrivial(nconv > 0)


@S.sub("elements", st.tuples(st.one_of(net(), net(), net(kinds=MULTI, n=5), net(kinds=MULTI, n=7), net(kinds=MULTI, n=9)), st.integers(0, 3), st.integers(0, 3), small_float, st.sampled_from([0, 1, 2])).map(list), quick=250)
def elements(arg, note):
    sp, i, j, val, case = arg
    i, j = i % sp["n"], j % sp["n"]
    a, v = build(sp)
    k = sp["kind"]
    pre = [k, k.lower(), k.upper()][case]
    for p in range(sp["n"]):
        for q in range(sp["n"]):
            el = getattr(a, "%s%d%d" % (pre, p + 1, q + 1))
            exact(el, v[..., p, q], "element %d%d" % (p + 1, q + 1))
    # also of results and copies
    for what, r, w in (("2 * a", 2 * a, 2 * v), ("a + a", a + a, v + v), ("-1.5 * a", -1.5 * a, -1.5 * v), ("a.copy()", a.copy(), v), ("copy.copy(a)", copy.copy(a), v), ("a[...]", a[...], v)):
        if type(r) is type(a):
            exact(getattr(r, "%s%d%d" % (pre, i + 1, j + 1)), w[..., i, j], "element of %s" % what)
    # what is no matrix has no elements
    for what, f in (("a[..., 0]", lambda: a[..., 0]), ("a[..., 0, 0]", lambda: a[..., 0, 0]), ("a.T", lambda: a.T)):
        try:
            r = f()
        except ValueError:
            continue    # two-port classes refuse what is no 2x2 matrix
        if not ismatrix(r) and isinstance(r, hfarray):
            check(raises(lambda: getattr(r, "%s%d%d" % (pre, i + 1, j + 1)), AttributeError) is not None, "%s, which is no matrix, has elements", what)
    if sp["dt"] == "i":
        val = int(val)
    setattr(a, "%s%d%d" % (pre, i + 1, j + 1), val)
    want = v.copy()
    want[..., i, j] = val
    exact(a, want, "after setting %s%d%d" % (pre, i + 1, j + 1))
    for bad in ("%s%d1" % (pre, sp["n"] + 1), "%s1%d" % (pre, sp["n"] + 1), "Q11", pre + "x"):
        check(raises(lambda: getattr(a, bad), AttributeError) is not None, "attribute %s exists", bad)
        check(raises(lambda: setattr(a, bad, 1), AttributeError) is not None, "attribute %s can be set", bad)
    exact(a, want, "after refused settings")
    note.nontrivial(sp["n"] > 1)


@S.sub("reject", st.tuples(net(kinds=MULTI, dts="cf"), st.sampled_from(KINDS), st.sampled_from(["col", "row", "ports"])).map(list), quick=150)
def reject(arg, note):
    sp, to, how = arg
    a, v = build(sp)
    if how == "ports":
        if sp["n"] == 2 or to in MULTI:
            return
        check(raises(lambda: C[to](a)) is not None, "%d-port accepted as %s", sp["n"], to)
        check(raises(lambda: C[to](v)) is not None, "%d-port values accepted as %s", sp["n"], to)
    else:
        if sp["n"] < 2 or to == sp["kind"]:
            return
        part = a[..., :-1] if how == "col" else a[..., :-1, :]
        check(raises(lambda: C[to](part)) is not None, "a non-square part of a %s matrix was converted to %s", sp["kind"], to)
    exact(a, v, "source")
    note.nontrivial()


@S.sub("unit", st.tuples(st.sampled_from(KINDS), st.integers(1, 4)).map(list), quick=40)
def unit(arg, note):
    k, n = arg
    if k not in MULTI:
        n = 2
    u = unit_matrix(n, cls=C[k])
    check(type(u) is C[k], "unit_matrix gives %s", type(u).__name__)
    exact(u, np.eye(n), "unit matrix")
    u[...] = 7
    exact(unit_matrix(n, cls=C[k]), np.eye(n), "unit matrix asked for again")
    exact(unit_matrix(), np.eye(2), "unit matrix")
    for sz in (2, 3, 5):
        m = unit_smatrix(sz)
        want = np.zeros((sz, sz))
        want[0, 1] = want[1, 0] = 1
        exact(m, want, "%d-port with ports 1 and 2 joined" % sz)
    t = unit_smatrix()
    check(type(t) is SArray, "class")
    exact(t, [[0, 1], [1, 0]], "through")
    t[...] = 7
    exact(unit_smatrix(), [[0, 1], [1, 0]], "through asked for again")
    if k in ("S", "A", "T", "Tp", "G", "H"):
        t = unit_smatrix(cls=C[k])
        check(type(t) is C[k], "unit_smatrix gives %s", type(t).__name__)
        V, I = vi("S", np.array([[0, 1], [1, 0]]))
        want, c = extract(k, V, I)
        if want is not None:
            close(t, want, c, "through")
    note.nontrivial()
