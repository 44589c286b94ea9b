"""C24: cascading and de-embedding two-ports join and remove terminals exactly, aligned by dimension name."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.net import *
from hftools.networks.spar_functions import cascadeS, deembedleft, deembedright, deembed
from hftools.networks.multiports import unit_smatrix

S = Suite("C24", rule="2-4 two-ports of any kinds and reference impedances, each over its own subset and order of 0-3 shared sweep / repeat dims, integer, real or complex values; "
          "cascaded or de-embedded left, right and both; non-trivial: the networks have different dims or kinds and the result exists (condition < 1e8)",
          assumptions=["S functions get matrices of one reference impedance", "results that do not exist are not asked for"])
C = classes()


@st.composite
def chain_spec(draw, kinds=KINDS, lo=2, hi=3, dts="cccfi"):
    pool = draw(sweeps(3, 3))
    k = draw(st.integers(lo, hi))
    out = []
    z = draw(st.sampled_from([50., 50., 75., 30.]))
    mixed = draw(st.booleans())
    for _ in range(k):
        sp = draw(net(kinds=kinds, n=2, maxdims=0, dts=dts))
        sp["dims"] = draw(subperm(pool))
        if not mixed:
            sp["z0"] = z
        out.append(sp)
    return dict(pool=pool, nets=out)


def full(sp, v, pool):
    """values broadcast over all dims of the pool"""
    names = [d["n"] for d in sp["dims"]]
    t = [names.index(d["n"]) for d in pool if d["n"] in names] + [v.ndim - 2, v.ndim - 1]
    v = v.transpose(t)
    sh = [len(d["d"]) if d["n"] in names else 1 for d in pool] + [2, 2]
    return np.broadcast_to(v.reshape(sh), [len(d["d"]) for d in pool] + [2, 2])


def abcd(sp, v, pool, z0=None):
    V, I = vi(sp["kind"], full(sp, v, pool), sp["z0"] if z0 is None else z0)
    return extract("A", V, I)


def used(pool, sps):
    """dims of the result in canonical order: sweeps, repeats, each by name"""
    ds = [d for d in pool if any(d["n"] in [x["n"] for x in sp["dims"]] for sp in sps)]
    return sorted(ds, key=lambda d: ("SR".index(d["c"]), d["n"]))


def compare(res, A, c, pool, sps, kind, note):
    V, I = vi("A", A)
    ds = used(pool, sps)
    names = [d["n"] for d in pool]
    idx = tuple(slice(None) if d["n"] in [x["n"] for x in ds] else 0 for d in pool)
    V, I = V[idx], I[idx]
    rest = [d["n"] for d in pool if d["n"] in [x["n"] for x in ds]]
    got = [d.name for d in res.dims]
    check(sorted(got[:-2]) == sorted(rest) and got[-2:] == ["i", "j"], "dims %r, expected %r and i, j", got, rest)
    coherent(res)
    for d in res.dims[:-2]:
        w = [x for x in pool if x["n"] == d.name][0]
        check(list(d.data) == list(w["d"]) and d.unit == w["u"] and type(d) is CLS[w["c"]], "dim %r", d)
    t = [rest.index(n) for n in got[:-2]] + [len(rest), len(rest) + 1]
    V, I = V.transpose(t), I.transpose(t)
    z = res.Z0 if kind in ("S", "T", "Tp") else 50.
    want, c2 = extract(kind, V, I, z)
    if want is None or c * c2 > 1e8:
        return False
    close(res, want, c * c2, "result", extra=100.)
    return True


def existing(sps, vals, pool):
    As, cs = [], 1.0
    for sp, v in zip(sps, vals):
        A, c = abcd(sp, v, pool)
        if A is None:
            return None, None
        # S parameters must exist too: the code goes through them
        V, I = vi(sp["kind"], full(sp, v, pool), sp["z0"])
        # (for the reference impedance of any of the networks)
        for z in sorted(set([50.] + [q["z0"] for q in sps])):
            s, c1 = extract("S", V, I, z)
            if s is None:
                return None, None
            cs = max(cs, c1)
        As.append(A)
        cs = max(cs, c)
    return As, cs


def s_exists(A, z=50.):
    V, I = vi("A", A)
    s, c = extract("S", V, I, z)
    return c


def nontriv(sps):
    return len(set(sp["kind"] for sp in sps)) > 1 or len(set(tuple(sorted(d["n"] for d in sp["dims"])) for sp in sps)) > 1


@S.sub("cascade", chain_spec(), quick=450)
def cascade(spec, note):
    sps, pool = spec["nets"], spec["pool"]
    arrs, vals = zip(*[build(sp) for sp in sps])
    As, c = existing(sps, vals, pool)
    if As is None:
        return
    res, acc, accsp = arrs[0], As[0], [sps[0]]
    for a, A, sp in zip(arrs[1:], As[1:], sps[1:]):
        acc = np.matmul(acc, A)
        accsp.append(sp)
        c = max([c] + [s_exists(acc, z) for z in set([50., sps[0]["z0"]])])
        V, I = vi("A", acc)
        c = max(c, extract(sps[0]["kind"], V, I)[1])
        if c > 1e6:
            return
        res = res.cascade(a)
        check(type(res) is type(arrs[0]), "class %s, expected %s", type(res).__name__, type(arrs[0]).__name__)
        if not compare(res, acc, c, pool, accsp, sps[0]["kind"], note):
            return
    for a, v, sp in zip(arrs, vals, sps):
        exact(a, v, "argument")
        if sp["kind"] in ("S", "T", "Tp"):
            check(a.Z0 == sp["z0"], "reference impedance of an argument changed")
    note.nontrivial(nontriv(sps))


@S.sub("through", st.tuples(net(n=2, dts="cf"), st.sampled_from([k for k in KINDS if k not in "ZY"])).map(list), quick=120)
def through(arg, note):
    sp, k = arg
    a, v = build(sp)
    As, c = existing([sp], [v], sp["dims"])
    if As is None or c > 1e6:
        return
    t = unit_smatrix(cls=classes()[k])
    check(type(t) is classes()[k], "class %s", type(t).__name__)
    for res, kind in ((a.cascade(t), sp["kind"]), (a.deembed(t) if hasattr(a, "deembed") else None, sp["kind"]), (t.cascade(a), k)):
        if res is None:
            continue
        V, I = vi("A", As[0])
        want, c2 = extract(kind, V, I, res.Z0 if kind in ("S", "T", "Tp") else 50.)
        if want is None or c * c2 > 1e8:
            continue
        close(res, want, c * c2, "cascaded with a through (%s)" % k, extra=100.)
    exact(a, v, "argument")
    note.nontrivial(k != sp["kind"])


@S.sub("cascadeS", chain_spec(kinds=["S"], lo=2, hi=7), quick=300)
def cascade_s(spec, note):
    sps, pool = spec["nets"], spec["pool"]
    z = sps[0]["z0"]
    for sp in sps:
        sp["z0"] = z
    arrs, vals = zip(*[build(sp) for sp in sps])
    As, c = existing(sps, vals, pool)
    if As is None:
        return
    acc = As[0]
    for A in As[1:]:
        acc = np.matmul(acc, A)
        c = max(c, s_exists(acc, z))
    if c > 1e6:
        return
    if sps[0]["seed"] % 2:
        arrs = [hfarray(a) for a in arrs]
    res = cascadeS(*arrs)
    if type(res) is hfarray:
        res = C["S"](res)
        res.Z0 = z
    check(res.Z0 == z, "reference impedance %r of the result, expected %r", res.Z0, z)
    if compare(res, acc, c, pool, sps, "S", note):
        note.nontrivial(nontriv(sps))
        note.hit("%d networks" % len(sps))
    for a, v in zip(arrs, vals):
        exact(a, v, "argument")


@S.sub("deembed", st.tuples(chain_spec(lo=3, hi=3), st.sampled_from(["l", "r", "lr", ""])).map(list), quick=450)
def deemb(arg, note):
    spec, how = arg
    sps, pool = spec["nets"], spec["pool"]
    (l, x, r), (lv, xv, rv) = zip(*[build(sp) for sp in sps])
    As, c = existing(sps, (lv, xv, rv), pool)
    if As is None:
        return
    acc = As[1]
    kw, us = {}, [sps[1]]
    for k, arr, A, sp in (("l", l, As[0], sps[0]), ("r", r, As[2], sps[2])):
        if k in how:
            cc = np.max(np.linalg.cond(A * np.array([[1, .02], [50., 1]])))
            if cc > 1e6:
                return
            c = max(c, cc)
            acc = np.matmul(np.linalg.inv(A), acc) if k == "l" else np.matmul(acc, np.linalg.inv(A))
            c = max([c] + [s_exists(acc, z) for z in set([50., sps[1]["z0"]])])
            kw["left" if k == "l" else "right"] = arr
            us.append(sp)
    V, I = vi("A", acc)
    c = max(c, extract(sps[1]["kind"], V, I)[1])
    if c > 1e6:
        return
    res = x.deembed(**kw)
    check(type(res) is type(x), "class %s, expected %s", type(res).__name__, type(x).__name__)
    if compare(res, acc, c, pool, us, sps[1]["kind"], note) and how:
        note.hit(how)
        note.nontrivial(nontriv(us))
    for a, v in ((l, lv), (x, xv), (r, rv)):
        exact(a, v, "argument")


@S.sub("deembedS", st.tuples(chain_spec(kinds=["S"], lo=3, hi=3), st.booleans()).map(list), quick=250)
def deemb_s(arg, note):
    spec, plain = arg
    sps, pool = spec["nets"], spec["pool"]
    for sp in sps:
        sp["z0"] = 50.
    arrs, vals = zip(*[build(sp) for sp in sps])
    As, c = existing(sps, vals, pool)
    if As is None:
        return
    inv = np.linalg.inv
    for A in (As[0], As[2]):
        c = max(c, np.max(np.linalg.cond(A * np.array([[1, .02], [50., 1]]))))
    if c > 1e6:
        return
    left = np.matmul(inv(As[0]), As[1])
    right = np.matmul(As[1], inv(As[2]))
    both = np.matmul(left, inv(As[2]))
    c = max([c] + [s_exists(q) for q in (left, right, both)])
    if c > 1e6:
        return
    if plain:
        arrs = [hfarray(a) for a in arrs]
    e1, x, e2 = arrs
    for got, want, us in ((deembedleft(e1, x), left, sps[:2]), (deembedright(x, e2), right, sps[1:]), (deembed(e1, x, e2), both, sps)):
        res = C["S"](got) if plain else got
        compare(res, want, c, pool, us, "S", note)
    # cascading what was removed gives the measured network back
    back = cascadeS(e1, deembed(e1, x, e2), e2)
    compare(C["S"](back) if plain else back, As[1], c, pool, sps, "S", note)
    for a, v in zip(arrs, vals):
        exact(a, v, "argument")
    note.nontrivial(nontriv(sps))
