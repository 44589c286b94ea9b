"""Networks as linear relations between terminal voltages and currents: the oracle for all parameter conversions.

A network of N ports with parameters M of a given kind is represented by (V, I): N independent solutions of its
defining equations (currents flow into the ports). Nothing here is shared with hftools.
"""
import numpy as np
from hypothesis import strategies as st
from vlib.build import *

KINDS = ["Z", "Y", "S", "A", "G", "H", "T", "Tp"]
MULTI = ["Z", "Y", "S"]


def classes():
    import hftools.networks.multiports as mp
    return dict(Z=mp.ZArray, Y=mp.YArray, S=mp.SArray, A=mp.ABCDArray, G=mp.GArray, H=mp.HArray, T=mp.TArray, Tp=mp.TpArray)


def st2(top, bottom):
    return np.concatenate([top, bottom], axis=-2)


def rows(m, i):
    return m[..., i:i + 1, :]


def vi(kind, M, z0=50.):
    M = np.asarray(M) + 0j
    n = M.shape[-1]
    E = np.broadcast_to(np.eye(n) + 0j, M.shape)
    r = np.sqrt(z0)
    if kind == "Z":
        return M, E
    if kind == "Y":
        return E, M
    if kind == "S":
        return r * (E + M), (E - M) / r
    m1, m2, e1, e2 = rows(M, 0), rows(M, 1), rows(E, 0), rows(E, 1)
    if kind == "A":      # V1, I1 = A (V2, -I2)
        return st2(m1, e1), st2(m2, -e2)
    if kind == "G":      # I1, V2 = G (V1, I2)
        return st2(e1, m2), st2(m1, e2)
    if kind == "H":      # V1, I2 = H (I1, V2)
        return st2(m1, e2), st2(e1, m2)
    if kind == "T":      # b1, a1 = T (a2, b2)
        b1, a1, a2, b2 = m1, m2, e1, e2
    elif kind == "Tp":   # a1, b1 = Tp (b2, a2)
        a1, b1, b2, a2 = m1, m2, e1, e2
    a, b = st2(a1, a2), st2(b1, b2)
    return r * (a + b), (a - b) / r


def sides(kind, V, I, z0=50.):
    """(left, right) with left = M right"""
    r = np.sqrt(z0)
    a, b = (V / r + r * I) / 2, (V / r - r * I) / 2
    v1, v2, i1, i2 = rows(V, 0), rows(V, 1), rows(I, 0), rows(I, 1)
    a1, a2, b1, b2 = rows(a, 0), rows(a, 1), rows(b, 0), rows(b, 1)
    return dict(Z=lambda: (V, I), Y=lambda: (I, V), S=lambda: (b, a), A=lambda: (st2(v1, i1), st2(v2, -i2)),
                G=lambda: (st2(i1, v2), st2(v1, i2)), H=lambda: (st2(v1, i2), st2(i1, v2)),
                T=lambda: (st2(b1, a1), st2(a2, b2)), Tp=lambda: (st2(a1, b1), st2(b2, a2)))[kind]()


def extract(kind, V, I, z0=50.):
    """parameters of the given kind and the worst condition number of getting them (inf if they do not exist)"""
    L, R = sides(kind, V, I, z0)
    # columns of the basis can be scaled freely: normalise them so that the condition number is about the network
    s = np.sqrt(np.sum(abs(V) ** 2, axis=-2, keepdims=True) / 50 + np.sum(abs(I) ** 2, axis=-2, keepdims=True) * 50)
    s = np.where(s == 0, 1, s)
    L, R = L / s, R / s
    with np.errstate(all="ignore"):
        c = np.linalg.cond(R) if R.size else np.array(0.)
        if R.size:   # a small right hand side in natural units (V / sqrt(50), I * sqrt(50)): the parameters all but do not exist, also for one port
            Rn = sides(kind, V / 50 ** .5, I * 50 ** .5, z0 / 50)[1] / s
            c = np.maximum(c, 1 / np.linalg.svd(Rn, compute_uv=False)[..., -1])
    if not np.all(np.isfinite(c)) or np.max(c, initial=0) > 1e9:
        return None, float("inf")
    X = np.linalg.solve(np.swapaxes(R, -1, -2), np.swapaxes(L, -1, -2))
    return np.swapaxes(X, -1, -2), float(np.max(c, initial=0))


def close(got, want, cond, what, extra=1.0):
    got, want = np.asarray(got), np.asarray(want)
    check(got.shape == want.shape, "%s: shape %r, expected %r", what, got.shape, want.shape)
    scale = np.max(abs(want), initial=0)
    tol = (1e-12 + 1e-14 * cond) * extra * max(scale, 1e-12)
    d = abs(got - want)
    check(bool(np.all(d <= tol)), "%s: values differ by up to %g (tolerance %g)\n got %r\nwant %r", what, np.max(d, initial=0), tol, got, want)


SCALE = dict(Z=50., Y=0.02, S=0.5, A=1., G=1., H=1., T=1., Tp=1.)


@st.composite
def sweeps(draw, maxdims=2, maxn=3):
    k = draw(st.integers(0, maxdims))
    cand = [("freq", "S"), ("vd", "S"), ("rep", "R"), ("Power", "S"), ("run", "R")]
    pick = draw(st.lists(st.sampled_from(cand), min_size=k, max_size=k, unique_by=lambda x: x[0]))
    pick.sort(key=lambda x: x[1] == "R")
    return draw(enlarge([draw(dim_spec(n, c, kinds="if", maxn=maxn)) for n, c in pick], 150))


@st.composite
def net(draw, kinds=KINDS, maxn=4, n=None, maxdims=2, dts="ccccfiib"):
    kind = draw(st.sampled_from(kinds))
    if n is None:
        n = draw(st.sampled_from([2, 3, 2, 1, 4, 2, 3, 5, 8][:maxn + 1 if maxn < 4 else 9])) if kind in MULTI else 2
    return dict(kind=kind, n=n, dims=draw(sweeps(maxdims)), dt=draw(st.sampled_from(dts)), seed=draw(st.integers(0, 10 ** 6)),
                z0=draw(st.sampled_from([50., 50., 75., 1., 28.5, 100, 2000., 0.1])), scale=draw(st.sampled_from([1., 1., 0.25, 4.])))


def mats(dims):
    return [mkdim(d) for d in dims]


def values_of(sp, dims=None):
    dims = sp["dims"] if dims is None else dims
    sh = tuple(len(d["d"]) for d in dims) + (sp["n"], sp["n"])
    rng = np.random.RandomState(sp["seed"])
    if sp["dt"] == "b":
        return rng.randint(0, 2, size=sh).astype(bool)
    if sp["dt"] == "i":
        return rng.randint(-6, 7, size=sh)
    v = rng.uniform(-1, 1, size=sh)
    if sp["dt"] == "c":
        v = v + 1j * rng.uniform(-1, 1, size=sh)
    if sp["kind"] in ("A", "G", "H"):
        u = dict(A=[[1, 50.], [.02, 1]], G=[[.02, 1], [1, 50.]], H=[[50., 1], [1, .02]])[sp["kind"]]
        v = v * np.array(u)
    return v * SCALE[sp["kind"]] * sp["scale"]


def build(sp, mi="i", mj="j"):
    """(network array, plain values)"""
    v = values_of(sp)
    C = classes()[sp["kind"]]
    dims = tuple(mats(sp["dims"])) + (DimMatrix_i(mi, sp["n"]), DimMatrix_j(mj, sp["n"]))
    if sp["kind"] == "S":
        a = C(lay(v), dims=dims, Z0=sp["z0"])
    else:
        a = C(lay(v), dims=dims)
        if sp["kind"] in ("T", "Tp"):
            a.Z0 = sp["z0"]
    return a, v
