"""C25: linear algebra on arrays of matrices equals plain linear algebra on every single matrix, aligned by dimension name."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.net import sweeps
import hftools.math as hm
from hftools.networks.spar_functions import switch_correct
from hftools.networks.noise import Hconj

S = Suite("C25", rule="arrays of matrices (1-4 rows and columns, also vectors without column dim) over any subset of 0-3 sweep / repeat dims in any order before the matrix dims, "
          "integer, real, complex; non-trivial: operands differ in dims or the matrices are not square",
          assumptions=["matrix dims stand last", "matrices to invert have condition < 1e6"])


@st.composite
def mat(draw, pool, r, c, dts="fci"):
    return dict(dims=draw(subperm(pool)), r=r, c=c, dt=draw(st.sampled_from(dts)), seed=draw(st.integers(0, 10 ** 6)),
                sc=draw(st.sampled_from([1., 1., 1., 1e-7, 1e8])), sv=draw(st.sampled_from([None, None, None, 5.5, 4, 6.8])))


def vals(sp):
    rng = np.random.RandomState(sp["seed"])
    sh = tuple(len(d["d"]) for d in sp["dims"]) + (sp["r"], sp["c"])
    if sp["dt"] == "i":
        return rng.randint(-5, 6, size=sh)
    v = rng.uniform(-1, 1, size=sh)
    if sp["dt"] == "c":
        v = v + 1j * rng.uniform(-1, 1, size=sh)
    if sp.get("sv") and min(sh[-2:]) > 1:    # singular values spread over some decades
        u, s, w = np.linalg.svd(v, full_matrices=False)
        v = np.matmul(u * np.logspace(0, -sp["sv"], s.shape[-1]), w)
    return v * sp.get("sc", 1)


def mk(sp, vec=False):
    v = vals(sp)
    dims = tuple(mkdim(d) for d in sp["dims"]) + (DimMatrix_i("i", sp["r"]),)
    if vec:
        return hfarray(lay(v[..., 0]), dims=dims), v
    return hfarray(lay(v), dims=dims + (DimMatrix_j("j", sp["c"]),)), v


def at(sp, v, pt):
    return v[tuple(pt[d["n"]] for d in sp["dims"])]


def points(pool, *sps):
    names = [d["n"] for d in pool if any(d["n"] in [x["n"] for x in sp["dims"]] for sp in sps)]
    sz = [len([d for d in pool if d["n"] == n][0]["d"]) for n in names]
    return [dict(zip(names, ix)) for ix in itertools.product(*[range(s) for s in sz])], names


def compare(res, pool, sps, fn, tail, what, tol=1e-9, squeezed=False, ref=None):
    """res at every point equals fn(point)"""
    pts, names = points(pool, *sps)
    one = [d["n"] for d in pool if len(d["d"]) == 1] if squeezed else []
    keep = [n for n in names if n not in one]
    coherent(res, what)
    got = [d.name for d in res.dims]
    nt = len(tail)
    check(got[len(got) - nt:] == tail and sorted(got[:len(got) - nt]) == sorted(keep), "%s: dims %r, expected %r + %r", what, got, keep, tail)
    for d in res.dims[:len(got) - nt]:
        w = mkdim([x for x in pool if x["n"] == d.name][0])
        samedim(d, w, what)
    r = np.asarray(res)
    for pt in pts:
        g = r[tuple(pt[n] for n in got[:len(got) - nt])]
        w = fn(pt)
        same(g, w, rtol=tol, atol=tol * (np.max(abs(np.asarray(w)), initial=0) if ref is None else ref(pt)), what="%s at %r" % (what, pt))


@st.composite
def two(draw, square=False):
    pool = draw(sweeps(3, 3))
    r, k, c = [draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 5, 7])) for _ in range(3)]
    if square:
        r = k
    return dict(pool=pool, a=draw(mat(pool, r, k)), b=draw(mat(pool, k, c)), vec=draw(st.integers(0, 3)) == 0)


def rank(spec):
    return {d["n"] for d in spec["a"]["dims"]} != {d["n"] for d in spec["b"]["dims"]} or spec["a"]["r"] != spec["b"]["c"]


@S.sub("multiply", two(), quick=400)
def multiply(spec, note):
    pool, sa, sb = spec["pool"], spec["a"], spec["b"]
    if spec["vec"]:
        sb["c"] = 1
    a, av = mk(sa)
    b, bv = mk(sb, spec["vec"])
    res = hm.matrix_multiply(a, b)
    compare(res, pool, [sa, sb], lambda pt: np.dot(at(sa, av, pt), at(sb, bv, pt)), ["i", "j"], "product",
            ref=lambda pt: np.linalg.norm(at(sa, av, pt)) * np.linalg.norm(at(sb, bv, pt)))
    check(res.dims[-2].data.size == sa["r"] and res.dims[-1].data.size == sb["c"], "matrix dims %r", res.dims[-2:])
    exact(a, av)
    check(a.shape == av.shape, "argument reshaped")
    # sizes that do not fit
    if not spec["vec"]:
        bad, _ = mk(dict(sb, r=sb["r"] + 1))
        check(raises(lambda: hm.matrix_multiply(a, bad)) is not None, "%dx%d times %dx%d gave a result", sa["r"], sa["c"], sb["r"] + 1, sb["c"])
        if sb["r"] > 1:
            bad, _ = mk(dict(sb, r=1))
            check(raises(lambda: hm.matrix_multiply(a, bad)) is not None, "%dx%d times 1x%d gave a result", sa["r"], sa["c"], sb["c"])
    note.nontrivial(rank(spec))


def size(sa, av, sb, bv):
    """a bound for the elements of inv(a) b"""
    return lambda pt: np.linalg.norm(np.linalg.pinv(at(sa, av, pt))) * np.linalg.norm(at(sb, bv, pt))


def good(v):
    if v.shape[-1] != v.shape[-2]:
        return False
    with np.errstate(all="ignore"):
        c = np.linalg.cond(v)
    return bool(np.all(np.isfinite(c)) and np.max(c, initial=1) < 1e6)


@S.sub("inverse", two(square=True), quick=300)
def inverse(spec, note):
    pool, sa = spec["pool"], spec["a"]
    a, av = mk(sa)
    n = sa["r"]

    def det(m):
        return m[0, 0] if len(m) == 1 else sum((-1) ** k * m[0, k] * det(np.delete(m[1:], k, 1)) for k in range(len(m)))
    names = [d["n"] for d in sa["dims"]]
    d = hm.det(a)
    check([x.name for x in d.dims] == names, "det dims")
    compare(d, pool, [sa], lambda pt: det(at(sa, av, pt)), [], "det", tol=1e-12, ref=lambda pt: np.prod(np.linalg.norm(at(sa, av, pt), axis=-1)))
    h = Hconj(a)
    compare(h, pool, [sa], lambda pt: at(sa, av, pt).T.conj(), ["i", "j"], "Hermitian conjugate", tol=0)
    if not good(av):
        return
    r = hm.inv(a)
    check([x.name for x in r.dims] == names + ["i", "j"], "inv dims")
    for idx in np.ndindex(*av.shape[:-2]):
        same(np.dot(np.asarray(r)[idx], av[idx]), np.eye(n), 1e-8, 1e-8, "inverse at %r" % (idx,))
    coherent(r)
    sb = dict(spec["b"], r=n, c=n)
    b, bv = mk(sb)
    sw = switch_correct(b, a)
    compare(sw, pool, [sa, sb], lambda pt: np.dot(at(sb, bv, pt), np.linalg.inv(at(sa, av, pt))), ["i", "j"], "switch correction", tol=1e-8, ref=size(sa, av, sb, bv))
    exact(a, av, "argument")
    note.nontrivial(n > 1)


@S.sub("solve", two(square=True), quick=300)
def solve(spec, note):
    pool, sa, sb = spec["pool"], spec["a"], spec["b"]
    if spec["vec"]:
        sb["c"] = 1
    a, av = mk(sa)
    b, bv = mk(sb, spec["vec"])
    if not good(av):
        return
    f = lambda pt: np.dot(np.linalg.inv(at(sa, av, pt)), at(sb, bv, pt))
    compare(hm.solve_Ab(a, b, squeeze=False), pool, [sa, sb], f, ["i", "j"], "solution", 1e-8, ref=size(sa, av, sb, bv))
    r = hm.solve_Ab(a, b)
    tail = [n for n, k in (("i", sa["r"]), ("j", sb["c"])) if k > 1]
    compare(r, pool, [sa, sb], lambda pt: np.squeeze(f(pt)), tail, "squeezed solution", 1e-8, squeezed=True, ref=size(sa, av, sb, bv))
    exact(a, av, "argument")
    note.nontrivial(rank(spec))


@S.sub("lstsq", two(), quick=250)
def lstsq(spec, note):
    pool, sa, sb = spec["pool"], spec["a"], spec["b"]
    # overdetermined: more rows than columns
    sa["r"], sa["c"] = max(sa["r"], sa["c"]) + 1, min(sa["r"], sa["c"])
    sb["r"] = sa["r"]
    if spec["vec"]:
        sb["c"] = 1
    a, av = mk(sa)
    b, bv = mk(sb, spec["vec"])
    c = np.linalg.cond(av)
    if not np.all(np.isfinite(c)) or np.max(c, initial=1) > 1e7:
        return

    def f(pt):
        A, B = at(sa, av, pt), at(sb, bv, pt)
        q, r = np.linalg.qr(A)
        return np.linalg.solve(r, np.dot(q.conj().T, B))
    compare(hm.lstsq(a, b), pool, [sa, sb], f, ["i", "j"], "least squares", 1e-8 if np.max(c, initial=1) < 1e6 else 1e-6, ref=size(sa, av, sb, bv))
    exact(a, av, "argument")
    note.nontrivial()


@st.composite
def four(draw):
    pool = draw(sweeps(3, 3))
    return dict(pool=pool, m=[draw(mat(pool, 1, 1)) for _ in range(4)])


@S.sub("make_matrix", four(), quick=200)
def make_matrix(spec, note):
    pool = spec["pool"]
    arrs, vs = [], []
    for sp in spec["m"]:
        v = vals(sp)[..., 0, 0]
        arrs.append(hfarray(lay(v), dims=tuple(mkdim(d) for d in sp["dims"])))
        vs.append(v)
    res = hm.make_matrix(*arrs)
    compare(res, pool, spec["m"], lambda pt: np.array([at(sp, v, pt) for sp, v in zip(spec["m"], vs)]).reshape(2, 2), ["i", "j"], "matrix", 0)
    note.nontrivial(len({sp["dt"] for sp in spec["m"]}) > 1 or len({tuple(sorted(d["n"] for d in sp["dims"])) for sp in spec["m"]}) > 1)
