"""C27: enforcing passivity and reciprocity changes only what is not passive or reciprocal."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.net import *
from hftools.networks.spar_functions import make_passive_svd, make_passive_eig, make_reciprocal, check_passive

S = Suite("C27", rule="S-parameters of 1-4 ports over 0-2 dims, built from chosen singular values (some points passive, some active, some exactly lossless) and generic complex values; "
          "non-trivial: active and passive points in one array / s12 and s21 in any quadrant, nearly equal or different by up to 80 degrees",
          assumptions=["delta between 1e-9 and 0.1", "reciprocity: two-ports with complex values, non-zero s12 and s21, phases less than 160 degrees apart"])


@st.composite
def spar(draw):
    sp = draw(net(kinds=["S"], dts="c"))
    npt = nval(sp["dims"])
    sp["sig"] = draw(many(st.sampled_from([0.2, 0.7, 0.97, 0.999, 1 - 5e-7, 1.0, 1 + 1e-8, 1.00005, 1.001, 1.5, 4.0, 30., 2e4]), npt))
    sp["delta"] = draw(st.sampled_from([None, 1e-6, 1e-9, 0.05]))
    sp["plain"] = draw(st.booleans())
    return sp


def unitary(rng, n):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n)))
    return q


def made(sp):
    rng = np.random.RandomState(sp["seed"])
    n = sp["n"]
    out, sig = [], []
    for s in sp["sig"]:
        sv = np.sort(np.concatenate([[s], rng.uniform(0.05, 1, n - 1) * s]))[::-1]
        out.append(unitary(rng, n) @ np.diag(sv) @ unitary(rng, n))
        sig.append(sv)
    sh = tuple(len(d["d"]) for d in sp["dims"])
    v = np.array(out).reshape(sh + (n, n))
    dims = tuple(mats(sp["dims"])) + (DimMatrix_i("i", n), DimMatrix_j("j", n))
    a = hfarray(lay(v), dims=dims) if sp["plain"] else classes()["S"](lay(v), dims=dims, Z0=sp["z0"])
    return a, v, np.array(sig).reshape(sh + (n,))


def meta(r, a, sp):
    check(type(r) is type(a), "class %s", type(r).__name__)
    samedims(r.dims, a.dims)
    coherent(r)
    if not sp["plain"]:
        check(r.Z0 == sp["z0"], "reference impedance %r, was %r", r.Z0, sp["z0"])


@S.sub("svd", spar(), quick=300)
def svd(sp, note):
    a, v, sig = made(sp)
    d = 1e-6 if sp["delta"] is None else sp["delta"]
    r = make_passive_svd(a) if sp["delta"] is None else make_passive_svd(a, sp["delta"])
    exact(a, v, "argument")
    meta(r, a, sp)
    R = np.asarray(r)
    got = np.linalg.svd(R, compute_uv=False)
    check(np.max(got, initial=0) <= 1 + 1e-9, "largest singular value %r", np.max(got))
    want = np.sort(np.where(sig > 1 + 1e-9, 1 - d, sig))[..., ::-1]
    amb = np.any(abs(sig - 1) <= 1e-9, axis=-1, keepdims=True)   # exactly lossless: either side of the limit
    tol = np.where(amb, d, 0) + 1e-9 + 1e-13 * sig[..., :1]
    check(bool(np.all(abs(got - want) <= tol)), "singular values %r, expected %r", got, want)
    for idx in np.ndindex(*v.shape[:-2]):
        s = sig[idx]
        if s[0] < 1 - 1e-9:
            same(R[idx], v[idx], 1e-9, 1e-9, "passive point")
        # same singular vectors: S^H R is Hermitian positive
        h = v[idx].conj().T @ R[idx]
        same(h, h.conj().T, 1e-7, 1e-7 * max(1, s[0]), "singular vectors at %r" % (idx,))
    note.nontrivial(bool(np.any(sig > 1) and (np.any(sig[..., 0] < 1))))


@S.sub("eig", spar(), quick=300)
def eig(sp, note):
    a, v, sig = made(sp)
    d = 1e-6 if sp["delta"] is None else sp["delta"]
    lam = check_passive(a)
    samedims(lam.dims, a.dims[:-2]) if a.ndim > 2 else check(np.ndim(lam) == 0, "dims of check_passive")
    L = np.asarray(lam)
    for idx in np.ndindex(*v.shape[:-2]):
        # spectral radius by its definition: det(S - x) = 0
        p = np.poly(v[idx])
        same(L[idx], max(abs(np.roots(p))) if sp["n"] > 1 else abs(v[idx][0, 0]), 1e-6, 1e-6, "largest eigenvalue")
    r = make_passive_eig(a) if sp["delta"] is None else make_passive_eig(a, sp["delta"])
    exact(a, v, "argument")
    meta(r, a, sp)
    R = np.asarray(r)
    for idx in np.ndindex(*v.shape[:-2]):
        if L[idx] > 1 + 1e-9:
            same(R[idx], v[idx] / L[idx] * (1 - d), 1e-9, 1e-12, "active point")
        elif L[idx] < 1 - 1e-9:
            exact(R[idx], v[idx], "passive point")
    check(np.max(np.asarray(check_passive(r)), initial=0) <= 1 + 1e-9, "not passive afterwards")
    note.nontrivial(bool(np.any(L > 1) and np.any(L < 1)))


@S.sub("reciprocal", st.tuples(net(kinds=["S"], n=2, dts="c"), st.sampled_from([0, 1e-9, 1e-3, 0.3, 1.4]), st.sampled_from([1., 1.0001, 0.5, 3.])).map(list), quick=300)
def reciprocal(arg, note):
    sp, dphi, ratio = arg
    v = values_of(sp)
    rng = np.random.RandomState(sp["seed"] + 1)
    sh = v.shape[:-2]
    ph = rng.uniform(-np.pi, np.pi, sh)
    pick = rng.randint(0, 4, sh)
    ph = np.where(pick == 0, np.pi, np.where(pick == 1, -np.pi + 1e-12, ph))
    m = rng.uniform(0.01, 1, sh)
    sign = rng.choice([-1, 1], sh)
    v[..., 0, 1] = m * np.exp(1j * ph)
    v[..., 1, 0] = m * ratio * np.exp(1j * (ph + sign * dphi))
    dims = tuple(mats(sp["dims"])) + (DimMatrix_i("i", 2), DimMatrix_j("j", 2))
    a = classes()["S"](lay(v), dims=dims, Z0=sp["z0"])
    r = make_reciprocal(a)
    exact(a, v, "argument")
    meta(r, a, dict(sp, plain=False))
    R = np.asarray(r)
    exact(R[..., 0, 1], R[..., 1, 0], "s12 and s21")
    exact(R[..., 0, 0], v[..., 0, 0], "s11")
    exact(R[..., 1, 1], v[..., 1, 1], "s22")
    g = m * np.sqrt(ratio) * np.exp(1j * (ph + sign * dphi / 2))
    same(R[..., 0, 1], g, 1e-6, 1e-9, "geometric mean of s12 and s21")
    note.nontrivial()
