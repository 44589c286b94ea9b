"""C26: noisy two-ports: correlation matrices and noise parameters describe the same noise in every representation."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.net import *
from hftools.networks.noise import NoisyTwoport, passive_noise, from_noisepar
from hftools.constants import k as KB

S = Suite("C26", rule="passive two-ports (contractive S with 50-Ohm or other reference) as Y, Z or S at 4-400 K, and two-ports with arbitrary noise parameters, over 0-2 dims, converted "
          "along chains of kinds; noise figures at 5 source admittances per point compared; non-trivial: at least one conversion",
          assumptions=["noise parameters are physical (Fmin - 1 < 4 Rn Gopt)", "standard temperature 290 K", "Gopt and S refer to 50 Ohm"])
C = classes()
T0 = 290.


def contractive(seed, dims, scale, loss=0.9):
    rng = np.random.RandomState(seed)
    sh = tuple(len(d["d"]) for d in dims) + (2, 2)
    s = rng.uniform(-1, 1, sh) + 1j * rng.uniform(-1, 1, sh)
    n = np.linalg.norm(s, 2, axis=(-2, -1))
    return s / n[..., None, None] * loss * scale


def noise_map(ks, Ms, zs, kd, zd):
    """n_dest = T n_src for L = M R + n: put R_dest = 0 and solve for the terminal quantities"""
    sh = Ms.shape[:-2]
    E = np.eye(4)
    V, I = E[:2], E[2:]
    Ls, Rs = sides(ks, V, I, zs)
    Ld, Rd = sides(kd, V, I, zd)
    A = np.concatenate([Ls - np.matmul(Ms, Rs), np.broadcast_to(Rd, sh + Rd.shape)], axis=-2)
    B = np.concatenate([np.eye(2), np.zeros((2, 2))]) + 0j
    X = np.linalg.solve(A, np.broadcast_to(B, sh + B.shape))
    return np.matmul(Ld, X), np.max(np.linalg.cond(A), initial=1)


def vn_in(kind, M, z, Cm):
    """correlation matrix of the equivalent input noise voltage and current (V1 = V1' + vn, I1 = I1' + in)"""
    T, c = noise_map(kind, M, z, "A", 50.)
    return np.matmul(np.matmul(T, Cm), np.conj(np.swapaxes(T, -1, -2)))


def herm(x):
    return np.conj(np.swapaxes(x, -1, -2))


def noise_figure(CA, Ys):
    """F = 1 + <|in + Ys vn|^2> / (4 k T0 Gs)"""
    v = np.array([Ys, 1.0])
    num = np.einsum("i,...ij,j->...", v, CA, v.conj()).real
    return 1 + num / (4 * KB * T0 * Ys.real)


def fpar(db, Ys):
    Yo, Rn, Fm = np.asarray(db.Yopt), np.asarray(db.Rn), np.asarray(db.Fmin)
    return Fm + Rn / Ys.real * abs(Ys - Yo) ** 2


YS = [0.02 + 0j, 0.005 + 0.01j, 0.05 - 0.03j, 0.1 + 0.002j, 0.012 - 0.012j]


def avail_gain(Smat, Ys):
    g = (0.02 - Ys) / (0.02 + Ys)
    s11, s12, s21, s22 = [Smat[..., i, j] for i in (0, 1) for j in (0, 1)]
    go = s22 + s12 * s21 * g / (1 - s11 * g)
    return (1 - abs(g) ** 2) / abs(1 - s11 * g) ** 2 * abs(s21) ** 2 / (1 - abs(go) ** 2)


def mkdims(dims):
    return tuple(mkdim(d) for d in dims) + (DimMatrix_i("i", 2), DimMatrix_j("j", 2))


def ok_pars(db, dims, what):
    for n in ("Rn", "Yopt", "Fmin", "Gopt"):
        samedims(db[n].dims, [mkdim(d) for d in dims], what + " " + n) if dims else check(db[n].shape == (), "%s %s shape", what, n)
    Yo = np.asarray(db.Yopt)
    same(np.asarray(db.Gopt), (0.02 - Yo) / (0.02 + Yo), 1e-9, 1e-9, "Gopt and Yopt")


@S.sub("passive", st.tuples(sweeps(2), st.integers(0, 10 ** 6), st.sampled_from(["Y", "Z", "S"]), st.sampled_from([290, 77., 4.2, 400.]), st.lists(st.sampled_from(["A", "Y", "Z", "S", "H", "G"]), max_size=2),
                            st.sampled_from([1.0, 0.9, 0.5]), st.sampled_from([50., 75.])).map(list), quick=300)
def passive(arg, note):
    dims, seed, kind, T, chain, scale, z0 = arg
    s = contractive(seed, dims, scale)
    if np.min(abs(s[..., 1, 0])) < 0.05:
        return
    V, I = vi("S", s, 50.)
    M, c = extract(kind, V, I, z0)
    if M is None or c > 1e4:
        return
    a = C["S"](M, dims=mkdims(dims), Z0=z0) if kind == "S" else C[kind](M, dims=mkdims(dims))
    N = passive_noise(a, T) if seed % 2 or T != 290 else passive_noise(a)
    exact(a, M, "argument")
    check(type(N.N) is type(a), "class")
    if seed % 5 == 0:
        cold = np.asarray(passive_noise(a, Tamb=0).C)
        check(np.all(cold == 0), "noise of a passive network at zero temperature: %r", cold)
    worst = c
    for kd in [None] + chain:
        if kd is not None:
            want, c = extract(kd, V, I, 50.)
            if want is None or c > 1e4:
                return
            worst = max(worst, c)
            N = N.convert(C[kd])
            check(type(N.N) is C[kd], "converted to %s", type(N.N).__name__)
            close(N.N, extract(kd, V, I, N.N.Z0 if kd == "S" else 50.)[0], worst, "network", 100.)
        cc = np.asarray(N.C)
        same(cc, herm(cc), 1e-6, 1e-6 * abs(cc).max(), "correlation matrix is Hermitian")
        same(np.imag(cc[..., 0, 0]), 0 * np.real(cc[..., 0, 0]), 0, 1e-7 * abs(cc).max(), "noise powers are real")
        # Friis: the noise figure of a passive network is its loss
        db = N.noise_parameters()
        ok_pars(db, dims, "passive")
        for Ys in YS:
            F = 1 + T / T0 * (1 / avail_gain(s, Ys) - 1)
            same(fpar(db, Ys), F, 1e-6, 1e-6, "noise figure for source %r of %s" % (Ys, kd or kind))
        same(np.asarray(db.S), extract("S", V, I, getattr(db.S, "Z0", 50.))[0], 1e-6, 1e-6, "S parameters")
        note.hit(kd or "first")
    note.nontrivial(len(chain) > 0)


@S.sub("parameters", st.tuples(sweeps(2), st.integers(0, 10 ** 6), st.lists(st.sampled_from(["A", "Y", "Z", "S", "H", "G", "T"]), max_size=3)).map(list), quick=300)
def parameters(arg, note):
    dims, seed, chain = arg
    rng = np.random.RandomState(seed)
    s = contractive(seed, dims, 1.0) * rng.uniform(0.3, 3)
    if np.min(abs(s[..., 1, 0])) < 0.05:
        return
    sh = s.shape[:-2]
    Gopt = rng.uniform(0, .8, sh) * np.exp(2j * np.pi * rng.uniform(0, 1, sh))
    Yopt = 0.02 * (1 - Gopt) / (1 + Gopt)
    Rn = rng.uniform(1, 80, sh)
    Fmin = 1 + 4 * Rn * Yopt.real * rng.uniform(0.05, 0.95, sh)
    db = DataBlock()
    dd = tuple(mkdim(d) for d in dims)
    for n, v in (("Gopt", Gopt), ("Rn", Rn), ("Fmin", Fmin)):
        db[n] = hfarray(lay(v), dims=dd)
    db.S = hfarray(lay(s), dims=mkdims(dims))
    V, I = vi("S", s, 50.)
    if extract("A", V, I)[1] > 1e4 or extract("Y", V, I)[1] > 1e4:
        return
    N = from_noisepar(db)
    for kd in [None] + chain:
        if kd is not None:
            want, c = extract(kd, V, I, 50.)
            if want is None or c > 1e4:
                return
            N = N.convert(C[kd])
            close(N.N, extract(kd, V, I, N.N.Z0 if kd in "ST" else 50.)[0], 1e5, "network", 100.)
        r = N.noise_parameters(partial=True) if seed % 3 == 0 else N.noise_parameters()
        ok_pars(r, dims, "parameters")
        for n, v in (("Gopt", Gopt), ("Rn", Rn), ("Fmin", Fmin)):
            same(np.asarray(r[n]), v, 1e-5, 1e-6, "%s as %s" % (n, kd or "given"))
        # and against the input-referred noise of the representation
        kk = [q for q in C if type(N.N) is C[q]][0]
        CA = vn_in(kk, np.asarray(N.N), N.N.Z0 if kk in ("S", "T", "Tp") else 50., np.asarray(N.C))
        for Ys in YS:
            same(noise_figure(CA, Ys), Fmin + Rn / Ys.real * abs(Ys - Yopt) ** 2, 1e-5, 1e-6, "noise figure from the correlation matrix of %s" % (kd or "given"))
        note.hit(kd or "first")
    note.nontrivial(len(chain) > 0)


@S.sub("convert", st.tuples(net(n=2, dts="cf"), st.sampled_from(KINDS), st.integers(0, 10 ** 6), st.booleans()).map(list), quick=300)
def convert(arg, note):
    sp, kd, seed, tout = arg
    a, v = build(sp)
    V, I = vi(sp["kind"], v, sp["z0"])
    rng = np.random.RandomState(seed)
    x = rng.uniform(-1, 1, v.shape) + 1j * rng.uniform(-1, 1, v.shape)
    Cm = np.matmul(x, herm(x))
    Cm[..., 0, 0], Cm[..., 1, 1] = Cm[..., 0, 0].real, Cm[..., 1, 1].real
    want, c = extract(kd, V, I, 50.)
    if want is None or c > 1e5:
        return
    z = sp["z0"] if sp["kind"] in ("S", "T", "Tp") else 50.
    N = NoisyTwoport(a, hfarray(Cm, dims=a.dims))
    M = N.convert(C[kd], Tout=tout)
    Tc = N.T(C[kd])
    if tout:
        M, Tc = M
    T, cc = noise_map(sp["kind"], v + 0j, z, kd, M.N.Z0 if kd in ("S", "T", "Tp") else 50.)
    want = np.matmul(np.matmul(T, Cm), herm(T))
    check(type(M.N) is C[kd], "class")
    samedims(M.C.dims, a.dims, "correlation matrix") if [d.name for d in M.C.dims] == [d.name for d in a.dims] else check(sorted(d.name for d in M.C.dims) == sorted(d.name for d in a.dims), "dims")
    got = M.C.reorder_dimensions(*[d.name for d in a.dims])
    same(np.asarray(got), want, 1e-6, 1e-7 * abs(want).max(), "correlation matrix %s -> %s" % (sp["kind"], kd))
    Tm = np.asarray(Tc.reorder_dimensions(*[d.name for d in a.dims]))
    same(np.matmul(np.matmul(Tm, Cm), herm(Tm)), want, 1e-6, 1e-7 * abs(want).max(), "noise transformation %s -> %s" % (sp["kind"], kd))
    exact(a, v, "argument")
    note.hit(sp["kind"] + kd)
    note.nontrivial(kd != sp["kind"])
