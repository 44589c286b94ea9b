"""C03: reductions and cumulative operations act on the named dimensions only."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *

S = Suite("C03", rule="arrays over 1-5 dims, reduction axis given as None/int/negative int/name/"
          "Dim/Dim class/mixed tuple, all of sum mean std var (with ddof) min max rss cumsum cumprod, "
          "keepdims and dimerror; oracle: a loop over the kept coordinates; non-trivial: ndim >= 2 and a "
          "proper subset of the dims is reduced",
          assumptions=["every reduced dim has more elements than ddof"])


@st.composite
def case(draw, ops, single=False):
    pool = draw(dim_pool(maxdims=5, maxn=4, kinds="ifs"))
    dims = draw(subperm(pool, 1, 5))
    op = draw(st.sampled_from(ops))
    dt = draw(st.sampled_from("fiNFIUc" if op in ("min", "max") else "ffcicFCIUN" if op in ("sum", "mean") else "ffciFC" if op == "rss" else "ffciciFCIU"))
    n = len(dims)
    k = 1 if single else draw(st.integers(0, n))
    axes = draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k, unique=True))
    how = [draw(st.sampled_from(["int", "neg", "name", "dim", "cls", "base"])) for _ in axes]
    return dict(a=dict(dims=dims, t=dt, v=draw(values(nval(dims), dt)), u=draw(st.sampled_from(UNITS))),
                op=op, axes=axes, how=how, form=draw(st.sampled_from(["tuple", "list", "scalar"])),
                ddof=draw(st.sampled_from([0, 0, 1, 2, 0.5])), keep=draw(st.sampled_from([False, False, True])),
                kw=draw(st.booleans()))


def axis_arg(a, spec):
    """the axis argument and the set of axes it denotes"""
    args, den = [], []
    for ax, how in zip(spec["axes"], spec["how"]):
        d = a.dims[ax]
        if how in ("cls", "base"):
            # a class stands for all dims of it, also of its subclasses
            C = d.__class__ if how == "cls" else [c for c in d.__class__.__mro__ if c is not object][-1 if ax % 2 else 1]
            hits = [i for i, x in enumerate(a.dims) if isinstance(x, C)]
            if any(h in den for h in hits) or any(h != ax and h in spec["axes"] for h in hits):
                how = "name"
            else:
                args.append(C)
                den += hits
                continue
        args.append(dict(int=ax, neg=ax - a.ndim, name=d.name, dim=d)[how])
        den.append(ax)
    if len(args) == 1 and spec["form"] == "scalar":
        return args[0], den
    if not args:
        return None, list(range(a.ndim))
    return (tuple(args) if spec["form"] == "tuple" else list(args)), den


def reduce_ref(op, v, ddof):
    v = np.asarray(v).ravel()
    n = len(v)
    if op == "sum":
        return sum(v.tolist())
    if op == "mean":
        return sum(v.tolist()) / n
    if op in ("var", "std"):
        mu = sum(v.tolist()) / n
        q = sum(abs(x - mu) ** 2 for x in v.tolist()) / (n - ddof)
        return q if op == "var" else math.sqrt(q)
    if op in ("min", "max") and any(x != x for x in v.tolist()):
        return float("nan")
    if op in ("min", "max"):   # complex numbers are ordered by real, then imaginary part
        return (min if op == "min" else max)(v.tolist(), key=lambda x: (x.real, x.imag))
    if op == "rss":
        return math.sqrt(sum(abs(x) ** 2 for x in v.tolist()))


@S.sub("reduce", case(["sum", "mean", "std", "var", "min", "max", "rss"]), quick=1500, thorough=40000)
def reduce_(spec, note):
    a, arr = mkarr(spec["a"]), mknp(spec["a"])
    axis, den = axis_arg(a, spec)
    op, ddof = spec["op"], spec["ddof"]
    cnt = int(np.prod([arr.shape[i] for i in den]))
    kw = {}
    if op in ("std", "var"):
        if cnt <= ddof:
            ddof = 0
        if ddof or spec["kw"]:
            kw["ddof"] = ddof
    keep = spec["keep"] and op != "rss"
    if keep:
        kw["keepdims"] = True
    if axis is None and spec["kw"]:
        got = getattr(a, op)(**kw)
    else:
        got = getattr(a, op)(axis, **kw)
    kept = [i for i in range(a.ndim) if i not in den]
    note.hit("op " + op, "axes %d/%d" % (len(den), a.ndim), *["axis as " + h for h in spec["how"]])
    note.nontrivial(a.ndim > 1 and 0 < len(den) < a.ndim)
    want = np.empty([arr.shape[i] for i in kept], dtype=complex if arr.dtype.kind == "c" and op in ("sum", "mean", "min", "max") else float)
    for idx in np.ndindex(*want.shape):
        full = [slice(None)] * a.ndim
        for i, k in zip(kept, idx):
            full[i] = k
        want[idx] = reduce_ref(op, arr[tuple(full)], ddof)
    what = "%s over %r" % (op, [a.dims[i].name for i in den])
    # as wide as the plain reduction
    plain_ = np.asarray(got) if op == "rss" else getattr(arr, op)()
    check(np.asarray(got).dtype == plain_.dtype, "%s of %s gives %s", what, arr.dtype, np.asarray(got).dtype)
    tol = {} if arr.dtype.str[1:] not in ("f4", "c8") else dict(rtol=1e-4, atol=1e-3)
    if keep:
        check(np.shape(got) == tuple(1 if i in den else n for i, n in enumerate(arr.shape)), "%s keepdims shape %r", what, np.shape(got))
        check([d.name for d in got.dims] == [d.name for d in a.dims], "%s keepdims dims %r", what, got.dims)
        same(np.asarray(got).reshape(want.shape), want, what=what, **tol)
    else:
        samedims(got.dims, [a.dims[i] for i in kept], what)
        coherent(got, what)
        same(got, want, what=what, **tol)
    exact(a, arr, "operand modified")


@S.sub("cumulative", case(["cumsum", "cumprod"], single=True), quick=500, thorough=10000)
def cumulative(spec, note):
    a, arr = mkarr(spec["a"]), mknp(spec["a"])
    ax, how = spec["axes"][0], spec["how"][0]
    d = a.dims[ax]
    if how == "base":
        how = "cls"
    if how == "cls" and sum(isinstance(x, d.__class__) for x in a.dims) > 1:
        how = "name"
    arg = dict(int=ax, neg=ax - a.ndim, name=d.name, dim=d, cls=d.__class__)[how]
    got = getattr(a, spec["op"])(arg)
    note.hit(spec["op"], "axis as " + how)
    note.nontrivial(a.ndim > 1 and arr.shape[ax] > 1)
    samedims(got.dims, a.dims, spec["op"])
    coherent(got)
    want = np.empty(arr.shape, dtype=getattr(arr, spec["op"])(axis=ax).dtype)
    check(np.asarray(got).dtype == want.dtype, "%s of %s gives %s", spec["op"], arr.dtype, np.asarray(got).dtype)
    for idx in np.ndindex(*arr.shape):
        acc = None
        for k in range(idx[ax] + 1):
            v = want.dtype.type(arr[idx[:ax] + (k,) + idx[ax + 1:]])
            acc = v if acc is None else (acc + v if spec["op"] == "cumsum" else acc * v)
        want[idx] = acc
    same(got, want, what=spec["op"])
    check(raises(lambda: getattr(a, spec["op"])(axis=None)) is not None, "axis=None accepted by %s", spec["op"])


@st.composite
def missing(draw):
    pool = draw(dim_pool(maxdims=3, maxn=3, kinds="if", matrix=False))
    return dict(a=draw(array_spec(pool, "f")), op=draw(st.sampled_from(["sum", "mean", "std", "var", "min", "max"])),
                arg=draw(st.sampled_from(["name", "dim", "int", "cum", "tuple"])))


@S.sub("missing_axis", missing(), quick=150, thorough=2000)
def missing_axis(spec, note):
    """an axis that is not there is an error, or a no-op with dimerror=False"""
    a = mkarr(spec["a"])
    note.nontrivial()
    arg = dict(name="nope", dim=CLS["S"]("nope", 2), int=a.ndim, cum="nope", tuple=(a.dims[0].name, "nope"))[spec["arg"]]
    if spec["arg"] == "cum":
        check(raises(lambda: a.cumsum(arg)) is not None, "cumsum over missing axis")
        return
    f = getattr(a, spec["op"])
    check(raises(lambda: f(arg), IndexError) is not None, "%s over a missing axis accepted", spec["op"])
    r = f(arg, dimerror=False)
    samedims(r.dims, a.dims)
    exact(r, a, "dimerror=False")


@st.composite
def consistent(draw):
    s = draw(case(["sum", "mean", "min", "max"]))
    s["perm"] = draw(st.permutations(list(range(len(s["a"]["dims"])))))
    return s


@S.sub("layout_independent", consistent(), quick=300, thorough=5000)
def layout_independent(spec, note):
    """reducing the same names of a transposed array gives the same labelled result"""
    a = mkarr(spec["a"])
    names = [a.dims[i].name for i in spec["axes"]]
    if not names:
        names = [d.name for d in a.dims]
    b = a.transpose(*spec["perm"])
    f = lambda x: getattr(x, spec["op"])(tuple(names))
    r, q = f(a), f(b)
    note.nontrivial(list(spec["perm"]) != sorted(spec["perm"]))
    qn = [d.name for d in q.dims]
    rn = [d.name for d in r.dims]
    check(sorted(qn) == sorted(rn), "dims %r / %r", rn, qn)
    same(np.asarray(q).transpose([qn.index(n) for n in rn]), np.asarray(r))


@st.composite
def dt_case(draw):
    s = draw(case(["sum", "mean", "std", "var", "cumsum", "cumprod"], single=True))
    s["dtype"] = draw(st.sampled_from(["f8", "f4", "c16", "i8"]))
    s["a"]["t"] = draw(st.sampled_from("fi"))
    s["a"]["v"] = draw(values(nval(s["a"]["dims"]), s["a"]["t"]))
    s["out"] = draw(st.booleans())
    return s


@S.sub("dtype_out", dt_case(), quick=150, thorough=3000)
def dtype_out(spec, note):
    """the type to calculate in and the array to store in mean what they mean for the plain reduction"""
    a, arr = mkarr(spec["a"]), mknp(spec["a"])
    op, ax, dt = spec["op"], spec["axes"][0], spec["dtype"]
    if op in ("std", "var", "mean") and dt in ("i8", "c16"):
        dt = "f4"
    note.hit(op, dt)
    note.nontrivial(np.dtype(dt) != arr.dtype and arr.shape[ax] > 1)
    with np.errstate(all="ignore"):
        got = getattr(a, op)(a.dims[ax].name, dtype=dt)
        want = getattr(arr, op)(axis=ax, dtype=dt)
    check(np.asarray(got).dtype == np.dtype(dt), "%s with dtype=%s gives %s", op, dt, np.asarray(got).dtype)
    if not np.all(np.isfinite(want)):
        return
    tol = dict(rtol=1e-3, atol=1e-3 * float(np.max(np.abs(arr), initial=0)) ** (2 if op == "var" else 1)) if dt == "f4" else {}
    same(got, want, what="%s dtype=%s" % (op, dt), **tol)
    coherent(got)
    if spec["out"] and op in ("cumsum", "cumprod"):
        out = np.zeros(arr.shape, dtype=want.dtype)
        with np.errstate(all="ignore"):
            r = getattr(a, op)(a.dims[ax].name, dtype=dt, out=out)
        exact(out, got, "array to store in")
        exact(r, got)
    exact(a, arr, "operand modified")
