"""C01: binary operators align operands by dimension name."""
import operator
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *

S = Suite("C01", rule="operands with independently chosen, independently ordered "
          "sub-sets of a common pool of named dims (sizes 1-4, sweep/rep/matrix, "
          "int/float/complex/bool data), scalars, lists and ndarrays; non-trivial: "
          "both operands are arrays and their dims differ (other order or other set), "
          "or the operand is a scalar/ndarray on the reflected side",
          assumptions=["operands sharing a dimension name share its class and size"])

ARITH = ["+", "-", "*", "/", "**"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
LOGIC = ["&", "|", "^"]
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul,
       "/": operator.truediv, "**": operator.pow, "==": operator.eq,
       "!=": operator.ne, "<": operator.lt, "<=": operator.le,
       ">": operator.gt, ">=": operator.ge,
       "//": operator.floordiv, "%": operator.mod,
       "&": operator.and_, "|": operator.or_, "^": operator.xor}

PRIO = dict(S=0, R=1, I=1000, J=1001, P=0, D=0, A=0)


def union_specs(a, b):
    out = list(a)
    for d in b:
        if d["n"] not in [x["n"] for x in out]:
            out.append(d)
    return sorted(out, key=lambda d: PRIO[d["c"]])


def aligned(spec_dims, arr, union):
    """arr (plain) indexed by coordinates of `union`, by brute force"""
    pos = [[d["n"] for d in union].index(s["n"]) for s in spec_dims]
    shape = tuple(len(d["d"]) for d in union)
    out = np.empty(shape, dtype=arr.dtype)
    for idx in np.ndindex(*shape):
        out[idx] = arr[tuple(idx[p] for p in pos)]
    return out


@st.composite
def pair(draw, dtypes, ops, maxdims=4, many=False):
    if many:
        names = draw(st.permutations(SWEEP_NAMES))[:draw(st.integers(4, 7))]
        pool = [draw(dim_spec(n, "S", maxn=2, kinds="if")) for n in names]
        da, db = draw(subperm(pool, 3, 6)), draw(subperm(pool, 0, 6))
    else:
        pool = draw(dim_pool(maxdims=maxdims, maxn=4))
        da = draw(subperm(pool, 0, 4))
        db = draw(subperm(pool, 0, 4))
    ta = draw(st.sampled_from(dtypes))
    tb = draw(st.sampled_from(dtypes))
    op = draw(st.sampled_from(ops))
    if op == "**":
        tb = "e"
    a = dict(dims=da, t=ta, v=draw(values(nval(da), ta)), u=None)
    if tb == "e":
        b = dict(dims=db, t="i", v=draw(st.lists(st.integers(0, 3), min_size=nval(db), max_size=nval(db))), u=None)
    else:
        b = dict(dims=db, t=tb, v=draw(values(nval(db), tb)), u=None)
    return dict(a=a, b=b, op=op)


def run_pair(spec, note):
    A, B = mkarr(spec["a"]), mkarr(spec["b"])
    a0, b0 = np.array(A), np.array(B)
    op = OPS[spec["op"]]
    un = union_specs(spec["a"]["dims"], spec["b"]["dims"])
    want = op(aligned(spec["a"]["dims"], a0, un), aligned(spec["b"]["dims"], b0, un))
    got = op(A, B)
    na, nb = [d["n"] for d in spec["a"]["dims"]], [d["n"] for d in spec["b"]["dims"]]
    note.nontrivial(na != nb)
    note.hit("op " + spec["op"], "same set other order" if sorted(na) == sorted(nb) and na != nb else
             "subset" if set(na) < set(nb) or set(nb) < set(na) else
             "partial overlap" if set(na) & set(nb) and na != nb else
             "disjoint" if not set(na) & set(nb) else "identical")
    check(isinstance(got, hfarray), "result is %r, not an hfarray", type(got))
    samedims(got.dims, [mkdim(d) for d in un], "result of a%sb" % spec["op"])
    coherent(got)
    narrow = spec["a"]["t"] in "FCI" or spec["b"]["t"] in "FCI"
    same(got, want, *((1e-5, 1e-5) if narrow and got.dtype.kind in "fc" else ()), what="a%sb" % spec["op"])
    exact(A, a0, "left operand modified")
    exact(B, b0, "right operand modified")
    samedims(A.dims, [mkdim(d) for d in spec["a"]["dims"]], "left operand dims modified")
    samedims(B.dims, [mkdim(d) for d in spec["b"]["dims"]], "right operand dims modified")


S.sub("arith_many_dims", pair("fi", ["+", "-", "*"], many=True), quick=150, thorough=4000)(run_pair)
S.sub("arith_types", pair("fNFI", ["+", "-", "*", "/"]), quick=300, thorough=5000)(run_pair)
S.sub("arith_complex64", pair("cCFfi", ["+", "-", "*", "/"]), quick=200, thorough=5000)(run_pair)
S.sub("arith", pair("fci", ARITH), quick=900, thorough=20000)(run_pair)
S.sub("compare", pair("fiNF", CMP), quick=500, thorough=10000)(run_pair)
S.sub("logic", pair("b", LOGIC), quick=250, thorough=5000)(run_pair)
S.sub("floor", pair("fi", ["//", "%"]), quick=150, thorough=3000)(run_pair)

INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "**": operator.ipow,
           "//": operator.ifloordiv, "%": operator.imod, "&": operator.iand, "|": operator.ior, "^": operator.ixor}


@st.composite
def inplace_case(draw):
    op = draw(st.sampled_from(sorted(INPLACE)))
    kinds = "b" if op in LOGIC else "fc" if op in ("/", "*", "-", "+") else "f"
    s = draw(pair(kinds, [op]))
    if s["a"]["t"] == "f" and s["b"]["t"] == "c":
        s["a"], s["b"] = s["b"], s["a"]
    return s


@S.sub("inplace", inplace_case(), quick=300, thorough=6000)
def inplace(spec, note):
    """the array changed in place holds what the operator gives, or is left alone"""
    A, B = mkarr(spec["a"]), mkarr(spec["b"])
    if not A.flags.writeable or not isinstance(A, hfarray):
        return
    A.unit = "V"
    a0, b0 = np.array(A), np.array(B)
    na, nb = [d["n"] for d in spec["a"]["dims"]], [d["n"] for d in spec["b"]["dims"]]
    note.hit("op " + spec["op"])
    note.nontrivial(na != nb and len(na) > 1 and bool(nb))
    extra = [d for d in spec["b"]["dims"] if d["n"] not in na]
    if extra:
        if any(len(d["d"]) > 1 for d in extra):
            check(raises(lambda: INPLACE[spec["op"]](A, B)) is not None, "%s= with dims the array lacks was accepted", spec["op"])
            exact(A, a0, "array after a refused operation")
        return
    with np.errstate(all="ignore"):
        want = OPS[spec["op"]](a0, aligned(spec["b"]["dims"], b0, spec["a"]["dims"]))
        r = INPLACE[spec["op"]](A, B)
    check(r is A, "%s= gives another array", spec["op"])
    samedims(A.dims, [mkdim(d) for d in spec["a"]["dims"]], "dims of the array changed in place")
    check(A.unit == "V", "unit lost")
    same(A, want, what="a%s=b" % spec["op"])
    exact(B, b0, "operand of %s= modified" % spec["op"])


@st.composite
def commute(draw):
    s = draw(pair("fci", ["+", "*", "-", "/"]))
    s["perm"] = draw(st.permutations(list(range(len(s["a"]["dims"])))))
    return s


@S.sub("order_independent", commute(), quick=400, thorough=8000)
def order_independent(spec, note):
    """permuting an operand's storage order never changes the labelled result"""
    A, B = mkarr(spec["a"]), mkarr(spec["b"])
    op = OPS[spec["op"]]
    A2 = A.transpose(*spec["perm"]) if A.ndim else A
    r1, r2 = op(A, B), op(A2, B)
    note.nontrivial(list(spec["perm"]) != sorted(spec["perm"]))
    check(set(d.name for d in r1.dims) == set(d.name for d in r2.dims), "dims differ")
    order = [d.name for d in r1.dims]
    r2n = [d.name for d in r2.dims]
    same(np.transpose(np.asarray(r2), [r2n.index(n) for n in order]), np.asarray(r1))
    # commutativity of + and *
    if spec["op"] in "+*":
        r3 = op(B, A)
        r3n = [d.name for d in r3.dims]
        same(np.transpose(np.asarray(r3), [r3n.index(n) for n in order]), np.asarray(r1))


@st.composite
def scalar_case(draw):
    pool = draw(dim_pool(maxdims=3, maxn=4))
    da = draw(subperm(pool, 0, 4))
    ta = draw(st.sampled_from("fci"))
    a = dict(dims=da, t=ta, v=draw(values(nval(da), ta)), u=draw(st.sampled_from(UNITS)))
    kind = draw(st.sampled_from(["int", "float", "complex", "npfloat", "npint"]))
    op = draw(st.sampled_from(ARITH + ["==", "!="] + ([] if ta == "c" or kind == "complex" else CMP)))
    side = draw(st.sampled_from("LR"))
    if ta == "i" and kind in ("int", "npint") and draw(st.integers(0, 2)) == 0:
        op = draw(st.sampled_from(LOGIC))
    if op == "**":
        if side == "L":      # a ** s
            kind, val = "int", draw(st.integers(0, 3))
        else:                # s ** a
            if draw(st.booleans()):
                a = dict(a, t="f", v=[abs(x) % 8 for x in draw(values(nval(da), "f"))])
                kind, val = "float", draw(st.integers(1, 64)) / 16.0
            else:
                a = dict(a, t="i", v=[abs(x) % 5 for x in draw(values(nval(da), "i"))])
                kind, val = draw(st.sampled_from(["int", "float"])), draw(st.integers(-6, 6))
    elif kind == "complex":
        val = draw(cpx())
    elif kind in ("int", "npint"):
        val = draw(st.integers(-20, 20))
    else:
        val = draw(small_float)
    return dict(a=a, kind=kind, val=val, op=op, side=side)


@S.sub("scalar", scalar_case(), quick=500, thorough=8000)
def scalar(spec, note):
    A = mkarr(spec["a"])
    v = spec["val"]
    v = dict(int=int, float=float, complex=lambda x: tocpx(x), npfloat=np.float64,
             npint=np.int64)[spec["kind"]](v)
    op = OPS[spec["op"]]
    a0 = np.array(A)
    with np.errstate(all="ignore"):
        if spec["side"] == "L":
            got, want = op(A, v), op(a0, v)
        else:
            got, want = op(v, A), op(v, a0)
    note.hit("op " + spec["op"], "side " + spec["side"], "kind " + spec["kind"])
    note.nontrivial(bool(spec["a"]["dims"]))
    if spec["a"]["dims"]:
        # same labelled array; numpy scalars may bring dims into sorted order
        names = [d.name for d in got.dims]
        check(sorted(names) == sorted(d.name for d in A.dims), "dims %r became %r", A.dims, got.dims)
        coherent(got)
        order = [names.index(d.name) for d in A.dims]
        samedims([got.dims[k] for k in order], A.dims)
        got = np.transpose(np.asarray(got), order)
    same(got, want, what="scalar op")
    exact(A, a0, "operand modified")


@st.composite
def nd_case(draw):
    """hfarray op ndarray/list: the plain array takes the default (freq, rep) dims"""
    nf, nr = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    two = draw(st.booleans())
    freq = dict(n="freq", c="S", d=list(range(nf)), k="i", u=None, f=None)
    rep = dict(n="rep", c="R", d=list(range(nr)), k="i", u=None, f=None)
    db = [freq, rep] if two else [freq]
    other = [draw(dim_spec(n, c, maxn=3)) for n, c in
             draw(st.lists(st.sampled_from([("vd", "S"), ("x", "S"), ("run", "R")]), max_size=2, unique=True))]
    da = draw(subperm(db + other, 0, 4))
    ta, tb = draw(st.sampled_from("fci")), draw(st.sampled_from("fci"))
    op = draw(st.sampled_from(["+", "-", "*", "/", "=="]))
    return dict(a=dict(dims=da, t=ta, v=draw(values(nval(da), ta)), u=None),
                b=dict(dims=db, t=tb, v=draw(values(nval(db), tb)), u=None),
                op=op, side=draw(st.sampled_from("LR")), aslist=draw(st.booleans()) and tb != "c")


@S.sub("ndarray_operand", nd_case(), quick=300, thorough=6000)
def ndarray_operand(spec, note):
    A = mkarr(spec["a"])
    b = mknp(spec["b"])
    op = OPS[spec["op"]]
    un = union_specs(spec["a"]["dims"], spec["b"]["dims"])
    x, y = aligned(spec["a"]["dims"], np.array(A), un), aligned(spec["b"]["dims"], b, un)
    bb = b.tolist() if spec["aslist"] else b
    with np.errstate(all="ignore"):
        if spec["side"] == "L":
            got, want = op(A, bb), op(x, y)
        else:
            got, want = op(bb, A), op(y, x)
    note.hit("side " + spec["side"], "list" if spec["aslist"] else "ndarray")
    note.nontrivial(bool(spec["a"]["dims"]))
    check([d.name for d in got.dims] == [d["n"] for d in un], "dims %r", got.dims)
    coherent(got)
    same(got, want, what="ndarray operand")


@st.composite
def mismatch(draw):
    n = draw(st.integers(2, 5))
    m = draw(st.integers(2, 5).filter(lambda k: k != n))
    oth = draw(subperm([draw(dim_spec("vd", "S", maxn=3)), draw(dim_spec("rep", "R", maxn=3))]))
    oth2 = draw(subperm(oth))
    da = draw(st.permutations(oth + [dict(n="x", c="S", d=list(range(n)), k="i", u=None, f=None)]))
    db = draw(st.permutations(oth2 + [dict(n="x", c="S", d=list(range(m)), k="i", u=None, f=None)]))
    return dict(a=dict(dims=da, t="f", v=[0.0] * nval(da), u=None),
                b=dict(dims=db, t="f", v=[0.0] * nval(db), u=None), op=draw(st.sampled_from(["+", "-", "*", "/"])))


@S.sub("size_mismatch_rejected", mismatch(), quick=80, thorough=1500)
def size_mismatch_rejected(spec, note):
    note.nontrivial()
    A, B = mkarr(spec["a"]), mkarr(spec["b"])
    check(raises(lambda: OPS[spec["op"]](A, B)) is not None,
          "dims of the same name with sizes %r and %r combined without an error",
          A.dims, B.dims)


@st.composite
def expr(draw):
    """a small expression tree over several arrays"""
    pool = draw(dim_pool(maxdims=3, maxn=3))
    k = draw(st.integers(2, 4))
    arrs = []
    for _ in range(k):
        d = draw(subperm(pool, 0, 3))
        arrs.append(dict(dims=d, t=draw(st.sampled_from("fc")), v=None, u=None))
        arrs[-1]["v"] = draw(values(nval(d), arrs[-1]["t"]))
    ops = draw(st.lists(st.sampled_from(["+", "-", "*"]), min_size=k - 1, max_size=k - 1))
    return dict(arrs=arrs, ops=ops, right=draw(st.booleans()))


@S.sub("expression", expr(), quick=200, thorough=5000)
def expression(spec, note):
    """a chain of operators equals the element-wise chain at every coordinate"""
    arrs = [mkarr(a) for a in spec["arrs"]]
    if spec["right"]:
        r = arrs[-1]
        for a, o in zip(arrs[-2::-1], spec["ops"][::-1]):
            r = OPS[o](a, r)
    else:
        r = arrs[0]
        for a, o in zip(arrs[1:], spec["ops"]):
            r = OPS[o](r, a)
    alld = {}
    for a in spec["arrs"]:
        for d in a["dims"]:
            alld.setdefault(d["n"], d)
    check(sorted(alld) == sorted(d.name for d in r.dims), "dims %r", r.dims)
    coherent(r)
    names = [d.name for d in r.dims]
    plainv = [np.array(a) for a in arrs]
    note.nontrivial(len(set(tuple(d["n"] for d in a["dims"]) for a in spec["arrs"])) > 1)
    R = np.asarray(r)
    for idx in np.ndindex(*r.shape):
        at = dict(zip(names, idx))
        v = [p[tuple(at[d["n"]] for d in a["dims"])] for p, a in zip(plainv, spec["arrs"])]
        if spec["right"]:
            w = v[-1]
            for x, o in zip(v[-2::-1], spec["ops"][::-1]):
                w = OPS[o](x, w)
        else:
            w = v[0]
            for x, o in zip(v[1:], spec["ops"]):
                w = OPS[o](w, x)
        check(abs(R[idx] - w) <= 1e-9 * max(1, abs(w)), "at %r: %r, expected %r", at, R[idx], w)


@S.sub("compare_text", pair("s", ["==", "!="]), quick=150, thorough=2000)
def compare_text(spec, note):
    if spec["a"]["dims"] or spec["b"]["dims"]:
        run_pair(spec, note)
        A = mkarr(spec["a"])
        if A.ndim:
            w = spec["a"]["v"][0]
            r = OPS[spec["op"]](A, w)
            un = union_specs(spec["a"]["dims"], [])
            samedims(r.dims, [mkdim(d) for d in un], "comparison with a text")
            exact(r, OPS[spec["op"]](aligned(spec["a"]["dims"], np.array(A), un), w))
