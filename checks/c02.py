"""C02: every value stays with its coordinates through histories of selection
and re-arrangement."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *

S = Suite("C02", rule="an array over 1-4 named dims followed by a history of 1-8 "
          "selections/re-arrangements (slices, ints, tuples with Ellipsis, boolean masks over "
          "1..n dims, lists, take, transpose, reorder, T, t, squeeze, add_dim, replace_dim, copy, "
          "view) checked after every step against a plain (labels, ndarray) model; non-trivial: "
          "at least two steps apply (one step in single_step)",
          assumptions=["dim names within one array are distinct", "selections are non-empty"])


class M(object):
    """reference model: list of (name, cls, data, unit) + plain ndarray"""
    def __init__(self, dims, arr):
        self.dims, self.arr = list(dims), arr

    @classmethod
    def of(cls, spec):
        return cls([(d["n"], CLS[d["c"]], mkdim(d).data, d.get("u")) for d in spec["dims"]], mknp(spec))


def compare(a, m, what):
    check(isinstance(a, hfarray), "%s: %r is not an hfarray", what, type(a))
    check([d.name for d in a.dims] == [d[0] for d in m.dims], "%s: dims %r, expected %r",
          what, [d.name for d in a.dims], [d[0] for d in m.dims])
    for g, (n, c, data, u) in zip(a.dims, m.dims):
        check(g.__class__ is c, "%s: dim %s is a %s, expected %s", what, n, g.__class__.__name__, c.__name__)
        gd = np.asarray(g.data)
        check(gd.shape == data.shape and bool(np.all(gd == data)),
              "%s: dim %s coordinates %r, expected %r", what, n, gd, data)
        check(g.unit == u, "%s: dim %s unit %r, expected %r", what, n, g.unit, u)
    coherent(a, what)
    exact(a, m.arr, what)


ints = st.integers(-6, 6)


def op_strategy():
    return st.one_of(
        st.tuples(st.just("slice"), ints, ints, ints, st.sampled_from([1, 2, -1, 3, None, -2, -3, 4])),
        st.tuples(st.just("int"), ints, ints, st.sampled_from(["plain", "np", "ell"])),
        st.tuples(st.just("mixed"), st.lists(st.tuples(ints, ints, ints), min_size=1, max_size=4), st.integers(-1, 4)),
        st.tuples(st.just("transpose"), st.lists(ints, min_size=4, max_size=4)),
        st.tuples(st.just("reorder"), st.lists(ints, min_size=1, max_size=3), st.sampled_from(["dim", "name"])),
        st.tuples(st.just("mask1"), ints, st.lists(st.booleans(), min_size=6, max_size=6)),
        st.tuples(st.just("maskn"), st.lists(ints, min_size=2, max_size=3), st.lists(st.booleans(), min_size=12, max_size=12)),
        st.tuples(st.just("take"), ints, st.lists(ints, min_size=1, max_size=5), st.sampled_from(["name", "int", "dim", "neg"]), st.sampled_from(["raise", "wrap", "clip", "negative"])),
        st.tuples(st.just("fancy"), ints, st.lists(ints, min_size=1, max_size=5), st.sampled_from(["list", "nd", "bool"])),
        st.tuples(st.just("squeeze"), st.sampled_from(["all", "one", "several"]), ints),
        st.tuples(st.just("add_dim"), ints, st.integers(1, 3), st.sampled_from(["extra", "ex2"])),
        st.tuples(st.just("replace"), ints, st.sampled_from(["newname", "nn2"]), st.sampled_from(["dim", "name", "cls"])),
        st.tuples(st.just("T")), st.tuples(st.just("t")), st.tuples(st.just("copy")), st.tuples(st.just("view")),
        st.tuples(st.just("ellipsis")),
    ).map(list)


def sl(m, ax, s):
    n, c, d, u = m.dims[ax]
    dims = list(m.dims)
    dims[ax] = (n, c, d[s], u)
    return M(dims, m.arr[(slice(None),) * ax + (s,)])


def step(a, m, op):
    """apply op to the hfarray and to the model; None when not applicable"""
    k = op[0]
    nd = m.arr.ndim
    if k == "slice":
        if not nd:
            return None
        ax = op[1] % nd
        n = m.arr.shape[ax]
        s = slice(op[2] if op[2] != 6 else None, op[3] if op[3] != 6 else None, op[4])
        if len(range(*s.indices(n))) == 0:
            return None
        idx = (slice(None),) * ax + (s,)
        return a[idx if ax else s], sl(m, ax, s)
    if k == "int":
        if nd < 2:
            return None
        ax = op[1] % nd
        n = m.arr.shape[ax]
        i = op[2] % (2 * n) - n          # negative and positive indices
        ii = np.int64(i) if op[3] == "np" else i
        if op[3] == "ell":
            r = a[(Ellipsis, ii) + (slice(None),) * (nd - ax - 1)]
        else:
            r = a[(slice(None),) * ax + (ii,)] if ax else a[ii]
        return r, M(m.dims[:ax] + m.dims[ax + 1:], m.arr[(slice(None),) * ax + (i,)])
    if k == "mixed":
        if nd < 2:
            return None
        parts = op[1][:nd]
        real, mm, ax, drop = [], m, 0, 0
        front = len(parts) if op[2] < 0 or op[2] > len(parts) else op[2]
        # `front` entries index the leading axes, the rest the trailing axes
        where = list(range(front)) + list(range(nd - (len(parts) - front), nd))
        keyed = {}
        nint = 0
        for w, p in zip(where, parts):
            n = m.arr.shape[w]
            if p[0] % 2 and nint < nd - 1:
                keyed[w] = p[1] % n
                nint += 1
            else:
                s = [slice(min(p[1] % n, p[2] % n), None), slice(p[1] % n, None, -1), slice(None, p[1] % n + 1), slice(p[2] % n - n, None, 2),
                     slice(None, None, -2)][(p[0] // 2 + p[2]) % 5]
                keyed[w] = s
        idx = [keyed[w] for w in where[:front]]
        if op[2] >= 0:
            idx.append(Ellipsis)
        idx += [keyed[w] for w in where[front:]]
        full = tuple(keyed.get(w, slice(None)) for w in range(nd))
        dims = []
        for (n_, c, d, u), s in zip(m.dims, full):
            if isinstance(s, slice):
                dims.append((n_, c, d[s], u))
        return a[tuple(idx)], M(dims, m.arr[full])
    if k == "transpose":
        perm = sorted(range(nd), key=lambda i: (op[1][i % 4], i))
        if nd > 4:
            return None
        return a.transpose(*perm), M([m.dims[i] for i in perm], m.arr.transpose(perm))
    if k == "T":
        return a.T, M(m.dims[::-1], m.arr.transpose())
    if k == "reorder":
        if not nd:
            return None
        first = []
        for i in op[1]:
            if i % nd not in first:
                first.append(i % nd)
        perm = first + [i for i in range(nd) if i not in first]
        args = [a.dims[i] if op[2] == "dim" else a.dims[i].name for i in first]
        return a.reorder_dimensions(*args), M([m.dims[i] for i in perm], m.arr.transpose(perm))
    if k == "mask1":
        if not nd:
            return None
        ax = op[1] % nd
        n = m.arr.shape[ax]
        if n > 6:
            return None
        mask = np.array(op[2][:n])
        if not mask.any():
            mask[0] = True
        hm = hfarray(mask, dims=(a.dims[ax],))
        return a[hm], sl(m, ax, mask)
    if k == "maskn":
        if nd < 2:
            return None
        axes = []
        for i in op[1]:
            if i % nd not in axes:
                axes.append(i % nd)
        if len(axes) < 2:
            return None
        shape = tuple(m.arr.shape[i] for i in axes)
        cnt = int(np.prod(shape))
        mask = np.array((op[2] * (cnt // 12 + 1))[:cnt]).reshape(shape)
        if not mask.any():
            mask.flat[0] = True
        hm = hfarray(mask, dims=tuple(a.dims[i] for i in axes))
        lead = [i for i in range(min(axes))]
        rest = [i for i in range(nd) if i not in lead and i not in axes]
        arr = m.arr.transpose(lead + axes + rest)[(slice(None),) * len(lead) + (mask,)]
        r = a[hm]
        anon = r.dims[len(lead)]
        check(anon.name not in [d[0] for d in m.dims], "anonymous dim name %r already in use", anon.name)
        dims = [m.dims[i] for i in lead] + [(anon.name, anon.__class__, np.arange(int(mask.sum())), None)] + [m.dims[i] for i in rest]
        return r, M(dims, arr)
    if k == "take":
        if not nd:
            return None
        ax = op[1] % nd
        n = m.arr.shape[ax]
        idx = [i % n for i in op[2]]
        arg = dict(name=a.dims[ax].name, int=ax, dim=a.dims[ax], neg=ax - nd)[op[3]]
        mode = op[4] if len(op) > 4 else "raise"
        if mode == "raise":
            return a.take(idx, axis=arg), sl(m, ax, np.array(idx))
        if mode == "negative":
            return a.take([i - n for i in idx], axis=arg), sl(m, ax, np.array(idx))
        idx = [i % n if mode == "wrap" else min(max(i, 0), n - 1) for i in op[2]]
        return a.take(list(op[2]), axis=arg, mode=mode), sl(m, ax, np.array(idx))
    if k == "fancy":
        if not nd:
            return None
        ax = op[1] % nd
        n = m.arr.shape[ax]
        if op[3] == "bool":
            mask = np.array([(op[2][j % len(op[2])] + j) % 2 == 0 for j in range(n)])
            if not mask.any():
                mask[0] = True
            idx = marg = mask
        else:
            idx = [i % n for i in op[2]]
            marg = np.array(idx)
            if op[3] == "nd":
                idx = np.array(idx)
        return a[(slice(None),) * ax + (idx,)], sl(m, ax, marg)
    if k == "squeeze":
        ones = [i for i in range(nd) if m.arr.shape[i] == 1]
        if op[1] == "all":
            keep = [i for i in range(nd) if i not in ones]
            return a.squeeze(), M([m.dims[i] for i in keep], m.arr.squeeze())
        if not ones:
            return None
        if op[1] == "several":
            if op[2] % 2:
                ones = ones[:-1] or ones
            args = [a.dims[i].name if (i + op[2]) % 2 else (a.dims[i] if i % 2 else i) for i in ones]
            keep = [i for i in range(nd) if i not in ones]
            return a.squeeze(axis=tuple(args[::-1]) if op[2] % 3 else args), M([m.dims[i] for i in keep], m.arr.squeeze(tuple(ones)))
        ax = ones[op[2] % len(ones)]
        return a.squeeze(axis=a.dims[ax].name), M(m.dims[:ax] + m.dims[ax + 1:], m.arr.squeeze(ax))
    if k == "add_dim":
        if nd >= 5 or op[3] in [d[0] for d in m.dims]:
            return None
        ax = op[1] % (nd + 1)
        data = [10.0 * j + 5 for j in range(op[2])]
        arr = np.repeat(np.expand_dims(m.arr, ax), op[2], ax)
        dims = list(m.dims)
        dims.insert(ax, (op[3], CLS["S"], np.array(data), "V"))
        return a.add_dim(CLS["S"](op[3], data, unit="V"), ax), M(dims, arr)
    if k == "replace":
        if not nd or op[2] in [d[0] for d in m.dims]:
            return None
        ax = op[1] % nd
        r = a.view()
        n_, c, d, u = m.dims[ax]
        if c in (CLS["I"], CLS["J"]):
            return None
        dims = list(m.dims)
        if op[3] == "cls":
            new = CLS["R"] if c is CLS["S"] else CLS["S"]
            r.replace_dim(n_, new)
            dims[ax] = (n_, new, d, u)
        else:
            data = np.arange(m.arr.shape[ax]) * 3 + 1
            r.replace_dim(a.dims[ax] if op[3] == "dim" else n_, CLS["S"](op[2], data, unit="s"))
            dims[ax] = (op[2], CLS["S"], data, "s")
        return r, M(dims, m.arr)
    if k == "t":
        names = [d[0] for d in m.dims]
        if "i" not in names or "j" not in names:
            return None
        pi, pj = names.index("i"), names.index("j")
        order = list(range(nd))
        order[pi], order[pj] = pj, pi
        dims = list(m.dims)
        dims[pi] = ("i", CLS["I"], m.dims[pj][2], m.dims[pi][3])
        dims[pj] = ("j", CLS["J"], m.dims[pi][2], m.dims[pj][3])
        return a.t, M(dims, m.arr.transpose(order))
    if k == "copy":
        return a.copy(), m
    if k == "view":
        return a.view(), m
    if k == "ellipsis":
        return a[...], m
    raise ValueError(k)


@st.composite
def history(draw, maxops=8):
    pool = draw(dim_pool(maxdims=4, maxn=draw(st.sampled_from([5, 4, 8])), kinds="iffst"))
    dims = draw(subperm(pool, 1, 4))
    dt = draw(st.sampled_from("fcisbfcFC"))
    n = nval(dims)
    # distinct values so that any mix-up is visible
    if dt == "f":
        v = [k + 0.5 for k in range(n)]
    elif dt in "cC":
        v = [[k, -k - 1] for k in range(n)]
    elif dt in "iF":
        v = list(range(n))
    elif dt == "s":
        v = ["v%d" % k for k in range(n)]
    else:
        v = draw(values(n, "b"))
    return dict(a=dict(dims=dims, t=dt, v=v, u=draw(st.sampled_from(UNITS))),
                ops=draw(st.lists(op_strategy(), min_size=1, max_size=maxops)))


def run_history(spec, note):
    a, m = mkarr(spec["a"]), M.of(spec["a"])
    compare(a, m, "construction")
    done = 0
    for op in spec["ops"]:
        before, dims0, vals0 = a, a.dims, np.array(a)
        r = step(a, m, op)
        if r is None:
            continue
        note.hit(op[0])
        done += 1
        b, mb = r
        compare(b, mb, "after %r" % (op,))
        check(before.dims == dims0, "%r changed its operand's dims", op)
        exact(before, vals0, "%r changed its operand" % (op,))
        a, m = b, mb
    note.nontrivial(done >= 2 or (done == 1 and len(spec["ops"]) == 1))


S.sub("history", history(), quick=2000, thorough=60000)(run_history)
S.sub("single_step", history(maxops=1), quick=2000, thorough=40000)(run_history)


@st.composite
def elem(draw):
    pool = draw(dim_pool(maxdims=3, maxn=4, kinds="if"))
    a = draw(array_spec(pool, "fci"))
    return dict(a=a, idx=draw(st.lists(st.integers(-9, 9), min_size=len(pool), max_size=len(pool))))


@S.sub("element", elem(), quick=200, thorough=3000)
def element(spec, note):
    """full integer indexing gives the scalar at that position"""
    a, arr = mkarr(spec["a"]), mknp(spec["a"])
    idx = tuple(i % n for i, n in zip(spec["idx"], arr.shape))
    note.nontrivial(arr.ndim > 1)
    check(complex(a[idx]) == complex(arr[idx]), "element %r", idx)
    neg = tuple(i - n for i, n in zip(idx, arr.shape))
    check(complex(a[neg]) == complex(arr[idx]), "element %r", neg)


@st.composite
def bad(draw):
    pool = draw(dim_pool(maxdims=3, maxn=4, kinds="if", matrix=False))
    a = draw(array_spec(pool, "f"))
    return dict(a=a, kind=draw(st.sampled_from(["oob", "two_ellipsis", "foreign_mask", "shape", "too_many"])), ax=draw(st.integers(0, 5)))


@S.sub("bad_index_rejected", bad(), quick=150, thorough=2000)
def bad_index_rejected(spec, note):
    a = mkarr(spec["a"])
    ax = spec["ax"] % a.ndim
    note.nontrivial()
    note.hit(spec["kind"])
    k = spec["kind"]
    if k == "oob":
        f = lambda: a[(slice(None),) * ax + (a.shape[ax],)]
    elif k == "two_ellipsis":
        f = lambda: a[..., 0, ...]
    elif k == "foreign_mask":
        f = lambda: a[hfarray(np.ones(a.shape[ax], bool), dims=(CLS["S"]("nowhere", a.shape[ax]),))]
    elif k == "too_many":
        f = lambda: a[(0,) * (a.ndim + 1)]
    else:
        f = lambda: hfarray(np.zeros(a.shape + (2,)), dims=a.dims)
    check(raises(f) is not None, "%s accepted", k)
