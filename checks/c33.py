"""C33: list and string helpers: natural file order, unique, numeric conversion, chopping, flattening."""
import os
import re
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp, put
from hftools.utils import lex_order, split_num, stable_uniq, uniq, to_numeric, chop, flatten, glob, is_numlike, is_integer, isnumber, isrealnumber, make_dirs

S = Suite("C33", rule="lists of 0-10 names mixing letters and digit groups in any order; lists / arrays with repeats; numbers and text in many notations; arrays with values "
          "around the tolerances; nested lists; non-trivial: >= 2 distinct items",
          assumptions=["digits are 0-9"])

frag = st.sampled_from(["a", "b", "1", "2", "10", "02", "-", "_", ".", "nan", "inf", "e", "X", " ", "100", "9", "0", "Z1", "\xe5"])
nm = st.lists(frag, min_size=1, max_size=5).map("".join)


def parts(s):
    return re.findall(r"[0-9]+|[^0-9]+", s)


def less(a, b):
    """natural order of two different names; None if the order is not determined (equal up to leading zeros)"""
    pa, pb = parts(a), parts(b)
    for x, y in zip(pa, pb):
        dx, dy = x[0] in "0123456789", y[0] in "0123456789"
        if dx and dy:
            if int(x) != int(y):
                return int(x) < int(y)
        elif dx != dy:
            return dx
        elif x != y:
            return x < y
    if len(pa) != len(pb):
        return len(pa) < len(pb)
    return None


@S.sub("lex_order", st.lists(nm, max_size=10) | st.lists(nm, min_size=15, max_size=40), quick=600)
def lex(names, note):
    given = list(names)
    r = lex_order(names)
    check(names == given, "the argument was changed")
    check(sorted(r) == sorted(names), "%r became %r", names, r)
    for a, b in zip(r, r[1:]):
        if a != b:
            check(less(a, b) is not False, "%r is placed before %r", a, b)
    for s in names:
        p, o = split_num(s)
        check(o == s and len(p) == len(parts(s)), "split_num(%r) = %r", s, p)
        for x, y in zip(p, parts(s)):
            check(x == (int(y) if y[0] in "0123456789" else y), "split_num(%r) = %r", s, p)
    check(lex_order(names[::-1]) == r and lex_order(sorted(names)) == r and lex_order(names[1:] + names[:1]) == r, "order depends on the order given")
    note.nontrivial(len(set(names)) > 1)


@S.sub("glob", st.tuples(st.lists(st.integers(0, 2000), min_size=1, max_size=8, unique=True), st.sampled_from(["f", "run-", "x1y"])).map(list), quick=80)
def globs(arg, note):
    nums, pre = arg
    with Tmp() as d:
        for k in nums:
            put(d, "%s%d.q" % (pre, k), "")
            put(d, "other%d.z" % k, "")
        r = glob(os.path.join(d, pre + "*.q"))
        sub = os.path.join(d, "p1", "p2")
        make_dirs(d, "p1", "p2")
        make_dirs(sub)
        check(os.path.isdir(sub), "make_dirs")
        there = put(d, "afile", "text")
        check(raises(lambda: make_dirs(there), OSError) is not None, "make_dirs said nothing about a file of that name")
        check(open(there).read() == "text", "make_dirs changed a file")
    check([os.path.basename(x) for x in r] == ["%s%d.q" % (pre, k) for k in sorted(nums)], "glob order %r", r)
    note.nontrivial(len(nums) > 1)


item = st.one_of(st.integers(-3, 3), st.sampled_from(["a", "b", "c"]))


@S.sub("uniq", st.one_of(st.lists(st.integers(-4, 4), max_size=12), npts(1, 8).flatmap(lambda n: many(st.integers(-99, 99), n)), st.lists(st.sampled_from(["a", "b", "x", "10", "9"]), max_size=12)), quick=400)
def uniqs(data, note):
    w = []
    for x in data:
        if x not in w:
            w.append(x)
    for c in (list, tuple):
        check(list(stable_uniq(c(data))) == w, "stable_uniq(%r) = %r", data, stable_uniq(c(data)))
        check(list(uniq(c(data))) == sorted(set(data)), "uniq(%r) = %r", data, uniq(c(data)))
    many = list(range(200, 200 + 7 * len(data))) + data
    check(stable_uniq(many + many[::-1] + many) == many[:7 * len(data)] + w, "stable_uniq of many items")
    if data:
        a = np.array(data)
        check(list(uniq(a)) == sorted(set(data)), "uniq of array")
        if len(data) % 2 == 0:
            check(list(uniq(a.reshape(2, -1))) == sorted(set(data)), "uniq of 2d array")
        h = hfarray(a, dims=(DimSweep("q", len(data)),))
        check([x for x in uniq(h)] == sorted(set(data)), "uniq of hfarray")
    note.nontrivial(len(w) > 1 and len(w) < len(data))


@st.composite
def numtext(draw):
    k = draw(st.sampled_from(["int", "float", "text", "date", "num"]))
    if k == "int":
        return [k, draw(st.integers(-10 ** 20, 10 ** 20)), draw(st.sampled_from(["%d", "%+d", " %d", "%05d"]))]
    if k in ("float", "num"):
        return [k, draw(st.floats(-1e300, 1e300, allow_nan=False)), draw(st.sampled_from(["%r", "%.17e", "%.17E", " %r "]))]
    if k == "date":
        return [k, "%04d-%02d-%02d" % (draw(st.integers(1900, 2200)), draw(st.integers(1, 12)), draw(st.integers(1, 28))),
                draw(st.sampled_from([" %02d:%02d" % (draw(st.integers(0, 23)), draw(st.integers(0, 59))), " %02d:%02d:%02d" % (draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)))]))]
    return [k, draw(st.sampled_from(["abc", "1.2.3", "x1", "", "1,5", "2 3", "V", "1e", "--", "0x10", "1_2", "12_3", "W1_2", "1_0.5"])), ""]


@S.sub("to_numeric", numtext(), quick=500)
def tonum(arg, note):
    k, v, f = arg
    if k == "int":
        r = to_numeric(f % v)
        check(isinstance(r, int) and r == v, "to_numeric(%r) = %r", f % v, r)
        check(to_numeric(v) == v, "number")
    elif k == "float":
        t = f % v
        r = to_numeric(t)
        check(r == float(t), "to_numeric(%r) = %r", t, r)
    elif k == "num":
        check(to_numeric(v) == v and isinstance(to_numeric(v), float), "number %r", v)
        check(isnumber(v) and isrealnumber(v) and is_numlike(v) and not is_integer(v) and isnumber(complex(v, 1)) and not isrealnumber(complex(v, 1)), "kinds")
        check(to_numeric(complex(v, 2)) == complex(v, 2), "complex")
        a = np.array([v, 1.0])
        check(to_numeric(a) is not None and np.array_equal(to_numeric(a), a), "array")
    elif k == "date":
        r = to_numeric(v + f)
        check(isinstance(r, np.datetime64) and r == np.datetime64(v + f), "to_numeric(%r) = %r", v + f, r)
    else:
        check(raises(lambda: to_numeric(v), ValueError) is not None, "%r taken as a number", v)
        check(to_numeric(v, False) == v, "text %r changed", v)
        check(not isnumber(v) and not is_numlike(np.array([v])), "kinds")
    note.hit(k)
    note.nontrivial()


@S.sub("chop", st.tuples(st.lists(st.tuples(st.integers(-22, 6), st.integers(-99, 99)).map(list), min_size=1, max_size=8), st.sampled_from([None, 1e-3, 1e-6]), st.sampled_from([None, 1e-10, 1e-4]),
                         st.booleans()).map(list), quick=400)
def chops(arg, note):
    vals, rtol, atol, cx = arg
    a = np.array([m * 10.0 ** e for e, m in vals])
    if cx:
        a = a * (3 + 4j) / 5
    kw = {}
    if rtol is not None:
        kw["rtol"] = rtol
    if atol is not None:
        kw["atol"] = atol
    R, A = rtol or 1e-9, atol or 1e-15
    keep = a.copy()
    r = chop(a, **kw)
    check(np.array_equal(a, keep), "the argument was changed")
    check(r.shape == a.shape, "shape")
    big = abs(a).max()
    for x, y in zip(a, r):
        lim = max(A, R * big)
        if abs(x) < lim * (1 - 1e-12):
            check(y == 0, "%r was not set to zero (limit %r)", x, lim)
        elif abs(x) > lim * (1 + 1e-12):
            check(y == x, "%r became %r (limit %r)", x, y, lim)
    note.hit("zeroed" if np.any((r == 0) & (a != 0)) else "kept")
    note.nontrivial(bool(np.any((r == 0) & (a != 0)) and np.any(r)))


nest = st.recursive(st.one_of(st.integers(-9, 9), st.sampled_from(["ab", "c"])), lambda c: st.lists(c, max_size=4), max_leaves=12)


@S.sub("flatten", st.lists(nest, max_size=5), quick=250)
def flat(x, note):
    def ref(v):
        return [z for y in v for z in (ref(y) if isinstance(y, list) else [y])]
    check(flatten(x) == ref(x), "flatten(%r) = %r", x, flatten(x))
    tup = lambda v: tuple(tup(y) if isinstance(y, list) else y for y in v)
    check(flatten(list(tup(x))) == ref(x), "tuples")
    note.nontrivial(any(isinstance(y, list) for y in x))
