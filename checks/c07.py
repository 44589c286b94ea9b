"""C07: DataDict is an insertion-ordered mapping whatever history of operations built it."""
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from hftools.dataset import DataDict

S = Suite("C07", rule="histories of 1-25 mapping operations (set, setattr, delete, delattr, setdefault, rename, update, pop, "
          "popitem, clear, copy, view, outputformat) on up to 6 names against a list-of-pairs model; non-trivial: the history "
          "deletes, renames or pops at least once and two names are present at some point",
          assumptions=["names are not attributes of the dict class itself"])

KEYS = ["a", "b", "S11", "freq", "x_1", "A"]
k = st.sampled_from(KEYS)
OPS = st.one_of(
    st.tuples(st.just("set"), k, st.integers(0, 99)), st.tuples(st.just("set"), k, st.integers(0, 99)),
    st.tuples(st.just("setattr"), k, st.integers(0, 99)), st.tuples(st.just("del"), k), st.tuples(st.just("delattr"), k),
    st.tuples(st.just("setdefault"), k, st.integers(0, 99)), st.tuples(st.just("rename"), k, k), st.tuples(st.just("rename"), k, k),
    st.tuples(st.just("update"), st.lists(st.tuples(k, st.integers(0, 99)), max_size=3), st.sampled_from(["pairs", "dict", "kw", "both", "datadict"])),
    st.tuples(st.just("same"), k, st.sampled_from(["set", "attr", "update", "default"])), st.tuples(st.just("pop"), k),
    st.tuples(st.just("popd"), k), st.tuples(st.just("popitem")), st.tuples(st.just("clear")), st.tuples(st.just("copy")),
    st.tuples(st.just("view")), st.tuples(st.just("fmt"), st.sampled_from(["%.1f", "%d"])), st.tuples(st.just("get"), k))


def val(n):
    return hfarray([float(n), n + 0.5], dims=(CLS["S"]("p", 2),))


class Model(object):
    """ordered list of [key, number]"""
    loose = False   # made with names: their place is not stated

    def __init__(self):
        self.o = []

    def idx(self, key):
        for i, (q, _) in enumerate(self.o):
            if q == key:
                return i
        return None

    def set(self, key, v):
        i = self.idx(key)
        if i is None:
            self.o.append([key, v])
        else:
            self.o[i][1] = v

    def rm(self, key):
        i = self.idx(key)
        if i is not None:
            del self.o[i]

    def rename(self, a, b):
        i, j = self.idx(a), self.idx(b)
        if a == b:
            return
        if j is None:
            self.o[i][0] = b
        else:
            self.o[j][1] = self.o[i][1]
            del self.o[i]


def compare(d, m, what):
    if m.loose:
        check(len(list(d)) == len(m.o) and all(q in d for q, _ in m.o), "%s: names %r, expected %r", what, list(d), m.o)
        m.o.sort(key=lambda x: list(d).index(x[0]))
    keys = [q for q, _ in m.o]
    check(list(d) == keys, "%s: iteration %r, expected %r", what, list(d), keys)
    check(d.keys() == keys, "%s: keys %r, expected %r", what, d.keys(), keys)
    check(len(d) == len(keys), "%s: len %d, expected %d", what, len(d), len(keys))
    check([q for q, _ in d.items()] == keys and [q for q, _ in d.iteritems()] == keys, "%s: items order", what)
    for (q, n), v, (q2, v2) in zip(m.o, d.values(), d.items()):
        check(q2 == q and v2 is v and d[q] is v and getattr(d, q) is v, "%s: accessors disagree on %r", what, q)
        exact(v, val(n), "%s: value of %r" % (what, q))
    for q in KEYS:
        check((q in d) == (q in keys), "%s: %r in d is %r", what, q, q in d)
        if q not in keys:
            check(raises(lambda: d[q], KeyError) is not None, "%s: d[%r] of a missing name", what, q)
            check(raises(lambda: getattr(d, q), AttributeError) is not None, "%s: d.%s of a missing name", what, q)


@st.composite
def ops(draw):
    """now and then on top of a dictionary that already has many names"""
    n = min(draw(large_size(8)), 40)
    first = []
    if draw(st.integers(0, 3)) == 0:   # made from what dict takes
        first = [["init", draw(st.lists(st.tuples(k, st.integers(0, 99)).map(list), max_size=5)), draw(st.sampled_from(["pairs", "dict", "kw"]))]]
    return first + [["set", "n%d" % (i * 7 % 41), i] for i in range(n)] + draw(st.lists(OPS, min_size=1, max_size=25))


@S.sub("history", ops(), quick=1200, thorough=30000)
def history(spec, note):
    d, m = DataDict(), Model()
    big = False
    shrink = False
    for op in spec:
        name, a = op[0], op[1:]
        note.hit(name)
        what = "after %r" % (op,)
        if name == "init":
            pairs = [(q, val(n)) for q, n in a[0]]
            d = DataDict(pairs) if a[1] == "pairs" else DataDict(dict(pairs)) if a[1] == "dict" else DataDict(**dict(pairs))
            for q, n in a[0]:
                m.set(q, n)
            m.loose = bool(pairs)
        elif name == "set":
            d[a[0]] = val(a[1])
            m.set(*a)
        elif name == "setattr":
            setattr(d, a[0], val(a[1]))
            m.set(*a)
        elif name == "del":
            del d[a[0]]
            m.rm(a[0])
            shrink = True
        elif name == "delattr":
            delattr(d, a[0])
            m.rm(a[0])
            shrink = True
        elif name == "setdefault":
            i = m.idx(a[0])
            r = d.setdefault(a[0], val(a[1]))
            if i is None:
                m.set(*a)
            exact(r, val(m.o[m.idx(a[0])][1]), what)
        elif name == "rename":
            if m.idx(a[0]) is None:
                check(raises(lambda: d.rename(*a), KeyError) is not None, "rename of a missing name accepted")
            else:
                d.rename(*a)
                m.rename(*a)
                shrink = True
        elif name == "same":
            # storing what is stored already changes nothing
            if m.idx(a[0]) is not None:
                v = d[a[0]]
                if a[1] == "set":
                    d[a[0]] = v
                elif a[1] == "attr":
                    setattr(d, a[0], v)
                elif a[1] == "update":
                    d.update({a[0]: v})
                else:
                    check(d.setdefault(a[0], v) is v, "setdefault gave another object")
        elif name == "update":
            form = a[1] if len(a) > 1 else "pairs"
            pairs = [(q, val(n)) for q, n in a[0]]
            uniq = dict((q, n) for q, n in a[0])
            if form == "pairs":
                d.update(pairs)
            elif form == "dict":
                d.update(dict(pairs))
            elif form == "kw":
                d.update(**dict(pairs))
            elif form == "datadict":
                e = DataDict()
                for q, v in pairs:
                    e[q] = v
                d.update(e)
            else:
                # names given both ways: the keyword wins, at the first place
                d.update(pairs[:1], **dict(pairs[1:]))
            for q, n in uniq.items():
                m.set(q, n)
        elif name in ("pop", "popd"):
            i = m.idx(a[0])
            if name == "pop" and i is None:
                check(raises(lambda: d.pop(a[0]), KeyError) is not None, "pop of a missing name")
            else:
                r = d.pop(a[0]) if name == "pop" else d.pop(a[0], None)
                check((r is None) == (i is None), "pop result")
                if i is not None:
                    exact(r, val(m.o[i][1]), what)
                m.rm(a[0])
                shrink = True
        elif name == "popitem":
            if not m.o:
                check(raises(lambda: d.popitem(), KeyError) is not None, "popitem of an empty dict")
            else:
                q, v = d.popitem()
                i = m.idx(q)
                check(i is not None, "popitem gave unknown key %r", q)
                exact(v, val(m.o[i][1]), what)
                m.rm(q)
                shrink = True
        elif name == "clear":
            d.clear()
            m.o = []
        elif name in ("copy", "view"):
            e = getattr(d, name)()
            compare(e, m, what)
            check(type(e) is DataDict, "type of the %s", name)
            for q, _ in m.o:
                check(np.shares_memory(np.asarray(e[q]), np.asarray(d[q])) == (name == "view"), "%s shares data wrongly", name)
            # changing structure of the original does not reach the copy
            keep = [list(x) for x in m.o]
            d["only_here"] = val(1)
            compare(e, m, what + " (original extended)")
            del d["only_here"]
            e["only_there"] = val(2)
            compare(d, m, what + " (copy extended)")
            del e["only_there"]
            check([list(x) for x in m.o] == keep, "model")
            d = e
        elif name == "fmt":
            d.outputformat = a[0]
            for v in d.values():
                check(v.outputformat == a[0], "outputformat not set")
            if m.o:
                check(d.outputformat == a[0], "outputformat of the dict")
        elif name == "get":
            i = m.idx(a[0])
            r = d.get(a[0])
            check((r is None) == (i is None), "get")
        big = big or len(m.o) > 1
        compare(d, m, what)
    note.nontrivial(big and shrink)
