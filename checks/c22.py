"""C22: configuration files: values with units parse to what they say, enclosing scopes are searched, written files read back the same."""
import contextlib
import datetime
import io
import os
import warnings
from hypothesis import strategies as st
from vlib.core import Suite
from vlib.build import *
from vlib.files import Tmp, put
from hftools.file_formats.config import Config, LexicalConfig, LexicalScopeDict, LexicalScopeList, MergedDicts, SIValue
from hftools import path

S = Suite("C22", rule="YAML files with nested mappings and lists (depth <= 4) of numbers with prefixes and units, per cent, ppm, intervals, dates, times, text (also text that looks like a "
          "value), written and read back; histories of edits and lookups in nested scopes; non-trivial: nested content or a value with a unit",
          assumptions=["the top of a file is a mapping", "intervals are not negative", "numbers are finite", "metres always carry a prefix (a bare m is milli)"])

PRE = {"": 1., "d": 1e-1, "c": 1e-2, "m": 1e-3, "u": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "P": 1e15, "E": 1e18}
UNITS = ["Hz", "V", "A", "m", "s", "W", "Ohm"]
num = st.tuples(st.sampled_from(["", "-", "+"]), st.sampled_from(["5", "0", "17", "1.5", "0.001", ".25", "123456.789", "1e3", "2.5e-7", "1E+2", "9e0"])).map("".join)
sivals = st.tuples(num, st.sampled_from(["", " ", "   "]), st.sampled_from(sorted(PRE)), st.sampled_from([""] + UNITS)).map(list)
ivals = st.lists(st.one_of(st.none(), st.sampled_from([0, 1, 2, 12, 59, 100, 0.5, 1.25, 30.001])), min_size=4, max_size=4).filter(lambda x: any(v is not None for v in x))


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with contextlib.redirect_stdout(io.StringIO()) as o:
            yield w, o


def opened(cls, fn):
    with quiet():
        return cls(fn)


def rel(got, want, what):
    check(abs(float(got) - want) <= 1e-14 * abs(want), "%s: %r, expected %r", what, float(got), want)


@S.sub("values", st.tuples(st.one_of(st.tuples(st.just("si"), sivals), st.tuples(st.just("part"), st.tuples(num, st.sampled_from(["", " "]), st.sampled_from(["%", "ppm", "ppb"]))),
                                     st.tuples(st.just("ival"), st.tuples(ivals, st.booleans(), st.sampled_from([" ", "  "]))),
                                     st.tuples(st.just("date"), st.datetimes(min_value=datetime.datetime(1990, 1, 1), max_value=datetime.datetime(2090, 1, 1)).map(lambda d: d.strftime("%Y-%m-%d %H:%M"))),
                                     st.tuples(st.just("clock"), st.tuples(st.integers(0, 23), st.integers(0, 59), st.one_of(st.none(), st.integers(0, 59))))),
                           st.sampled_from(["top", "list", "nested", "flow"]), st.booleans()).map(list), quick=700)
def values(arg, note):
    (kind, w), place, lexical = arg
    if kind == "si":
        n, sp, p, u = w
        if not p and u == "m":
            p = "k"
        text = (n + sp + p + u).rstrip()
    elif kind == "part":
        text = "".join(w)
    elif kind == "ival":
        vals, singular, sp = w
        names = ["day", "hour", "minute", "second"] if singular else ["days", "hours", "minutes", "seconds"]
        text = " ".join("%s%s%s" % (v, sp, k) for v, k in zip(vals, names) if v is not None)
    elif kind == "date":
        text = w
    else:
        h, m, s = w
        text = "%02d:%02d" % (h, m) + ("" if s is None else ":%02d" % s)
    body = {"top": "v: %s\nz: 1\n", "list": "l:\n  - 3\n  - %s\n  - text\n", "nested": "a:\n  b:\n    - c: %s\n      d: x\n", "flow": "f: {x: [1, %s], y: 2}\n"}[place] % text
    with Tmp() as d:
        fn = put(d, "c.yaml", body)
        before = datetime.datetime.now()
        c = opened(LexicalConfig if lexical else Config, fn)
        after = datetime.datetime.now()
    got = {"top": lambda: c["v"], "list": lambda: c["l"][1], "nested": lambda: c["a"]["b"][0]["c"], "flow": lambda: c["f"]["x"][1]}[place]()
    what = "%r" % text
    if kind == "si":
        check(not isinstance(got, str), "%s read as text", what)
        rel(got, float(n) * PRE[p], what)
        check(getattr(got, "unit", None) == (u or None), "%s: unit %r", what, getattr(got, "unit", None))
        note.nontrivial(bool(p or u))
    elif kind == "part":
        check(not isinstance(got, str), "%s read as text", what)
        rel(got, float(w[0]) * {"%": 1e-2, "ppm": 1e-6, "ppb": 1e-9}[w[2]], what)
        note.nontrivial()
    elif kind == "ival":
        check(isinstance(got, datetime.timedelta), "%s read as %r", what, got)
        want = sum((v or 0) * k for v, k in zip(vals, [86400., 3600., 60., 1.]))
        check(abs(got.total_seconds() - want) <= 2e-6, "%s read as %r", what, got)
        note.nontrivial(sum(v is not None for v in vals) > 1)
    elif kind == "date":
        check(got == datetime.datetime.strptime(w, "%Y-%m-%d %H:%M"), "%s read as %r", what, got)
        note.nontrivial()
    else:
        check(isinstance(got, datetime.datetime), "%s read as %r", what, got)
        check((got.hour, got.minute, got.second) == (h, m, s or 0), "%s read as %r", what, got)
        check(before <= got or got.microsecond == 0 and (got - before).total_seconds() > -1e-3, "%s read as %r, before now", what, got)
        check(got <= after + datetime.timedelta(days=1), "%s read as %r, not the next such time", what, got)
        note.nontrivial()
    note.hit(kind)


TEXTS = ["", "abc", "5 GHz", "5k", "12:30", "12:30 meeting", "true", "null", "~", "1 day", "2 hours 3 minutes", "10%", "3 ppm", "2010-10-10", "2010-10-10 08:30", "a: b", "# x", "- x", "x\ny", " lead",
         "trail ", "\xe5\xe4\xf6", "'q'", '"dq"', "1e5", "0x10", "-", "[1]", "{a}", "!sivalue 5", "*x", "&x", "5", "1.5", "tab\tx", "\u20ac", "=", "<<", "nan", "path\\x"]
text = st.one_of(st.sampled_from(TEXTS), st.tuples(st.lists(st.sampled_from(["word", "a", "10 V", "#", "x:", "- b", "\xe5", "12:30"]), min_size=15, max_size=60), st.sampled_from([" ", "  ", "_"])).map(lambda t: t[1].join(t[0])), st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=8))
leaf = st.one_of(st.tuples(st.just("t"), text), st.tuples(st.just("t"), text), st.tuples(st.just("i"), st.integers(-10 ** 20, 10 ** 20)), st.tuples(st.just("f"), st.floats(allow_nan=False, allow_infinity=False)),
                 st.tuples(st.just("b"), st.booleans()), st.tuples(st.just("n"), st.none()),
                 st.tuples(st.just("s"), st.tuples(st.floats(-1e20, 1e20), st.sampled_from(["k", "", "p", "G"]), st.sampled_from([""] + UNITS)).map(list)),
                 st.tuples(st.just("d"), st.tuples(st.integers(0, 4000), st.integers(0, 86399), st.sampled_from([0, 0, 1, 250000, 999999])).map(list)),
                 st.tuples(st.just("D"), st.tuples(st.integers(1, 20000), st.integers(0, 86399), st.sampled_from([0, 0, 1, 250000, 999999])).map(list)),
                 st.tuples(st.just("p"), st.text(alphabet="abc/._- 5k", min_size=1, max_size=8)))
key = st.one_of(st.sampled_from(["a", "b", "freq", "Vd", "5", "5 GHz", "x y", "true", "12:30", "\xe5"]), text)
tree = st.recursive(leaf.map(list), lambda x: st.one_of(st.tuples(st.just("L"), st.lists(x, max_size=4) | st.lists(x, min_size=11, max_size=14)).map(list),
                                                         st.tuples(st.just("M"), st.lists(st.tuples(key, x).map(list), max_size=4)).map(list)), max_leaves=8)


def make(t, lexical):
    k, v = t
    if k == "s":
        n, p, u = v
        if not p and u == "m":
            p = "k"
        return SIValue("%r%s%s" % (n, p, u))
    if k == "d":
        return datetime.timedelta(days=v[0], seconds=v[1], microseconds=v[2])
    if k == "D":
        return datetime.datetime(1990, 1, 1) + datetime.timedelta(days=v[0], seconds=v[1], microseconds=v[2])
    if k == "p":
        return path(v)
    if k == "L":
        return [make(x, lexical) for x in v]
    if k == "M":
        return dict((kk, make(x, lexical)) for kk, x in v)
    return v


def agree(got, want, where):
    if isinstance(want, dict):
        check(isinstance(got, dict) and sorted(got.keys()) == sorted(want.keys()), "%s: %r, expected the keys %r", where, got, sorted(want))
        for k in want:
            agree(got[k], want[k], "%s[%r]" % (where, k))
    elif isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), "%s: %r, expected %r", where, got, want)
        for n, (g, w) in enumerate(zip(got, want)):
            agree(g, w, "%s[%d]" % (where, n))
    elif isinstance(want, SIValue):
        check(isinstance(got, float), "%s: %r, expected a number", where, got)
        rel(got, float(want), where)
        check(getattr(got, "unit", None) == want.unit, "%s: unit %r, expected %r", where, getattr(got, "unit", None), want.unit)
    elif isinstance(want, path):
        check(isinstance(got, str) and got == str(want), "%s: %r, expected %r", where, got, want)
    elif isinstance(want, bool) or want is None:
        check(got is want, "%s: %r, expected %r", where, got, want)
    else:
        check(not isinstance(got, bool) and (got == want) and (isinstance(got, str) == isinstance(want, str)), "%s: %r, expected %r", where, got, want)


@S.sub("write", st.tuples(st.lists(st.tuples(key, tree).map(list), min_size=1, max_size=4), st.booleans(), st.booleans()).map(list), quick=500)
def write(arg, note):
    items, lexical, elsewhere = arg
    cls = LexicalConfig if lexical else Config
    with Tmp() as d:
        fn = put(d, "c.yaml", "old: 5 GHz\n")
        c = opened(cls, fn)
        del c["old"]
        want = {}
        for k, t in items:
            want[k] = make(t, lexical)
            c[k] = make(t, lexical)
        out = os.path.join(d, "other.yaml") if elsewhere else fn
        c.write(out) if elsewhere else c.write()
        agree(dict(c), want, "after writing")
        if elsewhere:
            agree(dict(opened(cls, fn)), {"old": SIValue("5 GHz")}, "the original file")
            c.write()
            agree(opened(cls, fn), want, "the original file after saving there")
        data = open(out, "rb").read()
        r = opened(cls, out)
        agree(r, want, "read back")
        r.write()
        agree(opened(Config, out), want, "read back after a second save")
        agree(opened(LexicalConfig, out), want, "read back after a second save")
        check(open(out, "rb").read() == data or any(k in "sd" for k in kinds(items)), "second save differs from the first")
        # the file changes behind its back
        put(d, os.path.basename(out), "fresh: 1 kHz\n")
        with quiet():
            r.reload_settings()
        agree(dict(r), {"fresh": SIValue("1 kHz")}, "reloaded")
        os.remove(out)
        with quiet() as (w, o):
            r.reload_settings()
        check(len(r) == 0 and (len(w) or "missing" in o.getvalue()), "missing file not reported, content %r", dict(r))
    note.nontrivial(any(k in "sdDLMp" for k in kinds(items)))


def kinds(items):
    out = []

    def walk(t):
        out.append(t[0])
        if t[0] == "L":
            [walk(x) for x in t[1]]
        if t[0] == "M":
            [walk(x) for _, x in t[1]]
    [walk(t) for _, t in items]
    return out


KEYS = ["a", "b", "c", "d"]
shape = st.recursive(st.integers(0, 9), lambda x: st.one_of(st.lists(x, max_size=3), st.dictionaries(st.sampled_from(KEYS), x, max_size=4)), max_leaves=12)
scope_top = st.dictionaries(st.sampled_from(KEYS), shape, min_size=1, max_size=4)
act = st.tuples(st.sampled_from(["set", "set", "del", "look", "copy"]), st.integers(0, 20), st.sampled_from(KEYS + ["e"]), st.integers(100, 120)).map(list)


def dump(x, ind=0):
    import json
    return json.dumps(x)


@S.sub("scope", st.tuples(scope_top, st.lists(act, max_size=8), st.booleans()).map(list), quick=500)
def scope(arg, note):
    top, acts, cfg = arg
    with Tmp() as d:
        fn = put(d, "c.yaml", dump(top))
        c = opened(LexicalConfig, fn)
    if not cfg:
        # a plain scope found inside a file
        with Tmp() as d:
            fn = put(d, "c.yaml", dump({"z": top}))
            c = opened(LexicalConfig, fn)
        top = {"z": top}

    def collect(m, r, scopes, out):
        if isinstance(m, dict):
            mine = scopes + [m]
            out.append((m, r, mine))
            for k in m:
                collect(m[k], OrderedGet(r, k), mine, out)
        elif isinstance(m, list):
            check(len(m) == len(r), "list length")
            for x, y in zip(m, r):
                collect(x, y, scopes, out)
        return out

    def look(what):
        nodes = collect(top, c, [], [])
        for m, r, scopes in nodes:
            check(list(r.keys()) == list(m.keys()), "%s: keys %r, expected %r", what, list(r.keys()), list(m.keys()))
            check(len(r) == len(m), "length")
            for k in KEYS + ["e", "z"]:
                found = [s for s in reversed(scopes) if k in s]
                inside = k in r
                check(inside is True or inside is False, "membership is %r", inside)
                check(inside == bool(found), "%s: %r in scope is %r", what, k, inside)
                if found:
                    same_tree(r[k], found[0][k], "%s [%r]" % (what, k))
                    same_tree(r.get(k, "dflt"), found[0][k], "%s get(%r)" % (what, k))
                else:
                    raises(KeyError, lambda: r[k], "missing key")
                    check(r.get(k, "dflt") == "dflt" and r.get(k) is None, "default of get")
        return nodes

    nodes = look("as read")
    depth = max(len(s) for _, _, s in nodes)
    for a, n, k, v in acts:
        m, r, scopes = nodes[n % len(nodes)]
        if a == "set":
            m[k] = v
            r[k] = v
        elif a == "del":
            if k in m:
                del m[k]
                del r[k]
            else:
                raises(KeyError, lambda: r.__delitem__(k), "deleting a missing key")
        elif a == "copy":
            q = r.copy()
            for kk in KEYS + ["e"]:
                check((kk in q) == (kk in r), "copy: membership of %r", kk)
                if kk in r:
                    same_tree(q[kk], r[kk], "copy[%r]" % kk)
            q["new"] = 1
            q["a"] = 999
            check("new" not in r, "changing a copy changed its source")
            m["e"] = v
            r["e"] = v
            outer = [s for s in reversed(scopes[:-1]) if k in s]
            if k in q.keys():
                del q[k]
            check((k in q) == bool(outer), "%r deleted from a copy: membership is %r", k, k in q)
            if outer:
                same_tree(q[k], outer[0][k], "copy[%r] after deleting it" % k)
        nodes = look("after %s" % a)
    note.nontrivial(depth > 1)


def OrderedGet(r, k):
    return r[k]


def same_tree(got, want, what):
    if isinstance(want, dict):
        check(isinstance(got, dict) and list(got.keys()) == list(want.keys()), "%s: %r, expected %r", what, got, want)
        for k in want:
            same_tree(got[k], want[k], what)
    elif isinstance(want, list):
        check(isinstance(got, list) and len(got) == len(want), "%s: %r, expected %r", what, got, want)
        for g, w in zip(got, want):
            same_tree(g, w, what)
    else:
        check(got == want, "%s: %r, expected %r", what, got, want)


def raises(exc, f, what):
    try:
        f()
    except exc:
        return
    check(False, "%s raised no %s", what, exc.__name__)


@S.sub("merged", st.lists(st.dictionaries(st.sampled_from(KEYS), st.integers(0, 9), max_size=3), max_size=4), quick=150)
def merged(dicts, note):
    m = MergedDicts(*[dict(d) for d in dicts])
    want = {}
    for d in dicts:
        want.update(d)
    for x in [m, m.copy()]:
        check(set(x.keys()) == set(want), "keys %r, expected %r", x.keys(), want)
        for k in KEYS:
            check((k in x) == (k in want), "membership of %r", k)
            if k in want:
                check(x[k] == want[k], "[%r] = %r, expected %r", k, x[k], want[k])
            else:
                raises(KeyError, lambda: x[k], "missing key")
    note.nontrivial(len(dicts) > 1)
