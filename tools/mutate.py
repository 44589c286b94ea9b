"""Mutation campaign: which small source changes survive the repository's tests and the checks?

python3 tools/mutate.py FILE[,FILE] N SEED OUT.jsonl [WORKERS]   (works only in scratch copies under /tmp/mut)
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "hftools/"
CHECKS = {H + "dataset/arrayobj.py": "C01 C02 C03 C04 C06", H + "dataset/dim.py": "C05 C02 C08", H + "dataset/dataset.py": "C07 C08 C09 C10 C11", H + "dataset/helper.py": "C08 C11",
          H + "dataset/comments.py": "C21", H + "file_formats/touchstone.py": "C12 C13 C19", H + "file_formats/citi.py": "C14 C19", H + "file_formats/spdata.py": "C15 C19",
          H + "file_formats/readbase.py": "C12 C14 C15 C16 C19", H + "file_formats/merge.py": "C15 C16 C19", H + "file_formats/common.py": "C21 C15 C14 C19", H + "file_formats/mdif.py": "C16 C19",
          H + "file_formats/hdf5/v_01.py": "C17", H + "file_formats/hdf5/v_02.py": "C17 C18", H + "file_formats/hdf5/helper.py": "C17 C18", H + "file_formats/hdf5/__init__.py": "C17 C18",
          H + "file_formats/__init__.py": "C19", H + "file_formats/config.py": "C22", H + "networks/multiports.py": "C23 C24", H + "networks/spar_functions.py": "C24 C25 C27",
          H + "networks/noise.py": "C26 C25", H + "math.py": "C25 C28 C24", H + "plotting/helper.py": "C30 C32", H + "plotting/smith.py": "C31", H + "constants/si_units.py": "C29 C32",
          H + "constants/waveguide.py": "C34", H + "constants/constant_values.py": "C34 C26", H + "utils.py": "C33 C19"}


def mutants(src):
    """(start offset, end offset, replacement, what)"""
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode("utf-8")))
    b = src.encode("utf-8")

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode("utf-8")
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(n.value)
    CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"]}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                if "(" in b[l:r].decode() or ")" in b[l:r].decode():
                    continue
                out.append((l, r, " %s " % o, "compare"))
        elif isinstance(n, ast.BinOp):
            l, r = span(n.left)[1], span(n.right)[0]
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            mid = b[l:r].decode()
            if "(" in mid or ")" in mid:
                continue
            for o in BIN.get(type(n.op), []):
                out.append((l, r, " %s " % o, "arith"))
        elif isinstance(n, ast.BoolOp):
            op = " and " if isinstance(n.op, ast.Or) else " or "
            for x, y in zip(n.values, n.values[1:]):
                l, r = span(x)[1], span(y)[0]
                mid = b[l:r].decode()
                if "(" in mid or ")" in mid or "#" in mid:
                    continue
                out.append((l, r, op, "bool"))
            s, e = span(n)
            out.append((s, e, text(n.values[0]), "drop operand"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            s, e = span(n)
            out.append((s, e, text(n.operand), "drop unary"))
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.Constant)):
            s, e = span(n.test)
            out.append((s, e, "(not (%s))" % text(n.test), "negate"))
        elif isinstance(n, ast.Constant) and n not in docs:
            s, e = span(n)
            v = n.value
            if v is True or v is False:
                out.append((s, e, str(not v), "const"))
            elif isinstance(v, int):
                out.append((s, e, str(v + 1), "const"))
                if v:
                    out.append((s, e, str(v - 1), "const"))
            elif isinstance(v, float):
                out.append((s, e, repr(v * 1.5 + 0.1), "const"))
            elif isinstance(v, str) and 0 < len(v) < 12 and b[s:s + 1] not in (b"f",):
                out.append((s, e, repr(v[:-1]), "string"))
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    ks, ke = span(k)
                    # remove with one comma
                    t = b[ke:].lstrip()
                    if t[:1] == b",":
                        out.append((ks, ke + len(b[ke:]) - len(t) + 1, "", "drop keyword"))
                    else:
                        pre = b[:ks].rstrip()
                        if pre.endswith(b","):
                            out.append((len(pre) - 1, ke, "", "drop keyword"))
                        else:
                            out.append((ks, ke, "", "drop keyword"))
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
                s, e = span(n)
                out.append((s, e, text(n.func.value), "drop call"))
            if len(n.args) == 2 and not n.keywords:
                (s1, e1), (s2, e2) = span(n.args[0]), span(n.args[1])
                out.append((s1, e2, text(n.args[1]) + ", " + text(n.args[0]), "swap args"))
            if len(n.args) == 1 and isinstance(n.func, ast.Name):
                s, e = span(n)
                out.append((s, e, "(%s)" % text(n.args[0]), "drop call"))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            s, e = span(n)
            out.append((s, e, "pass", "delete statement"))
        elif isinstance(n, (ast.Continue, ast.Break)):
            s, e = span(n)
            out.append((s, e, "pass", "delete jump"))
        elif isinstance(n, ast.Raise):
            s, e = span(n)
            out.append((s, e, "pass", "delete raise"))
        elif isinstance(n, ast.IfExp):
            s, e = span(n)
            out.append((s, e, "(%s)" % text(n.body), "ifexp"))
            out.append((s, e, "(%s)" % text(n.orelse), "ifexp"))
        elif isinstance(n, ast.Slice):
            pass
    return b, out


def read(p):
    return open(p, encoding="latin-1").read()


def worker(wid, q, out, lock, testmap, base):
    w = "/tmp/mut/w%d" % wid
    if not os.path.isdir(w):
        os.makedirs("/tmp/mut", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", w])
    else:
        subprocess.check_call("rsync -a --delete --exclude .git /repo/ %s/ 2>/dev/null || (rm -rf %s && cp -a /repo %s)" % (w, w, w), shell=True)
    ts = open("/opt/vp/test.sh").read().replace("/repo", w).replace("/opt/vp/work", w + ".work").replace("export HOME", "export PYTHONPATH=%s HOME" % w)
    open(w + ".test.sh", "w").write(ts)
    here = w + ".verif"   # a copy of the checks per worker: evidence and replays stay out of /verif
    shutil.rmtree(here, ignore_errors=True)
    shutil.copytree(HERE, here, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ, HFTOOLS_ROOT=w, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1")
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        fn = os.path.join(w, m["file"])
        orig = open(os.path.join("/tmp/mut/base", m["file"]), "rb").read()
        b = orig.decode("latin-1").encode("utf-8")
        new = b[:m["s"]] + m["r"].encode("utf-8") + b[m["e"]:]
        newsrc = new.decode("utf-8")
        res = None
        try:
            compile(newsrc, fn, "exec")
        except Exception:
            res = "syntax"
        if res is None:
            with open(fn, "wb") as fh:
                fh.write(newsrc.encode("latin-1"))
            try:
                # quick gate: the package imports
                p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", "import hftools.file_formats, hftools.networks.multiports, hftools.math, hftools.plotting"], cwd=w,
                                   env=dict(env, PYTHONPATH=w, MPLBACKEND="Agg"), capture_output=True, timeout=120)
                if p.returncode:
                    res = "import"
                else:
                    caught = None
                    for c in CHECKS[m["file"]].split():
                        try:
                            p = subprocess.run(["./run_check.sh", c, "quick"], cwd=here, env=env, capture_output=True, timeout=600, text=True)
                        except subprocess.TimeoutExpired:
                            caught = c + ":timeout"
                            break
                        if p.returncode == 1 and "VIOLATION" in p.stdout:
                            caught = c
                            break
                        if p.returncode not in (0, 1):
                            caught = c + ":rc%d" % p.returncode
                            break
                    if caught:
                        res = "caught " + caught
                    else:
                        try:
                            subprocess.run(["bash", w + ".test.sh", w + ".json"], capture_output=True, timeout=400)
                            passed = set(json.load(open(w + ".json"))["passed"])
                            res = "SURVIVED" if stable <= passed else "tests"
                        except Exception as e:
                            res = "tests (%s)" % type(e).__name__
            finally:
                with open(fn, "wb") as fh:
                    fh.write(orig)
        line = b[:m["s"]].count(b"\n") + 1
        rec = dict(file=m["file"], line=line, what=m["what"], old=b[m["s"]:m["e"]].decode("utf-8"), new=m["r"], res=res, ctx=b.split(b"\n")[line - 1].decode("utf-8").strip())
        with lock:
            out.write(json.dumps(rec) + "\n")
            out.flush()


def main():
    files, n, seed, outfn = sys.argv[1].split(","), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    nw = int(sys.argv[5]) if len(sys.argv) > 5 else 8
    shutil.rmtree("/tmp/mut/base", ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", "/tmp/mut/base"])
    rng = random.Random(seed)
    todo = []
    for f in files:
        src = read(os.path.join("/tmp/mut/base", f))
        _, ms = mutants(src)
        ms = [dict(file=f, s=s, e=e, r=r, what=w) for s, e, r, w in ms]
        rng.shuffle(ms)
        todo.extend(ms[:n] if n else ms)
        print(f, len(ms), "mutants", min(n, len(ms)) if n else len(ms), "taken")
    rng.shuffle(todo)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    with open(outfn, "a") as out:
        th = [threading.Thread(target=worker, args=(i, q, out, lock, None, None)) for i in range(nw)]
        [t.start() for t in th]
        [t.join() for t in th]


main()
