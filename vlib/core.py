"""Property-based checking harness.

A check module (checks/cNN.py) registers sub-checks with

    S = Suite("C01", rule="...")
    @S.sub("name", strategy, quick=300, thorough=5000)
    def name(spec, note): ...

`strategy` is a Hypothesis strategy producing *plain JSON values* (the spec);
the function builds the real objects from it, exercises the code under test
and compares with an oracle, raising on disagreement.  It calls
note.hit("label") to classify the case and note.nontrivial() when the case is
non-trivial by the suite's rule.  Because a spec is plain JSON a shrunk
failure is written to a replay file and re-run without Hypothesis.

Outcome: exit 0 all held, exit 1 + VIOLATION line, exit 2 harness error.
"""
import collections
import hashlib
import json
import math
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.internal.conjecture.engine as _engine
_engine.MAX_SHRINKING_SECONDS = 40

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The harness itself is wrong: never a verdict on the code."""


class Note(object):
    __slots__ = ("labels", "nt")

    def __init__(self):
        self.labels = set()
        self.nt = False

    def hit(self, *labels):
        self.labels.update(labels)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


class Sub(object):
    def __init__(self, name, strategy, fn, quick, thorough):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough


class Suite(object):
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.subs = []

    def sub(self, name, strategy, quick=300, thorough=None):
        def deco(fn):
            self.subs.append(Sub(name, strategy, fn, quick,
                                 thorough or quick * 20))
            return fn
        return deco


def canon(spec):
    return json.dumps(spec, sort_keys=True, default=repr)


def derive_seed(pid, name):
    base = os.environ.get("VERIF_SEED", "1")
    h = hashlib.sha256(("%s/%s/%s" % (base, pid, name)).encode()).digest()
    return int.from_bytes(h[:8], "big")


CASE_CPU_S = 90.0


class Hang(BaseException):
    """One case used far more CPU than any legitimate case does."""


def _alarm(_s, _f):
    raise Hang("one case used more than %g s of CPU: taken as non-termination"
               % CASE_CPU_S)


def run_sub(pid, sub, tier, budget, shard=0):
    """Run one shard of a sub-check in this process; return a result dict."""
    n = sub.quick if tier == "quick" else sub.thorough // 4
    n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
    labels = collections.Counter()
    seen = set()
    stats = dict(evaluations=0, skipped_budget=0)
    samples = []
    fail = {}
    t0 = time.time()

    def one(spec):
        if fail.get("hang"):      # do not shrink a hang: each try costs minutes
            raise Hang("hang")
        if time.time() - t0 > budget and not fail:
            stats["skipped_budget"] += 1
            return
        key = canon(spec)
        spec = json.loads(key)    # the property sees exactly what is replayed
        note = Note()
        stats["evaluations"] += 1
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
            try:
                sub.fn(spec, note)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except (hypothesis.errors.UnsatisfiedAssumption,
                hypothesis.errors.StopTest, HarnessError,
                KeyboardInterrupt):
            raise
        except BaseException as exc:
            fail["spec"] = spec
            fail["error"] = "".join(traceback.format_exception_only(exc))[-3000:]
            fail["traceback"] = traceback.format_exc()[-6000:]
            if isinstance(exc, Hang):
                fail["hang"] = True
            raise
        for lab in note.labels:
            labels[lab] += 1
        if note.nt:
            h = hashlib.blake2b(key.encode(), digest_size=8).digest()
            if h not in seen:
                seen.add(h)
                m = len(seen)
                if (m in (1, 7) or m % 97 == 0) and len(samples) < 3 and len(key) < 3000:
                    samples.append(spec)

    signal.signal(signal.SIGVTALRM, _alarm)
    test = given(sub.strategy)(one)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(derive_seed(pid, sub.name if not shard else "%s#%d" % (sub.name, shard)))(test)
    res = dict(sub=sub.name, status="held")
    import contextlib
    import io
    quiet = io.StringIO()
    try:
        with contextlib.redirect_stderr(quiet):
            test()
    except HarnessError as exc:
        res.update(status="harness", error=traceback.format_exc())
    except (hypothesis.errors.FailedHealthCheck,
            hypothesis.errors.Unsatisfiable,
            hypothesis.errors.InvalidArgument) as exc:
        if fail:
            res["status"] = "violated"
        else:
            res.update(status="harness", error=traceback.format_exc())
    except BaseException as exc:
        if fail:
            res["status"] = "violated"
        else:
            res.update(status="harness", error=traceback.format_exc())
    if res["status"] == "violated" and fail.get("hang"):
        res["fail"] = dict(fail, reproduces_alone=None)
    elif res["status"] == "violated":
        res["fail"] = dict(fail)
        try:
            sub.fn(fail["spec"], Note())
            res["fail"]["reproduces_alone"] = False
        except BaseException:
            res["fail"]["reproduces_alone"] = True
    res.update(stats, requested=n, seen=seen, shard=shard,
               labels=dict(labels), samples=samples,
               wall_s=round(time.time() - t0, 3))
    return res


def merge_shards(name, parts):
    """one result per sub-check from those of its shards"""
    parts = sorted(parts, key=lambda r: r.get("shard", 0))
    bad = [r for s in ("violated", "harness", "stopped") for r in parts if r["status"] == s]
    res = dict(bad[0] if bad else parts[0], sub=name, shards=len(parts))
    for k in ("evaluations", "skipped_budget", "requested"):
        res[k] = sum(r.get(k, 0) for r in parts)
    seen, labels, samples = set(), collections.Counter(), []
    for r in parts:
        seen |= r.get("seen", set())
        labels.update(r.get("labels", {}))
        samples += r.get("samples", [])
    res.pop("seen", None)
    res.update(distinct_nontrivial=len(seen), labels=dict(labels), samples=samples[:3], wall_s=max(r.get("wall_s", 0) for r in parts))
    return res


def _child(pid, sub, shard, tier, budget, conn):
    try:
        work = tempfile.mkdtemp(prefix="w", dir=os.environ["VERIF_SCRATCH"])
        os.chdir(work)
        os.environ["TMPDIR"] = work
        tempfile.tempdir = work
        res = run_sub(pid, sub, tier, budget, shard)
    except BaseException:
        res = dict(sub=sub.name, shard=shard, status="harness", error=traceback.format_exc())
    try:
        conn.send(res)
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def save_replay(pid, res):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = res["fail"]
    h = hashlib.sha256(canon(f["spec"]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (pid, res["sub"], h))
    with open(path, "w") as fh:
        json.dump(dict(property=pid, sub=res["sub"], spec=f["spec"],
                       error=f["error"], traceback=f["traceback"],
                       reproduces_alone=f["reproduces_alone"],
                       seed=os.environ.get("VERIF_SEED")), fh, indent=1)
    return path


def load_known(pid):
    """known_findings.txt: 'known: property=C01 sub=<name> match=<substring> -- text'."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                out.append(line.strip())
    return out


def run(pid, mod, only=None):
    suite = mod.S
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    budget = 420.0 if tier == "quick" else 3600.0 * 2
    t0 = time.time()
    hard = 800.0 if tier == "quick" else 3600.0 * 6
    ctx = multiprocessing.get_context("fork")
    shards = int(os.environ.get("VERIF_SHARDS", "6" if tier == "quick" else "8"))
    pending = [(s, k) for k in range(shards) for s in suite.subs if only in (None, s.name)]
    if not pending:
        raise HarnessError("no sub-check named %r" % only)
    # biggest first, to balance the pool
    running, results = {}, []
    first_fail = None
    while pending or running:
        while pending and len(running) < jobs and first_fail is None:
            s, k = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(pid, s, k, tier, budget, b))
            p.start()
            b.close()
            running[s.name, k] = (p, a)
        if first_fail is not None:
            pending = []
        elif time.time() - t0 > (240.0 if tier == "quick" else 3600.0 * 2):
            # a slow machine: every sub-check has run once, further shards are left out
            pending = [x for x in pending if x[1] == 0]
        ready = multiprocessing.connection.wait(
            [c for _, c in running.values()], timeout=1.0)
        for name, (p, c) in list(running.items()):
            if c in ready:
                try:
                    res = c.recv()
                except EOFError:
                    res = dict(sub=name[0], shard=name[1], status="harness",
                               error="child process died")
                p.join()
                del running[name]
                results.append(res)
                if res["status"] == "violated" and first_fail is None:
                    first_fail = time.time()
        now = time.time()
        if running and ((first_fail and now - first_fail > 45) or
                        now - t0 > hard):
            for name, (p, c) in running.items():
                p.kill()
                p.join()
                results.append(dict(sub=name[0], shard=name[1], status="stopped",
                                    error="stopped: time"))
            running = {}
            if not first_fail:
                break
    order = [s.name for s in suite.subs]
    results = [merge_shards(n, [r for r in results if r["sub"] == n])
               for n in order if any(r["sub"] == n for r in results)]
    violated = [r for r in results if r["status"] == "violated"]
    broken = [r for r in results if r["status"] in ("harness",)]
    stopped = [r for r in results if r["status"] == "stopped"]

    for line in load_known(pid):
        print("KNOWN-FINDING: " + line[len("known: "):])
    for r in results:
        print("  %-28s %-9s eval=%-6s nontrivial=%-6s %6.1fs" % (
            r["sub"], r["status"], r.get("evaluations", "-"),
            r.get("distinct_nontrivial", "-"), r.get("wall_s", 0)))
        if r["status"] == "harness":
            print(r["error"])
    for r in violated:
        path = save_replay(pid, r)
        print("  failing case of %s: %s" % (r["sub"], canon(r["fail"]["spec"])[:1500]))
        print("  " + r["fail"]["error"].strip().replace("\n", "\n  ")[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))

    samples = []
    for r in results:
        for s in r.get("samples", [])[:2]:
            samples.append(dict(sub=r["sub"], case=s))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(r.get("evaluations", 0) for r in results),
                  distinct_nontrivial=sum(r.get("distinct_nontrivial", 0)
                                          for r in results),
                  rule=suite.rule, samples=samples,
                  per_subcheck=[{k: r.get(k) for k in (
                      "sub", "status", "shards", "requested", "evaluations",
                      "skipped_budget", "distinct_nontrivial", "labels",
                      "wall_s")} for r in results]),
              assumptions=suite.assumptions,
              wall_s=round(time.time() - t0, 3), violations=len(violated))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))
    if violated:
        return 1
    if broken or stopped:
        return 2
    return 0


def replay(pid, mod, path):
    d = json.load(open(os.path.join(os.environ.get("VERIF_CWD", ""), path)))
    for s in mod.S.subs:
        if s.name == d["sub"]:
            try:
                s.fn(d["spec"], Note())
            except BaseException:
                traceback.print_exc()
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            print("replay: the case passes")
            return 0
    print("no such sub-check")
    return 2
