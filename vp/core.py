"""Search driver: generated cases -> check -> shrink -> replay file + evidence.

A property module defines PROP = Property(...) with Sub-checks.  A Sub has a Hypothesis strategy yielding a JSON-able
dict (the case) and a check(case) which calls the code under test and raises Violated when the oracle disagrees.
Everything random comes from Hypothesis, seeded from VERIF_SEED."""
import argparse
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_CPU_S = 90.0          # CPU seconds one case may burn before it counts as non-terminating
# how many times the registered number of cases the quick tier runs (cheap properties afford more; about 40 s each)
BOOST = {"C01": 3, "C03": 2, "C04": 3, "C05": 4, "C06": 5, "C07": 5, "C08": 5, "C09": 3, "C10": 2, "C11": 1.5, "C12": 3, "C13": 2, "C15": 1.4, "C16": 1.5,
         "C18": 2, "C21": 2, "C22": 3, "C23": 2.5, "C25": 1.3, "C27": 6, "C28": 3, "C29": 3, "C30": 4, "C31": 1.5, "C32": 4, "C33": 1.5}
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violated(Exception):
    """The oracle disagrees with the code on this case."""


class Known(Exception):
    """The case shows a defect listed in known_findings.txt (key)."""

    def __init__(self, key, what):
        super().__init__(what)
        self.key, self.what = key, what


class Hang(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, corpus=(), history=0.25, shards=8):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 12
        self.corpus = list(corpus)
        self.history = history
        self.shards = shards


class Property:
    def __init__(self, id, rule, subs, assumptions=()):
        self.id, self.rule, self.subs, self.assumptions = id, rule, subs, list(assumptions)


# ------------------------------------------------------------------------------------------------ environment
def setup_import():
    if HYP not in sys.path:
        sys.path.append(HYP)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import spafe
    f = os.path.abspath(spafe.__file__)
    if not f.startswith(REPO + os.sep):
        raise RuntimeError("spafe imported from %s, expected under %s" % (f, REPO))
    import hypothesis  # noqa: F401
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = 20


_in_call = 0


def call(fn, *a, **k):
    """Call the code under test on input that is valid: it has to return."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k)
    except Hang:
        raise Violated("%s did not terminate within %.0f s of CPU time" % (getattr(fn, "__name__", fn), CASE_CPU_S))
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = ["%s:%d" % (os.path.relpath(x.filename, REPO), x.lineno) for x in tb if x.filename.startswith(REPO)]
        raise Violated("%s raised %s: %s (at %s)" % (getattr(fn, "__name__", fn), type(e).__name__, e,
                                                     at[-1] if at else "?"))


def fail(msg):
    raise Violated(msg)


# ------------------------------------------------------------------------------------------------ one case
def _alarm(signum, frame):
    raise Hang()


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_case(sub, case):
    """Runs a case (with its history prefix).  Returns info dict."""
    pre = case.get("before") or []
    info = None
    for c in list(pre) + [{k: v for k, v in case.items() if k != "before"}]:
        try:
            info = sub.check(c) or {}
        except (Violated, Known, MemoryError):
            raise
        except Exception as e:
            # The checks are exercised on the unchanged tree without ever getting here; a result they cannot even take
            # apart (wrong type, wrong number of values, not indexable ...) is not what the property promises.
            if type(e).__module__.startswith("hypothesis"):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            raise Violated("the result cannot be interpreted: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
    return info


@contextlib.contextmanager
def cpu_guard():
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def with_history(sub):
    """Adds to some cases a 'before' list: near copies of the case that are checked before it in the same process, so
    that results leaking from one call into the next (caches with incomplete keys, module state) become visible."""
    from hypothesis import strategies as st
    base = sub.strategy()

    @st.composite
    def strat(draw):
        c = draw(base)
        if sub.history and draw(st.integers(0, 99)) < sub.history * 100:
            d = draw(base)
            keys = sorted(k for k in c if k in d and c[k] != d[k])
            if keys:
                mode = draw(st.integers(0, 3))
                if mode == 0:
                    take = [draw(st.sampled_from(keys))]
                elif mode == 1:
                    take = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=4, unique=True))
                elif mode == 2:
                    take = [k for k in keys if k in ("sig", "x", "seed")] or [draw(st.sampled_from(keys))]
                else:
                    take = keys
                p = dict(c)
                for k in take:
                    p[k] = d[k]
                c = dict(c)
                c["before"] = [p]
        return c
    return strat()


# ------------------------------------------------------------------------------------------------ one task (process)
class TaskState:
    def __init__(self):
        self.evals = 0
        self.seen = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.known = {}
        self.skipped = 0
        self.failing = None
        self.sequence = []
        self.fail_seq = None


def execute(sub, case, stt, deadline):
    from hypothesis.errors import StopTest, UnsatisfiedAssumption
    if deadline and time.process_time() > deadline:
        stt.skipped += 1
        return
    stt.evals += 1
    if stt.failing is None:
        stt.sequence.append(case)
    h = digest(case)
    t0 = time.process_time()
    try:
        with cpu_guard():
            info = run_case(sub, case)
        if os.environ.get("VP_TIMES") and time.process_time() - t0 > float(os.environ["VP_TIMES"]):
            print("      slow", round(time.process_time() - t0, 2), json.dumps(case), file=sys.stderr)
    except Known as k:
        stt.known.setdefault(k.key, k.what)
        info = {"nt": True, "labels": ["known:" + k.key]}
    except Violated as v:
        if stt.failing is None:
            stt.fail_seq = list(stt.sequence)
        stt.failing = (case, str(v))
        raise
    except Hang:
        v = Violated("case did not finish within %.0f s of CPU time" % CASE_CPU_S)
        if stt.failing is None:
            stt.fail_seq = list(stt.sequence)
        stt.failing = (case, str(v))
        raise v
    if h not in stt.seen:
        stt.seen.add(h)
        if info.get("nt"):
            stt.nontrivial.add(h)
            if len(stt.samples) < 2 and len(json.dumps(case)) < 1500:
                stt.samples.append({"sub": sub.name, "case": case})
        for l in info.get("labels", ()):
            stt.labels[l] = stt.labels.get(l, 0) + 1


def task_main(prop, sub, shard, nshards, n, seed, deadline):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from . import gen
    stt = TaskState()
    t0 = time.time()
    status, msg = "ok", ""
    gen.SALT = shard + 8 * seed
    try:
        for i, c in enumerate(sub.corpus):
            if i % nshards == shard:
                execute(sub, c, stt, None)
        per = n // nshards + (1 if shard < n % nshards else 0)
        if per > 0:
            sd = int(hashlib.sha1(("%d/%s/%s/%d" % (seed, prop.id, sub.name, shard)).encode()).hexdigest()[:12], 16)

            @hypothesis.seed(sd)
            @settings(max_examples=per, database=None, deadline=None, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      phases=(Phase.generate, Phase.shrink))
            @hypothesis.given(with_history(sub))
            def test(case):
                execute(sub, case, stt, deadline)
            test()
    except Violated:
        status, msg = "violated", stt.failing[1]
    except hypothesis.errors.Flaky:
        status, msg = "flaky", stt.failing[1] if stt.failing else "flaky"
    except BaseException as e:
        if stt.failing is not None and "Violated" in repr(e) + repr(getattr(e, "exceptions", "")):
            status, msg = "flaky", stt.failing[1]
        else:
            status, msg = "error", traceback.format_exc()
    out = {"sub": sub.name, "shard": shard, "status": status, "msg": msg, "evals": stt.evals,
           "nontrivial": sorted(stt.nontrivial), "distinct": len(stt.seen), "labels": stt.labels,
           "samples": stt.samples, "known": stt.known, "skipped": stt.skipped, "wall": time.time() - t0,
           "cpu": time.process_time()}
    if os.environ.get("VP_TIMES"):
        print("   ", sub.name, shard, round(out["wall"], 1), round(out["cpu"], 1), stt.evals, file=sys.stderr)
    if status in ("violated", "flaky"):
        cases = [stt.failing[0]]
        if not reproduces(sub, cases):
            cases = minimise_sequence(sub, stt.fail_seq, stt.failing[0])
        out["cases"] = cases
        m = fresh_try(sub, cases)
        out["reproduced"] = bool(m)
        if m:
            out["msg"] = m
        out["status"] = "violated"
    return out


def _try(sub, cases):
    try:
        with cpu_guard():
            for c in cases:
                try:
                    run_case(sub, c)
                except Known:
                    pass
    except Violated as v:
        return str(v)
    except Hang:
        return "did not terminate"
    return ""


def forked(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps((True, fn()))
        except BaseException:
            data = pickle.dumps((False, traceback.format_exc()))
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "child died")


def reproduces(sub, cases):
    """Does the failure show in a process that has not run any case before?  (Forked from one that has imported the
    code but - because every task is forked from the clean parent - may hold state; so use the fresh server.)"""
    return bool(fresh_try(sub, cases))


def fresh_try(sub, cases):
    if FRESH is not None:
        return FRESH(sub.name, cases)
    ok, m = forked(lambda: _try(sub, cases))
    return m if ok else ""


FRESH = None


def minimise_sequence(sub, seq, last):
    """The failing case alone passes in a fresh process: find a short history that makes it fail."""
    seq = seq[-400:]
    t0 = time.time()
    for cand in ([seq[-1]], seq[-2:], seq[-8:], seq[-40:], seq):
        if reproduces(sub, cand):
            best = list(cand)
            break
    else:
        return [last]
    n = 2
    while len(best) > 1 and time.time() - t0 < 60:
        size = max(1, (len(best) - 1) // n)
        for i in range(0, len(best) - 1, size):
            cand = best[:i] + best[min(i + size, len(best) - 1):]
            if reproduces(sub, cand):
                best = cand
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(best), n * 2)
    return best


# ------------------------------------------------------------------------------------------------ known findings
def load_known(pid):
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    k, _, what = rest[4:].partition(" ")
                    keys[k] = what
    return keys


# ------------------------------------------------------------------------------------------------ main
def load_prop(pid):
    return importlib.import_module("vp.props." + pid.lower()).PROP


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--n", type=int)
    ap.add_argument("--serial", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    setup_import()
    prop = load_prop(a.prop)
    known = load_known(prop.id)
    if a.replay:
        return replay(prop, a.replay)
    budget = 420.0 if a.tier == "quick" else 5400.0       # CPU seconds per task before it stops generating
    soft_wall = 240.0 if a.tier == "quick" else 5000.0
    tasks = []
    for s in prop.subs:
        if a.sub and s.name != a.sub:
            continue
        n = a.n if a.n is not None else (int(s.quick * BOOST.get(prop.id, 1)) if a.tier == "quick" else s.thorough)
        nsh = max(1, min(s.shards, max(n // 4, 1)))
        for sh in range(nsh):
            tasks.append((s, sh, nsh, n))
    tasks.sort(key=lambda t: t[1])
    results, viol = run_tasks(prop, tasks, seed, budget, soft_wall)
    return report(prop, a.tier, seed, results, viol, known, time.time() - t0)


def run_tasks(prop, tasks, seed, budget, soft_wall):
    """Forks one process per task, NPROC at a time; stops early on the first violation."""
    pending = list(tasks)
    running = {}
    results, viol = [], None
    t0 = time.time()
    pend_wall = False
    while pending or running:
        while pending and len(running) < NPROC and viol is None:
            if time.time() - t0 > soft_wall:
                pend_wall = True
                pending = []
                break
            s, sh, nsh, n = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    global FRESH
                    FRESH = Server(prop)
                    res = task_main(prop, s, sh, nsh, n, seed, budget)
                except BaseException:
                    res = {"sub": s.name, "shard": sh, "status": "error", "msg": traceback.format_exc(), "evals": 0,
                           "nontrivial": [], "distinct": 0, "labels": {}, "samples": [], "known": {}, "skipped": 0,
                           "wall": 0, "cpu": 0}
                if FRESH is not None:
                    FRESH.close()
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(res))
                os._exit(0)
            os.close(w)
            running[r] = (pid, s, sh, b"")
        if viol is not None and not running:
            break
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 5)
        for r in rd:
            pid, s, sh, buf = running[r]
            d = os.read(r, 1 << 20)
            if d:
                running[r] = (pid, s, sh, buf + d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            if buf:
                res = pickle.loads(buf)
            else:
                res = {"sub": s.name, "shard": sh, "status": "error", "msg": "worker died (out of memory?)",
                       "evals": 0, "nontrivial": [], "distinct": 0, "labels": {}, "samples": [], "known": {},
                       "skipped": 0, "wall": 0, "cpu": 0}
            results.append(res)
            if res["status"] == "violated" and viol is None:
                viol = res
                for r2, (p2, *_rest) in list(running.items()):
                    with contextlib.suppress(ProcessLookupError):
                        os.killpg(p2, signal.SIGKILL)
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(p2, signal.SIGKILL)
                    os.close(r2)
                    os.waitpid(p2, 0)
                running = {}
                pending = []
                break
    if pend_wall:
        print("note: wall budget reached, remaining shards not started")
    return results, viol


class Server:
    """Forked before the task runs any case; answers 'do these cases fail from a clean state?'."""

    def __init__(self, prop):
        import multiprocessing as mp
        self.a, b = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            self.a.close()
            subs = {s.name: s for s in prop.subs}
            while True:
                try:
                    m = b.recv()
                except EOFError:
                    os._exit(0)
                if m is None:
                    os._exit(0)
                name, cases = m
                ok, r = forked(lambda: _try(subs[name], cases))
                b.send(r if ok else "")
        b.close()

    def __call__(self, name, cases):
        self.a.send((name, cases))
        return self.a.recv()

    def close(self):
        with contextlib.suppress(Exception):
            self.a.send(None)
            self.a.close()
            os.waitpid(self.pid, 0)


def write_replay(prop, res):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop.id, "sub": res["sub"], "cases": res["cases"], "message": res["msg"],
            "reproduced_in_fresh_process": res.get("reproduced")}
    name = "%s-%s-%s.json" % (prop.id, res["sub"], digest(res["cases"] and {"c": res["cases"]})[:10])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        json.dump(body, f, indent=1)
    return p


def replay(prop, path):
    b = json.load(open(path))
    subs = {s.name: s for s in prop.subs}
    m = _try(subs[b["sub"]], b["cases"])
    if m:
        print("replay %s: %s" % (path, m))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("replay passes")
    return 0


def report(prop, tier, seed, results, viol, known, wall):
    errors = [r for r in results if r["status"] == "error"]
    nt, evals, labels, samples, kn, skipped = set(), 0, {}, [], {}, 0
    persub = {}
    for r in sorted(results, key=lambda r: (r["sub"], r["shard"])):
        nt.update((r["sub"], h) for h in r["nontrivial"])
        evals += r["evals"]
        skipped += r["skipped"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        ps = persub.setdefault(r["sub"], {"evaluations": 0, "distinct": 0, "nontrivial": 0, "cpu_s": 0.0})
        ps["evaluations"] += r["evals"]
        ps["distinct"] += r["distinct"]
        ps["nontrivial"] += len(r["nontrivial"])
        ps["cpu_s"] = round(ps["cpu_s"] + r["cpu"], 1)
        if sum(1 for s in samples if s["sub"] == r["sub"]) < 2:
            samples += r["samples"][:1]
        kn.update(r["known"])
    unlisted = {k: w for k, w in kn.items() if k not in known}
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nt), "rule": prop.rule,
                       "samples": samples[:12], "per_subcheck": persub,
                       "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:80]),
                       "cases_skipped_for_time": skipped},
          "assumptions": prop.assumptions, "wall_s": round(wall, 2),
          "violations": 1 if (viol or unlisted) else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop.id + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop.id + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (prop.id, tier, seed, evals, len(nt), wall))
    for k in sorted(kn):
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, kn[k]))
    if viol is not None:
        p = write_replay(prop, viol)
        print("sub-check %s: %s" % (viol["sub"], viol["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop.id, p))
        return 1
    if unlisted:
        k = sorted(unlisted)[0]
        res = {"sub": "known", "cases": [], "msg": "unlisted finding %s: %s" % (k, unlisted[k])}
        p = write_replay(prop, res)
        print("VIOLATION property=%s replay=%s" % (prop.id, p))
        return 1
    if errors:
        for r in errors[:2]:
            print("ERROR in %s/%d: %s" % (r["sub"], r["shard"], r["msg"]), file=sys.stderr)
        return 2
    return 0
