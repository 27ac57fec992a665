"""Exploration driver.

A property module (mc/props/cNN.py) provides

    ID, TITLE
    def cases(tier): yields (family, case)     -- case is JSON-able
    def run(case, ctx): explores the case      -- may enumerate a whole block

`run` executes the real library code from the working tree, compares with the
reference models and calls ctx.fail(...) on a disagreement.  The driver spreads
the cases over forked worker processes, stops at the first violation, writes
the evidence file and a replay file, and sets the exit code.

No random choice is made anywhere: the space of a tier is a fixed, completely
enumerated set, so VERIF_SEED only appears in the evidence.
"""
import collections
import contextlib
import importlib
import io
import json
import os
import signal
import sys
import time
import traceback
import warnings

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_LIMIT = 240          # seconds for one case; normal cases take < 20 s
DEADLINE = {"quick": 640, "thorough": 3000}


class Violation(Exception):
    def __init__(self, msg, witness=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.witness = witness


class CaseTimeout(BaseException):
    pass


class Ctx(object):
    """Counters of one case (or of the whole run, when merged)."""

    def __init__(self):
        self.states = 0        # distinct configurations enumerated
        self.transitions = 0   # comparisons against the reference model
        self.traces = 0        # executions of the real code
        self.tags = collections.Counter()
        self.samples = []

    def state(self, n=1):
        self.states += n

    def step(self, n=1):
        self.transitions += n

    def tag(self, name, n=1):
        self.tags[name] += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, msg, witness=None):
        raise Violation(msg, witness)

    def check(self, cond, msg, witness=None):
        self.transitions += 1
        if not cond:
            raise Violation(msg, witness)

    def equal(self, got, want, msg, witness=None):
        self.transitions += 1
        if got != want:
            raise Violation("%s: got %r, expected %r" % (msg, got, want),
                            witness)

    def call(self, what, f, *a, **k):
        """Run library code on a valid input: any exception is a violation."""
        self.traces += 1
        try:
            return f(*a, **k)
        except (CaseTimeout, KeyboardInterrupt, Violation):
            raise
        except BaseException as e:
            where = ""
            for fr in traceback.extract_tb(sys.exc_info()[2]):
                if "permaviss" in fr.filename:
                    where = "%s:%d" % (os.path.basename(fr.filename),
                                       fr.lineno)
            raise Violation("%s raised %s(%s) at %s on a valid input" % (
                what, type(e).__name__, str(e)[:200], where))

    def merge(self, d):
        self.states += d["states"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        self.tags.update(d["tags"])

    def dump(self):
        return dict(states=self.states, transitions=self.transitions,
                    traces=self.traces, tags=dict(self.tags),
                    samples=self.samples)


# --------------------------------------------------------------------------
# library under test

def load_library():
    """Import permaviss from the working tree, with the process pool seam."""
    from . import pool
    pool.install()
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    warnings.filterwarnings("ignore")
    import permaviss
    got = os.path.realpath(os.path.dirname(permaviss.__file__))
    want = os.path.realpath(os.path.join(src, "permaviss"))
    if got != want:
        raise RuntimeError("imported permaviss from %s" % got)
    return permaviss


# --------------------------------------------------------------------------
# workers

def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, case):
    """Returns (counters, None | violation dict)."""
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    bad = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.run(case, ctx)
    except Violation as v:
        bad = dict(message=v.msg, witness=v.witness)
    except CaseTimeout:
        bad = dict(message="no answer within %d s (cases of this family take "
                           "a few seconds)" % CASE_LIMIT, witness=None)
    except Exception as e:
        # a result of the wrong shape or type that the oracle could not read
        bad = dict(message="result could not be interpreted: %s: %s" % (
            type(e).__name__, str(e)[:300]), witness=None,
            traceback=traceback.format_exc())
    finally:
        signal.alarm(0)
    return ctx.dump(), bad


def _worker(mod, conn):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    while True:
        try:
            job = conn.recv()
        except EOFError:
            os._exit(0)
        if job is None:
            os._exit(0)
        out = []
        for idx, fam, case in job:
            counters, bad = run_case(mod, case)
            out.append((idx, fam, counters, bad))
            if bad:
                break
        conn.send(out)


def explore(mod, tier, jobs=None, families=None):
    """Run every case; returns a summary dict."""
    import multiprocessing.connection as mpc
    from multiprocessing import Pipe
    jobs = jobs or min(8, os.cpu_count() or 1)
    t0 = time.time()
    todo = [(i, f, c) for i, (f, c) in enumerate(mod.cases(tier))
            if families is None or f in families]
    total = len(todo)
    chunk = getattr(mod, "CHUNK", 1)
    queue = collections.deque()
    for k in range(0, total, chunk):
        queue.append(todo[k:k + chunk])
    lookup = {i: (f, c) for i, f, c in todo}
    ctx = Ctx()
    fam_stats = collections.OrderedDict()
    samples = []
    violation = None
    done = 0
    complete = True
    workers = {}

    def spawn():
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for c in list(workers):
                    c.close()
                _worker(mod, b)
            finally:
                os._exit(3)
        b.close()
        workers[a] = [pid, None, 0.0]
        return a

    def give(conn):
        if queue:
            job = queue.popleft()
            workers[conn][1] = job
            workers[conn][2] = time.time()
            conn.send(job)
        else:
            workers[conn][1] = None

    try:
        for _ in range(min(jobs, max(1, len(queue)))):
            spawn()
        for c in list(workers):
            give(c)
        while any(w[1] is not None for w in workers.values()):
            busy = [c for c, w in workers.items() if w[1] is not None]
            ready = mpc.wait(busy, timeout=5)
            now = time.time()
            for c in busy:
                pid, job, t = workers[c]
                if c not in ready:
                    if now - t > (CASE_LIMIT + 60) * max(1, len(job)):
                        violation = (job[0][0], dict(
                            message="worker stuck", witness=None))
                    continue
                try:
                    out = c.recv()
                except (EOFError, OSError):
                    violation = (job[0][0], dict(
                        message="the process died while exploring this case",
                        witness=None))
                    break
                for idx, fam, counters, bad in out:
                    done += 1
                    ctx.merge(counters)
                    st = fam_stats.setdefault(
                        fam, dict(cases=0, states=0, executions=0))
                    st["cases"] += 1
                    st["states"] += counters["states"]
                    st["executions"] += counters["traces"]
                    if len(samples) < 12 and (
                            sum(1 for s in samples if s["family"] == fam) < 1):
                        for s in counters["samples"][:1]:
                            samples.append(dict(family=fam, case=s))
                    if bad and violation is None:
                        violation = (idx, bad)
                if violation:
                    break
                give(c)
            if violation:
                break
            if now - t0 > DEADLINE[tier] and queue:
                complete = False
                queue.clear()
    finally:
        for c, (pid, _, _) in workers.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            with contextlib.suppress(OSError):
                os.waitpid(pid, 0)
            c.close()
    return dict(ctx=ctx, families=fam_stats, samples=samples,
                violation=violation, lookup=lookup, total=total, done=done,
                complete=complete and violation is None,
                wall=time.time() - t0)


# --------------------------------------------------------------------------
# entry point

def known_findings(pid):
    """Entries 'known: property=<id> family=<f> case=<json> -- text'."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property=%s " % pid):
                    out.append(line[len("known: "):].strip())
    return out


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--family", action="append")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        load_library()
        mod = importlib.import_module("mc.props.%s" % pid.lower())
    except Exception:
        tb = traceback.format_exc()
        if "permaviss" not in tb:
            raise
        path = write_replay(pid, a.tier, "import", None, dict(
            message="the library cannot be imported", traceback=tb))
        write_evidence(pid, a.tier, seed, dict(
            states=0, transitions=0, traces_validated_against_impl=0,
            samples=["import"], exhaustive=False), time.time() - t0, 1, [])
        print(tb)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if a.replay:
        rec = json.load(open(a.replay))
        counters, bad = run_case(mod, rec["case"])
        print(json.dumps(bad, indent=1) if bad else "no violation")
        return 1 if bad else 0
    for line in known_findings(pid):
        print("KNOWN-FINDING: %s" % line)
    res = explore(mod, a.tier, a.jobs, a.family)
    ctx = res["ctx"]
    cov = dict(states=ctx.states, transitions=ctx.transitions,
               traces_validated_against_impl=ctx.traces,
               samples=res["samples"] or ["(none)"],
               exhaustive=bool(res["complete"] and not a.family),
               cases_total=res["total"], cases_done=res["done"],
               families=res["families"], observed=dict(ctx.tags),
               meaning="states: distinct configurations enumerated; "
                       "transitions: comparisons with the reference model; "
                       "traces_validated_against_impl: executions of the "
                       "real code that were compared")
    need = getattr(mod, "NEED", {}).get(a.tier, {})
    missing = {k: v for k, v in need.items() if ctx.tags.get(k, 0) < v}
    if missing:
        cov["vacuity_warning"] = missing
    viol = 1 if res["violation"] else 0
    write_evidence(pid, a.tier, seed, cov, time.time() - t0, viol,
                   getattr(mod, "ASSUMPTIONS", []))
    print("property=%s tier=%s cases=%d/%d states=%d transitions=%d "
          "executions=%d exhaustive=%s wall=%.1fs" % (
              pid, a.tier, res["done"], res["total"], ctx.states,
              ctx.transitions, ctx.traces, cov["exhaustive"],
              time.time() - t0))
    print("families: " + ", ".join("%s:%d" % (f, s["states"])
                                   for f, s in res["families"].items()))
    print("observed: " + json.dumps(dict(sorted(ctx.tags.items()))))
    if missing:
        print("note: fewer than expected: %r" % missing)
    if viol:
        idx, bad = res["violation"]
        fam, case = res["lookup"][idx]
        path = write_replay(pid, a.tier, fam, case, bad)
        print("family=%s: %s" % (fam, bad["message"][:2000]))
        if bad.get("witness") is not None:
            print("witness: %s" % json.dumps(bad["witness"],
                                             default=str)[:2000])
        if bad.get("traceback"):
            print(bad["traceback"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def write_replay(pid, tier, fam, case, bad):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%d.json" % (pid, os.getpid()))
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, family=fam, case=case,
                       violation=bad,
                       replay="cd %s && ./check %s --replay %s" % (
                           VERIF, pid, path)), f, indent=1, default=str)
    return path


def write_evidence(pid, tier, seed, cov, wall, viol, assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed,
                       level="model_checking", coverage=cov,
                       assumptions=list(assumptions), wall_s=round(wall, 2),
                       violations=viol), f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))
