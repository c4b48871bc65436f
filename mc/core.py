"""Runner shared by every check: reporting, evidence, silencing, watchdog, fan out.

A check is a function run(ctx).  It explores its whole bounded space and calls
ctx.fail(...) on the first behaviour which breaks the property.  Anything
raised by the code under test (or by comparing its answer) on a valid input is
a violation too: the same exploration raises nothing on a tree where the
property holds.
"""
import json
import os
import pickle
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVID, "replay")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")


class Violation(Exception):
    def __init__(self, what, data=None):
        Exception.__init__(self, what)
        self.what = what
        self.data = data


class Hang(Exception):
    pass


def _jsonable(o, depth=0):
    import numpy as np

    if depth > 12:
        return repr(o)
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        return _jsonable(o.tolist(), depth + 1)
    if isinstance(o, np.generic):
        return _jsonable(o.item(), depth + 1)
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return repr(o)
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.start = time.time()
        self.count = {}
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.known = []
        self.limit = float(os.environ.get("VERIF_SOFT_LIMIT", "740" if tier == "quick" else "36000"))
        self.truncated = False

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # counters -----------------------------------------------------------
    def add(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + int(n)

    def sample(self, obj, cap=6):
        if len(self.samples) < cap:
            self.samples.append(_jsonable(obj))

    def over(self):
        """True when the run has to stop (safety valve, recorded in evidence)."""
        if time.time() - self.start > self.limit:
            self.truncated = True
        return self.truncated

    # verdicts -----------------------------------------------------------
    def fail(self, what, **data):
        raise Violation(what, data)

    def check(self, cond, what, **data):
        if not cond:
            raise Violation(what, data)

    # merge what a forked worker measured ---------------------------------
    def export(self):
        return dict(count=self.count, distinct=self.distinct, samples=self.samples,
                    truncated=self.truncated, known=self.known)

    def merge(self, d):
        for k, v in d["count"].items():
            self.add(k, v)
        self.distinct |= d["distinct"]
        for s in d["samples"]:
            self.sample(s)
        self.truncated |= d["truncated"]
        for k in d["known"]:
            if k not in self.known:
                self.known.append(k)


# -- silence -----------------------------------------------------------------
_out = None


def silence():
    """GLOP writes on the real fd 1/2: keep a private copy of stdout for us."""
    global _out
    if _out is None:
        sys.stdout.flush()
        _out = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(dn, 2)
        os.dup2(dn, 1)


def say(*a):
    msg = " ".join(str(x) for x in a) + "\n"
    if _out is None:
        sys.stdout.write(msg)
        sys.stdout.flush()
    else:
        os.write(_out, msg.encode())


# -- watchdog ----------------------------------------------------------------
class watchdog:
    def __init__(self, seconds, what):
        self.seconds, self.what = seconds, what

    def __enter__(self):
        def on(sig, frame):
            raise Hang("no answer after %ds: %s" % (self.seconds, self.what))

        self.old = signal.signal(signal.SIGALRM, on)
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


# -- fan out over forked processes ---------------------------------------------
def fan_out(ctx, tasks, fn, procs=None):
    """Run fn(ctx, task) for every task; tasks are split over forked processes.

    Deterministic split (task i goes to process i mod n). A violation found in
    any process is reported for the smallest task index, so that the verdict
    does not depend on timing.
    """
    tasks = list(tasks)
    procs = min(procs or int(os.environ.get("VERIF_PROCS", os.cpu_count() or 4)), 8, max(1, len(tasks)))
    if procs <= 1:
        for i, t in enumerate(tasks):
            if ctx.over():
                return
            fn(ctx, t)
        return
    kids = []
    for p in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                sub = Ctx(ctx.prop, ctx.tier, ctx.seed, ctx.level)
                sub.start, sub.limit = ctx.start, ctx.limit
                viol = None
                for i in range(p, len(tasks), procs):
                    if sub.over():
                        break
                    try:
                        fn(sub, tasks[i])
                    except BaseException as e:
                        viol = (i, describe(e))
                        break
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps((sub.export(), viol)))
            except BaseException:
                code = 3
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    viols = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            blob = f.read()
        os.waitpid(pid, 0)
        if not blob:
            viols.append((1 << 30, ("exploration process died (crash inside the code under test?)", {})))
            continue
        d, viol = pickle.loads(blob)
        ctx.merge(d)
        if viol:
            viols.append(viol)
    if viols:
        viols.sort(key=lambda v: v[0])
        what, data = viols[0][1]
        raise Violation(what, data)


def describe(e):
    if isinstance(e, Violation):
        return e.what, _jsonable(e.data or {})
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "%s: %s" % (type(e).__name__, str(e)[:500]), {"traceback": "".join(tb)[-6000:]}


# -- known findings ------------------------------------------------------------
def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("kind") == "known" and d["property"] == prop:
                    out.append(d)
    return out


# -- main ------------------------------------------------------------------------
def main(prop, title, level, run, rule, assumptions=()):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(REPLAY, exist_ok=True)
    replay = os.path.join(REPLAY, "%s.json" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    if os.environ.get("VERIF_PROFILE"):
        import cProfile
    silence()
    ctx = Ctx(prop, tier, seed, level)
    viol = None
    try:
        run(ctx)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        viol = describe(e)
    wall = time.time() - ctx.start

    cov = dict(ctx.notes)
    if level == "model_checking":
        cov.update(states=ctx.count.get("states", 0), transitions=ctx.count.get("transitions", 0),
                   traces_validated_against_impl=ctx.count.get("traces", 0))
    else:
        cov.update(evaluations=ctx.count.get("evaluations", 0),
                   distinct_nontrivial=len(ctx.distinct) or ctx.count.get("distinct", 0))
    for k, v in ctx.count.items():
        if k not in ("states", "transitions", "traces", "evaluations", "distinct"):
            cov.setdefault("n_" + k, v)
    cov["rule"] = rule
    cov["samples"] = ctx.samples
    cov["exhaustive"] = not ctx.truncated and viol is None
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(wall, 3), violations=0 if viol is None else 1)
    with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol is not None:
        with open(replay, "w") as f:
            json.dump(dict(property=prop, title=title, tier=tier, what=viol[0], data=viol[1]), f, indent=1)
        say("violated: %s" % viol[0][:2000])
        say("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    say("%s held on everything explored: %s (%.1fs)%s" % (
        prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)}), wall,
        " TRUNCATED" if ctx.truncated else ""))
    return 0
