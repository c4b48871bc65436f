"""A multiprocessing.Pool under our control.

ControlledPool replaces multiprocessing.Pool.  A *schedule* says which worker
takes which task, in which order each worker runs its tasks and in which order
the tasks complete.  Arguments, functions and answers cross the process border
through pickle exactly as with the real pool.

mode "inline": tasks run in this process, in schedule.order (one worker).
mode "fork":   every worker of the schedule is a real forked process.
"""
import multiprocessing
import multiprocessing.context
import os
import pickle
import sys

try:
    from multiprocessing.reduction import ForkingPickler

    def dumps(o):
        return bytes(ForkingPickler.dumps(o))
except Exception:  # pragma: no cover
    dumps = pickle.dumps


class Schedule:
    """order: completion order of task numbers. workers: list of lists of task numbers."""

    def __init__(self, workers=None, completion=None, mode="fork"):
        self.workers, self.completion, self.mode = workers, completion, mode

    def plan(self, n):
        workers = self.workers if self.workers is not None else [list(range(n))]
        workers = [[t for t in w if t < n] for w in workers]
        seen = {t for w in workers for t in w}
        rest = [t for t in range(n) if t not in seen]
        if rest:
            workers = workers + [rest]
        workers = [w for w in workers if w]
        comp = self.completion if self.completion is not None else [t for w in workers for t in w]
        comp = [t for t in comp if t < n]
        comp += [t for t in range(n) if t not in comp]
        return workers, comp

    def __repr__(self):
        return "Schedule(workers=%s, completion=%s, %s)" % (self.workers, self.completion, self.mode)


_current = Schedule()
stats = {"pools": 0, "tasks": 0}


def set_schedule(s):
    global _current
    _current = s


class _Async:
    def __init__(self, pool):
        self.pool, self.done = pool, False

    def _need(self):
        if not self.done:
            self.pool._flush()

    def get(self, timeout=None):
        self._need()
        if self.err is not None:
            raise self.err
        return self.val

    def wait(self, timeout=None):
        self._need()

    def ready(self):
        self._need()
        return True

    def successful(self):
        self._need()
        return self.err is None


class ControlledPool:
    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        stats["pools"] += 1
        self.initializer, self.initargs = initializer, initargs
        self._inited = False
        self._pending = []

    # engine -------------------------------------------------------------
    def _exec(self, jobs):
        """jobs: list of (func, args, kw) -> (answers by task, completion order)"""
        blobs = [dumps(j) for j in jobs]
        stats["tasks"] += len(blobs)
        workers, comp = _current.plan(len(blobs))
        out = {}
        if _current.mode == "inline":
            if self.initializer and not self._inited:
                self.initializer(*self.initargs)
                self._inited = True
            for w in workers:
                for t in w:
                    out[t] = self._one(blobs[t])
        else:
            for w in workers:
                r, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        if self.initializer:
                            self.initializer(*self.initargs)
                        res = [(t, self._one(blobs[t])) for t in w]
                        with os.fdopen(wr, "wb") as f:
                            f.write(pickle.dumps(res))
                    finally:
                        os._exit(0)
                os.close(wr)
                with os.fdopen(r, "rb") as f:
                    blob = f.read()
                os.waitpid(pid, 0)
                if not blob:
                    raise RuntimeError("worker died")
                out.update(dict(pickle.loads(blob)))
        return out, comp

    @staticmethod
    def _one(blob):
        func, args, kw = pickle.loads(blob)
        try:
            return True, dumps(func(*args, **kw))
        except Exception as e:
            try:
                return False, dumps(e)
            except Exception:
                return False, dumps(RuntimeError(repr(e)))

    @staticmethod
    def _open(a):
        ok, blob = a
        v = pickle.loads(blob)
        if not ok:
            raise v
        return v

    # API of multiprocessing.pool.Pool --------------------------------------
    def map(self, func, iterable, chunksize=None):
        out, comp = self._exec([(func, (x,), {}) for x in iterable])
        for t in comp:  # first completed failure is raised, like the real pool
            if not out[t][0]:
                self._open(out[t])
        return [self._open(out[t]) for t in range(len(out))]

    def starmap(self, func, iterable, chunksize=None):
        out, comp = self._exec([(func, tuple(x), {}) for x in iterable])
        for t in comp:
            if not out[t][0]:
                self._open(out[t])
        return [self._open(out[t]) for t in range(len(out))]

    def imap(self, func, iterable, chunksize=1):
        out, comp = self._exec([(func, (x,), {}) for x in iterable])
        return iter([self._open(out[t]) for t in range(len(out))])

    def imap_unordered(self, func, iterable, chunksize=1):
        out, comp = self._exec([(func, (x,), {}) for x in iterable])
        return iter([self._open(out[t]) for t in comp])

    def apply(self, func, args=(), kwds=None):
        out, _ = self._exec([(func, tuple(args), kwds or {})])
        return self._open(out[0])

    # asynchronous calls wait until somebody needs them: then every pending
    # call runs, following the schedule, callbacks in completion order
    def _defer(self, func, args, kwds, callback, error_callback):
        a = _Async(self)
        self._pending.append((a, (func, tuple(args), kwds or {}), callback, error_callback))
        return a

    def _flush(self):
        todo, self._pending = self._pending, []
        if not todo:
            return
        out, comp = self._exec([j for _, j, _, _ in todo])
        for t in comp:
            a, _, cb, ecb = todo[t]
            try:
                a.val, a.err = self._open(out[t]), None
            except Exception as e:
                a.val, a.err = None, e
            a.done = True
            if a.err is None and cb:
                cb(a.val)
            if a.err is not None and ecb:
                ecb(a.err)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._defer(func, args, kwds, callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._done(lambda: self.map(func, iterable), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._done(lambda: self.starmap(func, iterable), callback, error_callback)

    def _done(self, fn, callback, error_callback):
        a = _Async(self)
        a.done = True
        try:
            a.val, a.err = fn(), None
            if callback:
                callback(a.val)
        except Exception as e:
            a.val, a.err = None, e
            if error_callback:
                error_callback(e)
        return a

    def close(self):
        self._flush()

    def terminate(self):
        pass

    def join(self):
        self._flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


_real = {}
_on = False


def _factory(*a, **k):
    k.pop("context", None)
    if _on:
        return ControlledPool(*a, **k)
    return _real["Pool"](*a, **k)


def _ctx_factory(self, *a, **k):
    if _on:
        return ControlledPool(*a, **k)
    return _real["ctx"](self, *a, **k)


def install():
    """To call before hadar is imported."""
    global _on
    if not _real:
        _real["Pool"] = multiprocessing.Pool
        _real["ctx"] = multiprocessing.context.BaseContext.Pool
        multiprocessing.Pool = _factory
        multiprocessing.context.BaseContext.Pool = _ctx_factory
    _on = True


class real_pool:
    """with real_pool(): use the genuine multiprocessing.Pool"""

    def __enter__(self):
        global _on
        self.old = _on
        _on = False

    def __exit__(self, *a):
        global _on
        _on = self.old
