"""Stateless exploration of random answers: numpy.random under our control.

explore(fn): runs fn() once for every sequence of answers the random functions
may give (depth first over the choice tree, each run replays its prefix).
Only functions of the numpy.random module namespace are controlled; code which
draws otherwise is simply run once per call of explore.
"""
import itertools

import numpy as np

_trail, _pos, _on = [], 0, False
used = {"draws": 0}


def _pick(n):
    """one choice among n, by the current trail"""
    global _pos
    used["draws"] += 1
    if _pos == len(_trail):
        _trail.append([0, n])
    c, m = _trail[_pos]
    if m != n:  # not reproducible: stop branching here
        del _trail[_pos:]
        _trail.append([0, n])
        c = 0
    _pos += 1
    return c


def _shape(size):
    if size is None:
        return None
    return tuple(size) if isinstance(size, (tuple, list)) else (int(size),)


def _fill(size, values):
    sh = _shape(size)
    if sh is None:
        return values[_pick(len(values))]
    n = int(np.prod(sh)) if sh else 1
    return np.array([values[_pick(len(values))] for _ in range(n)], dtype=np.asarray(values).dtype).reshape(sh)


def choice(a, size=None, replace=True, p=None):
    vals = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
    if p is not None:
        if len(p) != len(vals) or abs(sum(p) - 1) > 1e-8 or min(p) < 0:
            raise ValueError("probabilities are wrong")
        vals = [v for v, q in zip(vals, p) if q > 0]
    return _fill(size, vals)


def randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if low >= high:
        if size is not None and int(np.prod(_shape(size))) == 0:
            return np.zeros(_shape(size), dtype=int)
        raise ValueError("low >= high")
    return _fill(size, list(range(int(low), int(high))))


class control:
    NAMES = ("choice", "randint")

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES}
        np.random.choice, np.random.randint = choice, randint

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


def explore(fn, limit=None):
    """yield fn() for every answer sequence"""
    global _pos
    _trail.clear()
    runs = 0
    while True:
        _pos = 0
        with control():
            v = fn()
        runs += 1
        yield v
        del _trail[_pos:]
        while _trail and _trail[-1][0] + 1 >= _trail[-1][1]:
            _trail.pop()
        if not _trail or (limit and runs >= limit):
            return
        _trail[-1][0] += 1
