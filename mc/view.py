"""Reading of plotly figures made by HTMLPlotting, and (study, result) pairs for plots."""
import itertools

import numpy as np

from mc import analysis as A, synth
from mc.spec import mat


def pair(sp, racs=None, how=None):
    """result with different numbers everywhere, storages consistent, network RACs as asked.

    racs: {network: (n, h) matrix wanted}; one production of the network is adjusted.
    """
    res = synth.result_of(sp)
    if how:
        res = A.result_with(res, how)
    n, h = sp["n"], sp["h"]
    k = 0
    for net, nodes in sp["nets"].items():
        for nd, e in nodes.items():
            r = res.networks[net].nodes[nd]
            for s, x in zip(e["stor"], r.storages):
                k += 1
                i = np.arange(n * h).reshape(n, h)
                x.flow_in = 3.0 + (i * 7 + k) % 13
                x.flow_out = 2.0 + (i * 5 + 3 * k) % 11
                if how:
                    x.flow_in, x.flow_out = np.array(A.VALUES[how]("used", x.flow_in), dtype=float), np.array(A.VALUES[how]("used", x.flow_out), dtype=float)
                x.capacity = s["init_capacity"] + np.cumsum(mat(sp, s["eff"]) * x.flow_in - x.flow_out, axis=1)
        if racs is not None and net in racs:
            fix = None
            for nd, e in nodes.items():
                if e["prod"]:
                    fix = res.networks[net].nodes[nd].productions[0]
                    break
            if fix is not None:
                from mc.checks.c17 import racs as rac_of

                fix.quantity = fix.quantity + rac_of(sp, res)[net] - racs[net]
    return res


def vec(v):
    return np.array([float(x) for x in v]) if v is not None else np.array([])


SCALE = [1e3]  # magnitude of the numbers drawn


def eq(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(SCALE[0], np.abs(b))))


def same_x(x, want):
    import pandas as pd

    if isinstance(want, pd.DatetimeIndex):
        got = pd.DatetimeIndex(list(x))  # plotly keeps microseconds
        return len(got) == len(want) and all(abs((g - w).value) < 2000 for g, w in zip(got, want))
    return [float(v) for v in x] == [float(v) for v in want]


def timeline(fig, want, x):
    """want: (n, h) matrix -> problem or None"""
    n = want.shape[0]
    if len(fig.data) != n:
        return "%d curves instead of %d scenarios" % (len(fig.data), n)
    seen = set()
    for tr in fig.data:
        try:
            s = int(str(tr.name).split()[-1])
        except ValueError:
            return "curve without scenario name: %r" % tr.name
        if not 0 <= s < n or s in seen:
            return "unexpected curve %r" % tr.name
        seen.add(s)
        if not eq(vec(tr.y), want[s]):
            return "curve of scenario %d is %s instead of %s" % (s, list(vec(tr.y)), list(want[s]))
        if not same_x(tr.x, x):
            return "time axis is %s" % (list(tr.x),)
    return None


def monotone(fig, want):
    if len(fig.data) != 1:
        return "%d curves" % len(fig.data)
    y, x = vec(fig.data[0].y), vec(fig.data[0].x)
    if not eq(y, np.sort(np.asarray(want, dtype=float))[::-1]):
        return "values are %s instead of %s in decreasing order" % (list(y), sorted(want, reverse=True))
    if not eq(x, np.linspace(0, 100, len(y))):
        return "percentages are %s" % list(x)
    return None


def gaussian(fig, rac, want):
    want = np.asarray(want, dtype=float)
    pts = {tr.name: tr for tr in fig.data if tr.mode == "markers"}
    if set(pts) != {"passed", "failed"}:
        return "point groups are %s" % sorted(pts)
    m, o = want.mean(), want.std()
    for name, mask in (("passed", rac >= 0), ("failed", rac < 0)):
        got = vec(pts[name].x)
        if not eq(np.sort(got), np.sort(want[mask])):
            return "%s points are %s instead of %s" % (name, sorted(got), sorted(want[mask]))
    if o > 1e-6:  # every drawn point lies on a bell curve with mean and deviation of the values
        ratio = []
        for tr in fig.data:
            x, y = vec(tr.x), vec(tr.y)
            if len(x) != len(y):
                return "points without ordinate"
            bell = np.exp(-0.5 * ((x - m) / o) ** 2)
            ratio += [b / a for a, b in zip(bell, y) if a > 1e-12]
        if ratio and not (min(ratio) > 0 and max(ratio) / min(ratio) < 1 + 1e-6):
            return "points are not on the bell curve of mean %r and deviation %r" % (m, o)
        curve = [tr for tr in fig.data if tr.mode == "lines"]
        if len(curve) != 1:
            return "%d curves" % len(curve)
        x = vec(curve[0].x)
        if want.min() >= 0 and not (x.min() <= want.min() and x.max() >= want.max()):
            return "curve does not cover the values"
    return None


def candles(fig, open, close, x):
    if len(fig.data) != 1:
        return "%d traces" % len(fig.data)
    tr = fig.data[0]
    if not eq(vec(tr.open), open, 1e-8):
        return "opens are %s instead of %s" % (list(vec(tr.open)), list(open))
    if not eq(vec(tr.close), close, 1e-8):
        return "closes are %s instead of %s" % (list(vec(tr.close)), list(close))
    if not same_x(tr.x, x):
        return "time axis is %s" % (list(tr.x),)
    return None


def stack(fig, areas, lines, x):
    """areas, lines: lists of groups, each a list of (name, vector)"""
    got_a = [tr for tr in fig.data if tr.mode == "none"]
    got_l = [tr for tr in fig.data if tr.mode != "none"][::-1]
    for what, got, want in (("area", got_a, areas), ("line", got_l, lines)):
        flat = [e for g in want for e in g]
        if len(got) != len(flat):
            return "%d %ss (%s) instead of %d (%s)" % (len(got), what, [t.name for t in got], len(flat), [e[0] for e in flat])
        left = list(flat)
        prev = np.zeros(len(x))
        for tr in got:
            if not same_x(tr.x, x):
                return "time axis is %s" % (list(tr.x),)
            y = vec(tr.y)
            inc = y - prev
            prev = y
            hit = [i for i, (nm, v) in enumerate(left) if nm == tr.name and eq(inc, v, 1e-7)]
            if not hit:
                return "%s %r adds %s, expected one of %s" % (what, tr.name, list(inc), [(a, list(b)) for a, b in left])
            left.pop(hit[0])
    return None


def exchange_map(fig, coord, nodes, net, limit):
    """nodes: {node: balance}; net: {(a, b): used a->b}"""
    at = {tuple(float(z) for z in v): k for k, v in coord.items()}
    mk = [tr for tr in fig.data if tr.mode == "markers"]
    if len(mk) != 1:
        return "%d marker traces" % len(mk)
    mk = mk[0]
    got = {}
    for lon, lat, txt, col in zip(mk.lon, mk.lat, mk.text, mk.marker.color):
        nd = at.get((float(lon), float(lat)))
        if nd is None:
            return "a marker at unknown place %s" % ((lon, lat),)
        got[nd] = (float(txt), float(col))
    if set(got) != set(nodes):
        return "nodes on map are %s instead of %s" % (sorted(got), sorted(nodes))
    for nd, v in nodes.items():
        if not (eq(got[nd][0], v) and eq(got[nd][1], v)):
            return "net position of %s is %s instead of %r" % (nd, got[nd], v)
    if limit is None:
        limit = max(abs(v) for v in nodes.values())
    if not (eq(mk.marker.cmax, limit) and eq(mk.marker.cmin, -limit)):
        return "color scale is [%r, %r] instead of +-%r" % (mk.marker.cmin, mk.marker.cmax, limit)
    segs = [tr for tr in fig.data if tr.mode == "lines" and tr.fill != "toself"]
    arrows = [tr for tr in fig.data if tr.mode == "lines" and tr.fill == "toself"]
    if len(segs) != len(arrows):
        return "%d lines but %d arrows" % (len(segs), len(arrows))
    drawn = {}
    for s, a in zip(segs, arrows):
        p, q = (float(s.lon[0]), float(s.lat[0])), (float(s.lon[1]), float(s.lat[1]))
        key = (at.get(p), at.get(q))
        if None in key:
            return "a line between unknown places"
        if key[0] == key[1]:
            continue  # a link from a node to itself has no direction on a map
        # the tip of the arrow is nearer to the end than to the start
        tip = np.array([float(a.lon[1]), float(a.lat[1])])
        if np.linalg.norm(tip - np.array(q)) >= np.linalg.norm(tip - np.array(p)):
            return "arrow of %s points to its start" % (key,)
        if key in drawn:
            return "two arrows for %s" % (key,)
        drawn[key] = float(a.text)
    for a, b in {tuple(sorted(k)) for k in net}:
        if a == b:
            continue
        v = net.get((a, b), 0) - net.get((b, a), 0)
        src, dst = (a, b) if v >= 0 else (b, a)
        f, r = drawn.pop((src, dst), None), drawn.pop((dst, src), None)
        if abs(v) > 1e-9:
            if f is None or not eq(f, abs(v)):
                return "exchange %s->%s is drawn %r instead of %r" % (src, dst, f, abs(v))
            if r is not None and abs(r) > 1e-9:
                return "exchange %s->%s also drawn backward: %r" % (src, dst, r)
        elif (f or 0) != 0 or (r or 0) != 0 or (f is None and r is None):
            return "exchange %s-%s is drawn %r/%r instead of 0" % (a, b, f, r)
    extra = [k for k, v in drawn.items() if k[0] != k[1]]
    if extra:
        return "exchanges drawn without link: %s" % extra
    return None


def matrix(fig, rac, x):
    if len(fig.data) != 1:
        return "%d traces" % len(fig.data)
    tr = fig.data[0]
    n, h = rac.shape
    if not eq(np.array([vec(r) for r in tr.text]), rac):
        return "values are %s instead of %s" % (np.array(tr.text).tolist(), rac.tolist())
    z = np.array([vec(r) for r in tr.z])
    pos, neg = rac[rac > 0], rac[rac < 0]
    want = np.where(rac > 0, rac / (pos.max() if pos.size else 1), np.where(rac < 0, rac / (-neg.min() if neg.size else 1), 0))
    if not eq(z, want):
        return "colors are %s instead of %s" % (z.tolist(), want.tolist())
    if not same_x(tr.x, x) or [int(v) for v in tr.y] != list(range(n)):
        return "axes are wrong"
    pct = int((rac >= 0).sum() / rac.size * 100)
    if str(pct) not in str(fig.layout.title.text).replace("%", " ").split():
        return "title %r does not say %d%% passed" % (fig.layout.title.text, pct)
    return None
