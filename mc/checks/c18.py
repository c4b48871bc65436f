import itertools

from mc import core

TITLE = "Element plots draw exactly the values of the selected element"
LEVEL = "exploration"
RULE = ("timeline, monotone, gaussian and candles of every element (consumption, production, link, storage, both sides of converters; every "
        "kind asked/given/avail/used) of synthetic (study, result) pairs with a different number in every cell, for every scenario and every "
        "time step, with and without dates, every sign pattern (-, 0, +) of the remaining capacity over the points of a gaussian; the data of "
        "the plotly figure are compared with the reference reading. Non-trivial: distinct figures.")
ASSUMPTIONS = ["figures are read through plotly's data model", "colors of curves and layout are not judged"]


def run(ctx):
    import numpy as np
    import pandas as pd
    import hadar as hd
    from mc import spec as S, analysis as A, view as V
    from mc.checks.c17 import racs as rac_of

    def selectors(sp, net, nd):
        e = sp["nets"][net][nd]
        for a, _, _ in e["cons"]:
            for k in ("asked", "given", None):
                yield "consumption", a, k, k or "given"
        for a, _, _ in e["prod"]:
            for k in ("avail", "used", None):
                yield "production", a, k, k or "used"
        for a, _, _ in e["link"]:
            for k in ("avail", "used", None):
                yield "link", a, k, k or "used"
        for name, c in sp["conv"].items():
            if (net, nd) in [s for s, _ in c["src"]]:
                yield "to_converter", name, None, "flow"
            if c["dest"] == (net, nd):
                yield "from_converter", name, None, "flow"

    def pick(node, kind, name, k):
        f = getattr(node, kind)
        return f(name) if k is None else f(name, kind=k)

    def values(sp, tab, net, nd, name, col):
        return np.array([[tab[(net, nd, name, s, t)][col] for t in range(sp["h"])] for s in range(sp["n"])])

    def one(c, task):
        n, h, dates, net, nd = task[:5]
        how = task[6] if len(task) > 6 else None
        unit = {"tiny": 1e-7, "huge": 1e7}.get(how, 1.0)
        V.SCALE[0] = 1e3 * unit if how != "fine" else 1.0
        sp = A.rich(n, h)
        if how:  # same place, other numbers
            sp = A.with_values(sp, how)
        elif len(task) > 5:  # same place under other names
            i, j = list(sp["nets"]).index(net), list(sp["nets"][net]).index(nd)
            sp = S.renamed(sp, *task[5])
            net = list(sp["nets"])[i]
            nd = list(sp["nets"][net])[j]
        res = V.pair(sp, {k: np.where((np.arange(n * h).reshape(n, h) % 3 == 0) == (i == 0), -1.0, 2.0) * unit for i, k in enumerate(sp["nets"])}, how)
        agg = hd.ResultAnalyzer(S.build(sp), res)
        kw = dict(time_start="2020-01-01", time_end="2020-01-20") if dates else {}
        x = pd.date_range(start="2020-01-01", end="2020-01-20", periods=h) if dates else np.arange(h)
        plot = hd.HTMLPlotting(agg=agg, unit_symbol="MW" if dates else "", **kw)
        rac = rac_of(sp, res)[net]
        tabs = {k: A.table(sp, res, k) for k in A.KINDS}

        def say(p, *what):
            c.check(p is None, "%s on %s/%s (%d scenarios, %d steps): %s" % (" ".join(str(w) for w in what), net, nd, n, h, p))
            c.add("evaluations")
            c.distinct.add((task, what))

        node = plot.network(net).node(nd)
        if net == "default":
            node2 = plot.network().node(nd)
        for kind, name, k, col in selectors(sp, net, nd):
            want = values(sp, tabs[kind], net, nd, name, col)
            say(V.timeline(pick(node, kind, name, k).timeline(), want, x), kind, name, k, "timeline")
            if net == "default":
                say(V.timeline(pick(node2, kind, name, k).timeline(), want, x), kind, name, k, "timeline of default network")
            for t in range(h):
                say(V.monotone(pick(node, kind, name, k).monotone(t=t), want[:, t]), kind, name, k, "monotone t=%d" % t)
                say(V.gaussian(pick(node, kind, name, k).gaussian(t=t), rac[:, t], want[:, t]), kind, name, k, "gaussian t=%d" % t)
            for s in range(n):
                say(V.monotone(pick(node, kind, name, k).monotone(scn=s), want[s]), kind, name, k, "monotone scn=%d" % s)
                say(V.gaussian(pick(node, kind, name, k).gaussian(scn=s), rac[s], want[s]), kind, name, k, "gaussian scn=%d" % s)
            for f in ("monotone", "gaussian"):
                try:
                    getattr(pick(node, kind, name, k), f)(t=0, scn=0)
                except ValueError:
                    continue
                c.fail("%s of %s with both t and scn is not refused" % (f, kind))
        for s0, r in zip(sp["nets"][net][nd]["stor"], res.networks[net].nodes[nd].storages):
            sel = node.storage(s0["name"])
            flow = r.flow_in - r.flow_out
            op = np.concatenate([np.full((n, 1), float(s0["init_capacity"])), r.capacity[:, :-1]], axis=1)
            for s in range(n):
                say(V.candles(sel.candles(scn=s), op[s], r.capacity[s], x), "storage", s0["name"], "candles scn=%d" % s)
                say(V.monotone(sel.monotone(scn=s), flow[s]), "storage", s0["name"], "monotone scn=%d" % s)
            say(V.candles(sel.candles(), op[0], r.capacity[0], x), "storage", s0["name"], "candles")
            for t in range(h):
                say(V.monotone(sel.monotone(t=t), flow[:, t]), "storage", s0["name"], "monotone t=%d" % t)
            try:
                sel.monotone(t=0, scn=0)
            except ValueError:
                pass
            else:
                c.fail("monotone of storage with both t and scn is not refused")
        c.sample(dict(scenarios=n, horizon=h, dates=dates, network=net, node=nd), cap=4)

    sizes = ctx.pick([(1, 1), (2, 3), (3, 2)], [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 4), (11, 2), (2, 11)])
    sizes += ctx.pick([(12, 2), (2, 12)], [])
    where = [("default", "a"), ("default", "b"), ("default", "c"), ("gas", "a"), ("gas", "b"), ("gas", "d")]
    core.fan_out(ctx, [(n, h, d, net, nd) for n, h in sizes for d in ((False, True) if (n, h) == (2, 3) or ctx.thorough else (False,)) for net, nd in where]
                 + [(2, 2, False, net, nd, (k, 0)) for k in S.NAMES for net, nd in ctx.pick([("default", "a"), ("default", "b"), ("gas", "a")], where)]
                 + [(2, 3, False, net, nd, None, how) for how in A.VALUES for net, nd in ctx.pick([("default", "a"), ("default", "b"), ("gas", "a")], where)], one)
    V.SCALE[0] = 1e3

    # every sign pattern of the remaining capacity: red and green points
    def signs(c, pat):
        n, h = 2, 2
        sp = A.rich(n, h)
        want = np.array(pat, dtype=float).reshape(n, h)
        res = V.pair(sp, dict(default=want, gas=-want))
        agg = hd.ResultAnalyzer(S.build(sp), res)
        plot = hd.HTMLPlotting(agg=agg)
        for net, nd, kind, name, col in (("default", "a", "consumption", "aux", "given"), ("gas", "a", "consumption", "load", "given"), ("default", "b", "production", "gen", "used"),
                                         ("gas", "a", "production", "aux", "used"), ("default", "b", "link", "c", "used"), ("gas", "b", "link", "a", "used"),
                                         ("default", "a", "to_converter", "cv", "flow"), ("gas", "a", "to_converter", "cv", "flow"),
                                         ("default", "b", "from_converter", "cw", "flow"), ("gas", "a", "from_converter", "cx", "flow")):
            v = values(sp, A.table(sp, res, kind), net, nd, name, col)
            rac = want if net == "default" else -want
            el = getattr(plot.network(net).node(nd), kind)(name)
            for i in range(2):
                for lab, p in (("t", V.gaussian(el.gaussian(t=i), rac[:, i], v[:, i])), ("scn", V.gaussian(el.gaussian(scn=i), rac[i], v[i]))):
                    c.check(p is None, "gaussian %s=%d of %s %s on %s/%s with remaining capacity %s: %s" % (lab, i, kind, name, net, nd, rac.tolist(), p))
                    c.add("evaluations")
                    c.distinct.add((pat, net, nd, kind, lab, i))

    core.fan_out(ctx, list(itertools.product((-3, 0, 5), repeat=4)), signs)

    # both ends of the time axis, or none
    def axis(c, t):
        h, start, end = t
        sp = A.rich(2, h)
        res = V.pair(sp)
        agg = hd.ResultAnalyzer(S.build(sp), res)
        kw = {k: v for k, v in (("time_start", start), ("time_end", end)) if v is not None}
        for kw in (kw, dict(time_start=start, time_end=end)):
            try:
                plot = hd.HTMLPlotting(agg=agg, **kw)
            except ValueError as e:
                c.check(len(kw) and (start is None) != (end is None), "plotting with time axis %s refused: %s" % (kw, e))
            else:
                c.check((start is None) == (end is None), "plotting with time axis %s is not refused" % kw)
                x = np.arange(h) if start is None else pd.date_range(start=start, end=end, periods=h)
                el = plot.network("default").node("a")
                p = V.timeline(el.consumption("aux").timeline(), values(sp, A.table(sp, res, "consumption"), "default", "a", "aux", "given"), x)
                c.check(p is None, "timeline with time axis %s over %d steps: %s" % (kw, h, p))
            c.add("evaluations")
            c.distinct.add(("axis", h, repr(kw)))

    ends = [None, "2020-01-01", "01/07/2021", pd.Timestamp("2021-12-31 12:00")]
    core.fan_out(ctx, [(h, a, b) for h in (1, 2, 5) for a in ends[:3] for b in (None,) + tuple(ends[2:])]
                 + [(h, "2020-01-01 10:00:00", e) for h in (2, 3, 4, 7) for e in ("2020-01-01 10:00:01", "2020-01-01 10:00:00.001", "2020-01-01 10:01", "2020-01-01 11:00", "2020-01-02", "2090-01-01")], axis)
