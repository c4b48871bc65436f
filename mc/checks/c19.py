import itertools

from mc import core

TITLE = "Stack, exchange map and RAC matrix draw what flows in the answer"
LEVEL = "exploration"
RULE = ("stack of every node for every scenario and kind on all subsets of element kinds and the rich pair; exchange map for every graph of "
        "directed links between 3 nodes x every combination of flows {0,1,2} on a pair of opposite links x every scenario and time x limit "
        "given or not; RAC matrix for every sign pattern over 2x2 cells; with and without dates; the data of the plotly figure are compared "
        "with the reference reading. Non-trivial: distinct figures.")
ASSUMPTIONS = ["figures are read through plotly's data model", "layout and palette are not judged"]


def groups(sp, res, net, nd, s, prod_kind, cons_kind):
    import numpy as np
    from mc.spec import mat
    from mc.checks.c17 import balances

    e, r = sp["nets"][net][nd], res.networks[net].nodes[nd]

    def col(q):
        return np.asarray(q)[s]

    areas = [[(a, mat(sp, q)[s] if prod_kind == "avail" else col(x.quantity)) for (a, _, q), x in zip(e["prod"], r.productions)],
             [(x.name, col(x.flow_out)) for x in r.storages],
             [(name, col(res.converters[name].flow_dest)) for name, v in sp["conv"].items() if v["dest"] == (net, nd)]]
    lines = [[(a, mat(sp, q)[s] if cons_kind == "asked" else col(x.quantity)) for (a, _, q), x in zip(e["cons"], r.consumptions)],
             [(x.name, col(x.flow_in)) for x in r.storages],
             [(name, col(res.converters[name].flow_src[(net, nd)])) for name, v in sp["conv"].items() if (net, nd) in [k for k, _ in v["src"]]]]
    b = balances(sp, res)[(net, nd)][s]
    if (b < 0).any():
        areas.append([("import", np.maximum(-b, 0))])
    if (b > 0).any():
        lines.append([("export", np.maximum(b, 0))])
    return areas, lines


def run(ctx):
    import numpy as np
    import pandas as pd
    import hadar as hd
    from mc import spec as S, synth, analysis as A, view as V
    from mc.checks.c17 import balances, graphs
    from mc.spec import node

    coord = dict(a=[2.5, 48.25], b=[4.125, 50.5], c=[-1.5, 47.75], d=[0.25, 44.0])

    def plots(agg, h, dates, coord=coord):
        kw = dict(time_start="2020-01-01", time_end="2020-03-01") if dates else {}
        x = pd.date_range(start="2020-01-01", end="2020-03-01", periods=h) if dates else np.arange(h)
        return hd.HTMLPlotting(agg=agg, node_coord=coord, **kw), x

    def stacks(c, t):
        label, sp, dates = t[:3]
        how = t[3] if len(t) > 3 else None
        V.SCALE[0] = {None: 1e3, "tiny": 1e-4, "huge": 1e10, "fine": 1.0}.get(how, 1e3)
        if how:
            sp, label = A.with_values(sp, how), label + "-" + how
        res = V.pair(sp, how=how)
        p, x = plots(hd.ResultAnalyzer(S.build(sp), res), sp["h"], dates)
        for net, nodes in sp["nets"].items():
            for nd in nodes:
                calls = [dict()] + [dict(scn=s, prod_kind=pk, cons_kind=ck) for s in range(min(sp["n"], 3)) for pk in ("used", "avail") for ck in ("asked", "given")]
                for kw in calls:
                    fig = p.network(net).node(nd).stack(**kw)
                    areas, lines = groups(sp, res, net, nd, kw.get("scn", 0), kw.get("prod_kind", "used"), kw.get("cons_kind", "asked"))
                    e = V.stack(fig, areas, lines, x)
                    c.check(e is None, "stack(%s) of %s/%s on %s: %s" % (kw, net, nd, label, e))
                    c.add("evaluations")
                    c.distinct.add((label, net, nd, repr(kw), dates))
        c.sample(label, cap=2)

    tasks = [("rich-%dx%d" % s, A.rich(*s), d) for s in [(1, 1), (2, 3), (1, 4), (3, 1), (3, 11), (1, 400)] for d in (False, True)]
    tasks += [("subset-%d" % i, sp, i % 2 == 1) for i, sp in enumerate(synth.subset_specs(*ctx.pick((1, 2), (3, 4)))) if ctx.thorough or i % 3 == 0]
    named = [("names-%s-%d" % (k, sh), S.renamed(A.rich(2, 2), k, sh), False) for k in S.NAMES for sh in ctx.pick((0,), (0, 5, 11))]
    tasks += [("crowd-%dx%d" % s, A.crowd(*s), False) for s in ctx.pick([(2, 2)], [(1, 1), (2, 2), (1, 3), (11, 2)])]
    valued = [("rich-2x3", A.rich(2, 3), False, how) for how in A.VALUES]
    core.fan_out(ctx, tasks + named + valued, stacks)
    V.SCALE[0] = 1e3

    # signs of the balance over time: import and export parts
    def imports(c, t):
        f, g = t
        sp = dict(h=2, n=2, conv={}, nets={"default": {"a": node(cons=[("l", 1, 1)], prod=[("g", 1, 1)], link=[("b", 1, 9)]), "b": node(link=[("a", 1, 9)])}})
        res = V.pair(sp)
        # scenario 1 carries the pattern, scenario 0 other numbers
        res.networks["default"].nodes["a"].links[0].quantity = np.array([[3., 1.], f], dtype=float)
        res.networks["default"].nodes["b"].links[0].quantity = np.array([[1., 2.], g], dtype=float)
        p, x = plots(hd.ResultAnalyzer(S.build(sp), res), 2, False)
        for nd in "ab":
            for s in (0, 1):
                e = V.stack(p.network().node(nd).stack(scn=s), *groups(sp, res, "default", nd, s, "used", "asked"), x)
                c.check(e is None, "stack of node %s scenario %d with flows a->b %s, b->a %s: %s" % (nd, s, f, g, e))
                c.add("evaluations")
                c.distinct.add(("import", f, g, nd, s))
                for t in (0, 1):
                    link = {("a", "b"): res.networks["default"].nodes["a"].links[0].quantity[s, t], ("b", "a"): res.networks["default"].nodes["b"].links[0].quantity[s, t]}
                    bal = {k[1]: v[s, t] for k, v in balances(sp, res).items()}
                    if nd == "a" and max(abs(v) for v in bal.values()) > 0:
                        e = V.exchange_map(p.network().map(t=t, scn=s, zoom=1.5), coord, bal, link, None)
                        c.check(e is None, "map t=%d scn=%d with flows a->b %s, b->a %s: %s" % (t, s, f, g, e))
                        c.add("evaluations")

    core.fan_out(ctx, list(itertools.product(itertools.product((0, 1, 2), repeat=2), repeat=2)), imports)

    def maps(c, t):
        label, sp, dates = t[:3]
        how = t[3] if len(t) > 3 else None
        V.SCALE[0] = {None: 1e3, "tiny": 1e-4, "huge": 1e10, "fine": 1.0}.get(how, 1e3)
        if how:
            sp, label = A.with_values(sp, how), label + "-" + how
        res = V.pair(sp, how=how)
        coord = {nd: [1.5 * i - 2, 47 + i * i / 4.0] for i, nd in enumerate(dict.fromkeys(nd for nodes in sp["nets"].values() for nd in nodes))}
        p, x = plots(hd.ResultAnalyzer(S.build(sp), res), sp["h"], dates, coord)
        bal = balances(sp, res)
        for net, nodes in sp["nets"].items():
            used = {}
            for nd, e in nodes.items():
                for (d, _, _), r in zip(e["link"], res.networks[net].nodes[nd].links):
                    used[(nd, d)] = r.quantity
            if not used:
                continue
            for s in range(sp["n"]):
                for u in range(sp["h"]):
                    for kw in (dict(scn=s), dict(scn=s, limit=1e6)) + ((dict(),) if s == 0 else ()):
                        fig = p.network(net).map(t=u, zoom=2, **kw)
                        e = V.exchange_map(fig, coord, {nd: bal[(net, nd)][s, u] for nd in nodes}, {k: v[s, u] for k, v in used.items()}, kw.get("limit"))
                        c.check(e is None, "map(t=%d, %s) of %s on %s: %s" % (u, kw, net, label, e))
                        c.add("evaluations")
                        c.distinct.add((label, net, s, u, repr(kw)))

    tasks = [("rich-%dx%d" % s, A.rich(*s), d) for s in [(1, 1), (2, 3), (3, 2), (1, 12), (12, 1)] for d in (False, True)]
    tasks += [(l, sp, False) for l, sp in graphs(*ctx.pick((1, 2), (2, 3)), loops=False)]
    tasks += [("loops-" + l, sp, False) for i, (l, sp) in enumerate(graphs(1, 1)) if i % ctx.pick(37, 5) == 36 % ctx.pick(37, 5)]
    tasks += [("crowd-%dx%d" % s, A.crowd(*s), False) for s in ctx.pick([(2, 2)], [(1, 1), (2, 2), (1, 3), (11, 2)])]
    core.fan_out(ctx, tasks + named + valued, maps)
    V.SCALE[0] = 1e3

    def matrices(c, t):
        pat, n, h, dates = t
        sp = A.rich(n, h)
        want = np.array(pat, dtype=float).reshape(n, h)
        res = V.pair(sp, dict(default=want, gas=-want))
        p, x = plots(hd.ResultAnalyzer(S.build(sp), res), h, dates)
        for net, w in (("default", want), ("gas", -want)):
            # the percentage of the title is only judged where no cell is a rounding of zero
            e = V.matrix(p.network(net).rac_matrix(), w, x)
            c.check(e is None, "rac_matrix of %s with remaining capacity %s: %s" % (net, w.tolist(), e))
            c.add("evaluations")
            c.distinct.add((pat, net, n, h, dates))

    tasks = [(pat, 2, 2, False) for pat in itertools.product((-3, 0, 5), repeat=4)]
    tasks += [(pat, n, h, True) for n, h in ((1, 3), (3, 1)) for pat in itertools.product((-4, 0, 2), repeat=3)]
    core.fan_out(ctx, tasks, matrices)

    # candles on genuine answers: the close of a step is the stored level
    from mc import lp, pool, uniq

    lp.prepare()
    for n, h in ctx.pick([(2, 3)], [(1, 1), (2, 3), (4, 6)]):
        sp = uniq.base(n, h)
        pool.set_schedule(pool.Schedule())
        st = S.build(sp)
        res = S.solve(st)
        p, x = plots(hd.ResultAnalyzer(st, res), h, False)
        cell = res.networks["elec"].nodes["b"].storages[0]
        for s in range(n):
            lev = np.asarray(cell.capacity)[s]
            e = V.candles(p.network("elec").node("b").storage("cell").candles(scn=s), np.concatenate([[1.0], lev[:-1]]), lev, x)
            ctx.check(e is None, "candles of the solved study, scenario %d: %s" % (s, e))
            ctx.add("evaluations")
