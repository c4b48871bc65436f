import itertools

from mc import core

TITLE = "Net positions and remaining capacities are read from the answer, read-only"
LEVEL = "model_checking"
RULE = ("get_balance of every node and get_rac of every network on synthetic (study, result) pairs with a different number in every cell: every "
        "graph of directed links between 3 nodes, self links included, x homonym nodes in a second network, all subsets of element kinds, several sizes; balances of a "
        "network sum to zero. Then every sequence of analysis operations (queries, costs, balances, rac, plots) up to the depth bound on one "
        "analyzer, the caller spoiling every answer: each answer equals the one of a fresh analyzer, study and result are unaltered. "
        "states: pairs and histories; transitions: operations; traces: answers compared.")
ASSUMPTIONS = ["balance of a node = exported minus imported energy over links", "RAC of a network = (available - used production) - (asked - given consumption)"]


def balances(sp, res):
    import numpy as np

    out = {(net, nd): np.zeros((sp["n"], sp["h"])) for net, nodes in sp["nets"].items() for nd in nodes}
    for net, nodes in sp["nets"].items():
        for nd, e in nodes.items():
            for (dest, _, _), x in zip(e["link"], res.networks[net].nodes[nd].links):
                out[(net, nd)] += np.asarray(x.quantity)
                out[(net, dest)] -= np.asarray(x.quantity)
    return out


def racs(sp, res):
    import numpy as np
    from mc.spec import mat

    out = {}
    for net, nodes in sp["nets"].items():
        v = np.zeros((sp["n"], sp["h"]))
        for nd, e in nodes.items():
            r = res.networks[net].nodes[nd]
            for (_, _, q), x in zip(e["prod"], r.productions):
                v += mat(sp, q) - np.asarray(x.quantity)
            for (_, _, q), x in zip(e["cons"], r.consumptions):
                v -= mat(sp, q) - np.asarray(x.quantity)
        out[net] = v
    return out


def same(c, label, what, got, want, scale=1e6):
    import numpy as np

    got = np.asarray(got, dtype=float)
    c.check(got.shape == want.shape, "%s on %s has shape %s instead of %s" % (what, label, got.shape, want.shape))
    bad = np.argwhere(~(np.abs(got - want) <= 1e-9 * np.maximum(scale, np.abs(want))))
    if len(bad):
        i = tuple(int(z) for z in bad[0])
        c.fail("%s on %s is %r instead of %r at (scn, t)=%s" % (what, label, got[i], want[i], i), got=got, want=want)
    c.add("traces")
    c.add("transitions")


def graphs(n, h, loops=True):
    """every set of directed links between 3 nodes (self links too), in a network with a homonym neighbour network"""
    from mc.spec import node
    from mc.synth import Counter

    arcs = [(s, d) for s in "abc" for d in "abc" if loops or s != d]
    for bits in range(1 << len(arcs)):
        k = Counter()

        def q():
            return k.cells(n, h)

        ls = [a for i, a in enumerate(arcs) if bits >> i & 1]
        nets = {"default": {x: node(cons=[("l", q(), q())] if x != "c" else [], prod=[("g", q(), q())] if x != "a" else [],
                                    link=[(d, q(), q()) for s, d in ls if s == x]) for x in "abc"},
                "other": {x: node(cons=[("l", q(), q())], link=[(d, q(), q()) for s, d in (("b", "a"), ("b", "c")) if s == x]) for x in "bac"}}
        yield "graph-%d-%dx%d" % (bits, n, h), dict(h=h, n=n, nets=nets, conv={})


def run(ctx):
    import numpy as np
    import hadar as hd
    from mc import dump, spec as S, synth, analysis as A
    from mc.checks.c14 import reorder

    def one(c, t):
        label, sp, rev = t[:3]
        res = synth.result_of(sp)
        if len(t) > 3:
            sp, res = A.with_values(sp, t[3]), A.result_with(res, t[3])
            label += "-" + t[3]
        big = A.largest(res)
        if rev:
            res = reorder(res)
        agg = hd.ResultAnalyzer(S.build(sp), res)
        b, r = balances(sp, res), racs(sp, res)
        for net, nodes in sp["nets"].items():
            tot = np.zeros((sp["n"], sp["h"]))
            for nd in nodes:
                got = agg.get_balance(node=nd, network=net)
                same(c, label, "get_balance(%s, %s)" % (nd, net), got, b[(net, nd)], big)
                tot = tot + got
                if net == "default":
                    same(c, label, "get_balance(%s)" % nd, agg.get_balance(nd), b[(net, nd)], big)
            c.check(np.abs(tot).max() <= 1e-9 * big, "balances of network %s of %s do not sum to zero" % (net, label))
            same(c, label, "get_rac(%s)" % net, agg.get_rac(net), r[net], big)
        if "default" in sp["nets"]:
            same(c, label, "get_rac()", agg.get_rac(), r["default"], big)
        c.distinct.add((label, rev))

    tasks = [("rich-%dx%d" % s, A.rich(*s), rev) for s in [(1, 1), (2, 3), (1, 4), (4, 1), (3, 3), (12, 11), (1, 2000), (150, 2), (1, 8760), (1100, 1)] for rev in ((False, True) if s[0] * s[1] < 200 else (s[0] > 1,))]
    for n, h in ctx.pick([(2, 2)], [(2, 2), (1, 3), (3, 1), (2, 12)]):
        tasks += [(l, sp, False) for l, sp in graphs(n, h)]
        tasks += [("subset-%dx%d-%d" % (n, h, i), sp, i % 2 == 1) for i, sp in enumerate(synth.subset_specs(n, h))]
    tasks += [("names-%s-%d" % (k, sh), S.renamed(A.rich(2, 2), k, sh), sh == 5) for k in S.NAMES for sh in ctx.pick((0, 2, 5) if k.startswith("empty") else (0, 5), range(16))]
    tasks += [("crowd-%dx%d" % s, A.crowd(*s), rev) for s in ctx.pick([(2, 2)], [(1, 1), (2, 2), (1, 3), (11, 2)]) for rev in (False, True)]
    tasks += [("rich-%dx%d" % s, A.rich(*s), False, how) for how in A.VALUES for s in ctx.pick([(2, 3)], [(1, 1), (2, 3), (3, 2), (4, 4)])]
    core.fan_out(ctx, tasks, one)

    # histories of analysis operations
    sp = A.rich(2, 3)

    def ops():
        coord = dict(a=[1, 2], b=[3, 1], c=[4, 4], d=[2, 2])

        def plot(f):
            def g(agg):
                p = hd.HTMLPlotting(agg=agg, node_coord=coord)
                return f(p.network("default")).to_plotly_json()
            return g

        return [
            ("query", lambda g: g.network().scn(1).node().consumption().time()),
            ("query-full", lambda g: g.network("gas").node("a").production("gen").scn(0).time(1)),
            ("cost", lambda g: g.get_cost()),
            ("cost-node", lambda g: g.get_cost(node="b", network="gas")),
            ("balance", lambda g: g.get_balance("a")),
            ("rac", lambda g: g.get_rac("gas")),
            ("inside", lambda g: g.get_elements_inside(network="default")),
            ("stack", plot(lambda n: n.node("a").stack(scn=1))),
            ("map", plot(lambda n: n.map(t=1, zoom=2))),
            ("matrix", plot(lambda n: n.rac_matrix())),
            ("monotone", plot(lambda n: n.node("a").production("gen").monotone(scn=1))),
            ("gaussian", plot(lambda n: n.node("b").from_converter("cv").gaussian(t=1))),
            ("candles", plot(lambda n: n.node("a").storage("big").candles(scn=1))),
            ("timeline", plot(lambda n: n.node("a").link("b").timeline()))]

    def canon(v):
        import pandas as pd

        if isinstance(v, pd.DataFrame):
            return (list(v.index.names), [repr(i) for i in v.index], list(v.columns), v.values.tolist())
        if isinstance(v, np.ndarray):
            return ("array", v.shape, v.tolist())
        if isinstance(v, dict):
            return {k: canon(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [canon(x) for x in v]
        return repr(v)

    def spoil(v):
        import pandas as pd

        if isinstance(v, pd.DataFrame):
            v.iloc[:, :] = -7
        elif isinstance(v, np.ndarray) and v.dtype.kind == "f":
            v[...] = -7

    table = ops()
    base_res = synth.result_of(sp)
    fresh = {}
    for name, f in table:
        fresh[name] = canon(f(hd.ResultAnalyzer(S.build(sp), synth.result_of(sp))))
    depth = ctx.pick(2, 3)
    ref_study, ref_res = dump.study(S.build(sp)), dump.result(base_res)

    def hist(c, t):
        for tail in itertools.product(range(len(table)), repeat=depth - 1):
            seq = (t,) + tail
            st, res = S.build(sp), synth.result_of(sp)
            agg = hd.ResultAnalyzer(st, res)
            for i in seq:
                name, f = table[i]
                v = f(agg)
                c.check(canon(v) == fresh[name], "answer of %s differs after %s" % (name, [table[j][0] for j in seq]))
                spoil(v)
                c.add("transitions")
                c.add("traces")
            for d in (dump.diff(dump.study(st), ref_study), dump.diff(dump.result(res), ref_res)):
                c.check(d is None, "analysis %s altered its input: %s" % ([table[j][0] for j in seq], d))
            c.distinct.add(seq)
        c.sample([table[j][0] for j in seq], cap=3)

    core.fan_out(ctx, list(range(len(table))), hist)
    ctx.add("states", len(ctx.distinct))
    ctx.notes["operation_depth"] = depth
