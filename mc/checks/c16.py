from mc import core, lp

TITLE = "Reported costs add up to the objective, node by node"
LEVEL = "exploration"
RULE = ("get_cost of every node, of every network and of the study on: synthetic (study, result) pairs with a different number in every cell "
        "(all subsets of element kinds x links x converters, several sizes, result dictionaries in both orders), compared cell by cell with the "
        "documented cost; and on the genuine answers of LPOptimizer for bounded study families, compared with the optimum found by explicit "
        "state enumeration of the reference model. Non-trivial: distinct (pair, scope).")
ASSUMPTIONS = ["cost of a node = shed load cost + use cost of its productions, outgoing links and incoming converters + holding cost of its storages",
               "tolerance 1e-5"]

lp.prepare()


def node_costs(sp, res):
    """{(network, node): (n, h) matrix} our own reading"""
    import numpy as np
    from mc.spec import mat

    out = {}
    for net, nodes in sp["nets"].items():
        for nd, e in nodes.items():
            r = res.networks[net].nodes[nd]
            tot = np.zeros((sp["n"], sp["h"]))
            for (_, c, q), x in zip(e["cons"], r.consumptions):
                tot = tot + mat(sp, c) * (mat(sp, q) - np.asarray(x.quantity))
            for (_, c, q), x in zip(e["prod"], r.productions):
                tot = tot + mat(sp, c) * np.asarray(x.quantity)
            for (_, c, q), x in zip(e["link"], r.links):
                tot = tot + mat(sp, c) * np.asarray(x.quantity)
            for s, x in zip(e["stor"], r.storages):
                tot = tot + mat(sp, s["cost"]) * np.asarray(x.capacity)
            out[(net, nd)] = tot
    for name, c in sp["conv"].items():
        out[c["dest"]] = out[c["dest"]] + mat(sp, c["cost"]) * np.asarray(res.converters[name].flow_dest)
    return out


def compare(c, label, what, got, want, scale=None):
    import numpy as np

    got = np.asarray(got, dtype=float)
    c.check(got.shape == want.shape, "%s on %s has shape %s instead of %s" % (what, label, got.shape, want.shape))
    tol = 1e-5 * np.maximum(1, np.abs(want)) if scale is None else scale * max(1e-7, np.abs(want).max())
    bad = np.argwhere(~(np.abs(got - want) <= tol))
    if len(bad):
        i = tuple(int(z) for z in bad[0])
        c.fail("%s on %s is %r instead of %r at (scn, t)=%s" % (what, label, got[i], want[i], i), got=got, want=want)
    c.add("evaluations")
    c.distinct.add((label, what))


def scopes(c, label, sp, agg, res, scale=None):
    import numpy as np

    ref = node_costs(sp, res)
    zero = np.zeros((sp["n"], sp["h"]))
    for net, nodes in sp["nets"].items():
        for nd in nodes:
            compare(c, label, "get_cost(node=%s, network=%s)" % (nd, net), agg.get_cost(node=nd, network=net), ref[(net, nd)], scale)
            if net == "default":
                compare(c, label, "get_cost(node=%s)" % nd, agg.get_cost(node=nd), ref[(net, nd)], scale)
        if nodes:
            compare(c, label, "get_cost(network=%s)" % net, agg.get_cost(network=net), sum((ref[(net, nd)] for nd in nodes), zero), scale)
    tot = sum(ref.values(), zero)
    compare(c, label, "get_cost()", agg.get_cost(), tot, scale)
    return tot


def run(ctx):
    import numpy as np
    import hadar as hd
    from mc import pool, ref, spec as S, synth, analysis as A
    from mc.checks.c14 import reorder

    def one(c, t):
        label, sp, rev = t[:3]
        res = synth.result_of(sp)
        if len(t) > 3:
            sp, res = A.with_values(sp, t[3]), A.result_with(res, t[3])
            label += "-" + t[3]
        if rev:
            res = reorder(res)
        scopes(c, label + ("-reversed" if rev else ""), sp, hd.ResultAnalyzer(S.build(sp), res), res, scale=1e-9 if len(t) > 3 else None)
        c.sample(dict(study=label, reversed=rev), cap=3)

    sizes = ctx.pick([(1, 1), (2, 3), (1, 4), (4, 1), (3, 3), (12, 11)], [(n, h) for n in (1, 2, 3, 4) for h in (1, 2, 3, 4)] + [(12, 11), (3, 25)])
    tasks = [("rich-%dx%d" % (n, h), A.rich(n, h), rev) for n, h in sizes + [(1, 2000), (150, 2), (1, 8760), (1100, 1)] for rev in ((False, True) if n * h < 200 else (n > 1,))]
    tasks += [("subset-%dx%d-%d" % (n, h, i), sp, rev) for n, h in ctx.pick([(2, 2)], [(2, 2), (1, 3), (3, 1)])
              for i, sp in enumerate(synth.subset_specs(n, h)) for rev in ctx.pick((i % 2 == 1,), (False, True))]
    tasks += [("names-%s-%d" % (k, sh), S.renamed(A.rich(2, 2), k, sh), sh == 5) for k in S.NAMES for sh in ctx.pick((0, 2, 5) if k.startswith("empty") else (0, 5), range(16))]
    tasks += [("crowd-%dx%d" % s, A.crowd(*s), rev) for s in ctx.pick([(2, 2)], [(1, 1), (2, 2), (1, 3), (11, 2)]) for rev in (False, True)]
    tasks += [("rich-%dx%d" % s, A.rich(*s), False, how) for how in A.VALUES for s in ctx.pick([(2, 3)], [(1, 1), (2, 3), (3, 2), (4, 4)])]
    core.fan_out(ctx, tasks, one)

    its = [i for i in lp.specs_of(ctx, ["elements", "networks", "converter", "storages", "mixed"]) if i["ref"]]

    def solved(c, it):
        sp = it["spec"]
        pool.set_schedule(pool.Schedule())
        st = S.build(sp)
        res = S.solve(st)
        tot = scopes(c, it["name"], sp, hd.ResultAnalyzer(st, res), res)
        if it["ref"][0] == "grid":
            compare(c, it["name"], "get_cost() against the cheapest dispatch", tot, ref.grid_best(sp, it["ref"][1]))
        elif it["ref"][4]:
            m = ref.Model(sp, *it["ref"][1:4])
            compare(c, it["name"], "total of get_cost() against the cheapest dispatch", tot.sum(axis=1), np.array([m.best(s) for s in range(sp["n"])]))

    core.fan_out(ctx, its, solved)
    ctx.notes["solved_studies"] = len(its)
