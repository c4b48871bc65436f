import copy
import json

from mc import core, lp, pool

TITLE = "A result survives JSON unchanged"
LEVEL = "exploration"
RULE = ("every synthetic result (all subsets of element kinds, every cell different, several sizes) and every answer of LPOptimizer on the "
        "bounded families: from_json(to_json()), direct, through text, and a second time from the same dictionary, has the same content, "
        "shapes and benchmark, equals the original, analyses the same; neither is altered. Non-trivial: distinct serialized text.")
ASSUMPTIONS = []

lp.prepare()


def run(ctx):
    import numpy as np
    import hadar as hd
    from hadar.optimizer.domain.output import Result
    from mc import spec as S, dump, synth, families, analysis as A

    its = [("synthetic-%dx%d" % (n, h), sp, False) for n, h in ((2, 3), (1, 1), (3, 1), (1, 4)) for sp in synth.subset_specs(n, h)]
    its += [("names-%s-%d" % (k, sh), S.renamed(A.rich(2, 2), k, sh), False) for k in S.NAMES for sh in ctx.pick((0, 5), range(16))]
    its += [("joined-%r" % k, S.joined(k), False) for k in S.SEPARATORS]
    its += [("crowd", A.crowd(2, 2), False)] + [("rich-%dx%d" % s, A.rich(*s), False) for s in ((1, 2000), (150, 2))]
    its += [(i["name"], i["spec"], True) for i in families.items(ctx, ["forms", "ladder", "mixed", "converter", "storages", "crowd", "late"])]

    def one(c, t):
        name, sp, solve = t
        if solve:
            pool.set_schedule(pool.Schedule())
            r = S.solve(S.build(sp))
        else:
            r = synth.result_of(sp)
        want = dump.result(r)
        bench = (list(r.benchmark.modeler), list(r.benchmark.solver), r.benchmark.mapper, r.benchmark.total)
        d1 = r.to_json()
        text = json.dumps(d1)
        keep = copy.deepcopy(d1)
        c.check(dump.diff(dump.result(r), want) is None, "to_json altered the result [%s]" % name)
        for how, src in (("dictionary", d1), ("text", json.loads(text)), ("dictionary again", d1)):
            back = Result.from_json(src)
            d = dump.diff(dump.result(back), want)
            c.check(d is None, "result read back from %s differs: %s [%s]" % (how, d, name), study=lp.show(sp))
            S.extract(sp, back)
            b = back.benchmark
            c.check((list(b.modeler), list(b.solver), b.mapper, b.total) == bench, "benchmark differs [%s]" % name)
            c.check(how == "text" or src == keep, "from_json altered its input [%s]" % name)
            c.check(json.dumps(back.to_json()) == text, "second serialization differs [%s]" % name)
            c.check(back == r and not (back != r), "result read back from %s is not equal to the original [%s]" % (how, name))
            c.add("evaluations")
        # own memory
        back = Result.from_json(d1)
        for net in back.networks.values():
            for nd in net.nodes.values():
                for e in nd.consumptions + nd.productions + nd.links:
                    e.quantity += 1
        c.check(dump.diff(dump.result(r), want) is None and d1 == keep, "copy shares memory with the original [%s]" % name)
        if not solve:
            st = S.build(sp)
            a, b = hd.ResultAnalyzer(st, r), hd.ResultAnalyzer(st, Result.from_json(json.loads(text)))
            c.check(np.array_equal(a.get_cost(), b.get_cost()), "analysis of the copy differs [%s]" % name)
        c.distinct.add(hash(text))
        c.sample(text[:400], cap=3)

    core.fan_out(ctx, its, one)
