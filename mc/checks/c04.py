from mc import lp

TITLE = "No admissible dispatch is cheaper than the answer"
LEVEL = "model_checking"
RULE = ("for every study of the bounded families, all admissible dispatches on the lattice (link flows, converter outputs, storage "
        "flows and levels, productions, shed loads) are enumerated by the explicit-state model (mc/ref.py); the cost of the answer of "
        "LPOptimizer must not exceed the cheapest path, and must equal it where the lattice contains an optimum. states: (t, storage "
        "levels) reached; transitions: dispatch choices enumerated; traces: scenarios of the real answer compared.")
ASSUMPTIONS = ["cost = shed load cost + use cost of productions, links and converter output + holding cost of storage level",
               "non-integral optima outside the lattice may be cheaper: then only <= is decided; families are chosen so that it does not "
               "happen on the recorded tree", "tolerance 1e-5"]

lp.prepare()


def run(ctx):
    import numpy as np
    from mc import spec as S, ref

    def judge(c, it, x):
        sp = it["spec"]
        cost = S.cost_of(sp, x) / it["factor"]
        sp = it["base"]
        st0, tr0 = ref.Stats.states, ref.Stats.transitions
        if it["ref"][0] == "grid":
            best = ref.grid_best(sp, it["ref"][1])
            bad = np.argwhere(cost > best + 1e-5 * np.maximum(1, np.abs(best)))
            if len(bad):
                s, t = (int(k) for k in bad[0])
                c.fail("cost of the answer is %r at (scn, t)=(%d, %d) but a dispatch costs %r" % (cost[s, t], s, t, best[s, t]), scn=s)
            low = np.argwhere(cost < best - 1e-5 * np.maximum(1, np.abs(best)))
            if len(low):  # integer data: best is the exact optimum, nothing admissible is cheaper
                s, t = (int(k) for k in low[0])
                c.fail("cost of the answer is %r at (scn, t)=(%d, %d), below the optimum %r: answer is not admissible" % (cost[s, t], s, t, best[s, t]), scn=s)
            c.add("traces", sp["n"] * sp["h"])
        elif it["ref"][0] == "known":
            tot = cost.sum(axis=1)
            for s, b in enumerate(it["ref"][1]):
                c.check(abs(tot[s] - b) <= 1e-5 * max(1, abs(b)), "cost of the answer is %r for scenario %d instead of %r" % (tot[s], s, b), scn=s)
                c.add("traces")
        else:
            m = ref.Model(sp, *it["ref"][1:4])
            tot = cost.sum(axis=1)
            for s in range(sp["n"]):
                b = m.best(s)
                c.check(b is not None, "harness: no lattice path", scn=s)
                c.check(tot[s] <= b + 1e-5 * max(1, abs(b)),
                        "cost of the answer is %r for scenario %d but a dispatch costs %r" % (tot[s], s, b), scn=s)
                if it["ref"][4]:
                    c.check(tot[s] >= b - 1e-5 * max(1, abs(b)),
                            "cost of the answer is %r for scenario %d, below the optimum %r: answer is not admissible" % (tot[s], s, b), scn=s)
                elif tot[s] < b - 1e-5:
                    c.add("answers_below_lattice")
                c.add("traces")
        c.add("states", ref.Stats.states - st0)
        c.add("transitions", ref.Stats.transitions - tr0)
        c.sample(dict(study=lp.show(sp), cost_of_answer=cost[0].tolist()), cap=2)

    names = ["topology", "topology4", "elements", "networks", "storage", "storage_time", "storages", "converter", "ratios", "mixed", "rewarded", "subsets", "ladder", "costs", "fractions", "crowd", "late", "year", "names"]
    from mc import core
    todo = [i for i in lp.specs_of(ctx, names) if i["ref"]]

    def one(c, it):
        for how, x in lp.answers(c, it):
            try:
                judge(c, it, x)
            except core.Violation as e:
                d = dict(e.data or {}, study_family=it["name"], solved_with=how)
                d["study"] = lp.show(it["spec"], d.pop("scn", None))
                raise core.Violation("%s [study %s]" % (e.what, it["name"]), d)

    core.fan_out(ctx, todo, one)

    # names which read the same once put together: the dispatch costs what it costs under plain names
    def renamed(c, sep):
        sp = S.joined(sep)
        words = {}
        plain = S.renamed(sp, lambda x: words.setdefault(x, "w%d" % len(words)))
        cost = [S.cost_of(y, S.extract(y, S.solve(S.build(y)))).sum(axis=1) for y in (sp, plain)]
        c.check(np.allclose(*cost, rtol=1e-5), "names joined by %r: cost of the answer is %s, but %s under other names" % (sep, cost[0].tolist(), cost[1].tolist()), study=lp.show(sp))
        c.add("traces", 2)

    core.fan_out(ctx, list(S.SEPARATORS), renamed)
    ctx.notes["studies"] = len(todo)
