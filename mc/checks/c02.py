from mc import lp

TITLE = "Storage levels follow the flows and stay within bounds"
LEVEL = "model_checking"
RULE = ("every study with storages of the bounded families; each scenario answered by LPOptimizer is one trace of (level, flow_in, "
        "flow_out) per storage, validated step by step against the storage automaton: level' = level + eff*in - out starting at "
        "init_capacity, level <= capacity, flows <= their maxima, all >= 0. states: distinct (storage, t, level) met, transitions: steps.")
ASSUMPTIONS = ["float tolerance 1e-5", "init_capacity is a plain number"]

lp.prepare()


def run(ctx):
    import numpy as np
    from mc import spec as S

    def judge(c, it, x):
        sp = it["spec"]
        bad = S.issues_storage(sp, x)
        c.check(not bad, bad and bad[0], scn=lp.first_scn(bad[0]) if bad else None, all=bad[:5])
        for net, nodes in sp["nets"].items():
            for nd, e in nodes.items():
                for s, v in zip(e["stor"], x["nets"][net][nd]["stor"]):
                    lv = np.round(v["level"], 6)
                    for t in range(sp["h"]):
                        for k in np.unique(lv[:, t]):
                            c.distinct.add(hash((it["name"], net, nd, s["name"], t, float(k))))
                    c.add("transitions", sp["n"] * sp["h"])
                    if (v["fin"] > 1e-6).any() and (v["fout"] > 1e-6).any():
                        c.add("storages_charging_and_discharging")
        c.add("traces", sp["n"])
        c.sample(lp.show(sp), cap=2)

    lp.explore(ctx, ["storage", "storage_time", "storages", "mixed", "rewarded", "subsets", "ladder", "costs", "fractions", "crowd", "late", "year", "names", "forms"], judge, lp.has("stor"))
    ctx.add("states", len(ctx.distinct))
