from mc import lp, core

TITLE = "Every answer balances every node and respects every capacity"
LEVEL = "exploration"
RULE = ("one evaluation per (study of the bounded families, scenario, time step): the dispatch found by LPOptimizer is replayed "
        "through the model's transition relation (node balance with imports, exports, storages and converters; bounds of every "
        "element; structure mirrors the study). Non-trivial: a distinct dispatch vector with at least one non-zero flow.")
ASSUMPTIONS = ["float tolerance 1e-5 relative to the largest quantity at the node (1e-9 on the studies with ample capacity)",
               "values come from the small alphabets of mc/families.py"]

lp.prepare()


def exact(ctx):
    """ample cheap capacity: the load is given to the last digit, wherever it is produced"""
    import numpy as np
    from mc import spec as S
    from mc.spec import node

    vals = [1 / 3, 0.1, 1e-3, 2 / 7, 123456.789, 99.999, 1e6 + 1 / 3, 5.0, 0.0, 1e-5, 7777777.7]
    h = len(vals)
    q = np.array([vals, [v * 1.5 for v in vals[::-1]]])
    local = dict(h=h, n=2, conv={}, nets={"default": {"a": node(cons=[("load", 1000, q)], prod=[("gen", 1, 1e8)])}})
    linked = dict(h=h, n=2, conv={}, nets={"default": {"a": node(prod=[("gen", 1, 1e8)], link=[("b", 1, 1e8)]), "b": node(cons=[("load", 1000, q)])}})
    scarce = dict(h=h, n=2, conv={}, nets={"default": {"a": node(cons=[("load", 1000, q + 1)], prod=[("gen", 1, q)])}})
    full = dict(h=h, n=2, conv={}, nets={"default": {"a": node(cons=[("load", 0.5, q)], prod=[("gen", 1, q)])}})
    for name, sp in (("local", local), ("linked", linked), ("scarce", scarce), ("useless", full)):
        for how in ("controlled", "real"):
            if how == "real":
                from mc import pool
                with pool.real_pool():
                    x = S.extract(sp, S.solve(S.build(sp)))
            else:
                x = S.extract(sp, S.solve(S.build(sp)))
            want = q if name in ("local", "linked", "scarce") else 0 * q
            for nd, kind in (("b" if name == "linked" else "a", "cons"), ("a", "prod")) + ((("a", "link"),) if name == "linked" else ()):
                got = x["nets"]["default"][nd][kind][0]
                bad = np.abs(got - want) > 1e-9 * np.maximum(1, want)
                if bad.any():
                    i = tuple(int(k) for k in np.argwhere(bad)[0])
                    ctx.fail("study %s: %s is %r instead of %r at (scn, t)=%s" % (name, kind, got[i], want[i], i), study=lp.show(sp))
            ctx.add("evaluations", q.size)
            ctx.distinct.add(("exact", name, how))


def run(ctx):
    from mc import spec as S, families

    def judge(c, it, x):
        sp = it["spec"]
        bad = S.issues_balance(sp, x)
        c.check(not bad, bad and bad[0], scn=lp.first_scn(bad[0]) if bad else None, all=bad[:5])
        flat = [v for nodes in x["nets"].values() for r in nodes.values()
                for v in r["cons"] + r["prod"] + r["link"] + [w for s in r["stor"] for w in (s["fin"], s["fout"])]]
        flat += [v["dest"] for v in x["conv"].values()]
        c.add("evaluations", sp["n"] * sp["h"])
        for s in range(sp["n"]):
            for t in range(sp["h"]):
                key = tuple(round(float(v[s, t]), 6) for v in flat)
                if any(key):
                    c.distinct.add(hash((it["name"], key)))
        if sp["n"]:
            c.sample(lp.show(sp), cap=2)

    exact(ctx)
    lp.explore(ctx, list(families.ALL), judge)
