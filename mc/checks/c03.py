from mc import lp

TITLE = "Converters take ratio-exact inputs and respect their maximum output"
LEVEL = "exploration"
RULE = ("every study with converters of the bounded families (one to five and twelve sources, shared source, shared destination, chain, inside one "
        "network, with storages); one evaluation per (converter, source, scenario, t): output == source flow * ratio, 0 <= output <= max. "
        "Non-trivial: output > 0, counted by distinct (study, converter, ratio, output).")
ASSUMPTIONS = ["float tolerance 1e-5", "ratios are > 0", "a converter has at least one source and a destination"]

lp.prepare()


def run(ctx):
    from mc import spec as S

    def judge(c, it, x):
        sp = it["spec"]
        bad = S.issues_converter(sp, x)
        c.check(not bad, bad and bad[0], scn=lp.first_scn(bad[0]) if bad else None, all=bad[:5])
        for name, cv in sp["conv"].items():
            for s, r in cv["src"]:
                m = S.mat(sp, r)
                d = x["conv"][name]["dest"]
                c.add("evaluations", d.size)
                for i in range(sp["n"]):
                    for t in range(sp["h"]):
                        if d[i, t] > 1e-6:
                            c.distinct.add(hash((it["name"], name, s, float(m[i, t]), round(float(d[i, t]), 6))))
        c.sample(lp.show(sp), cap=2)

    lp.explore(ctx, ["converter", "ratios", "mixed", "rewarded", "subsets", "ladder", "costs", "fractions", "crowd", "late", "names", "forms"], judge, lambda sp: bool(sp.get("conv")))
