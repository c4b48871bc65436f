import itertools

from mc import core

TITLE = "Analyzer tables report each quantity of the right element, scenario and time"
LEVEL = "exploration"
RULE = ("synthetic (study, result) pairs where every cell holds a different number: all subsets of element kinds x sizes, homonyms in several "
        "nodes and networks, several converters sharing nodes, result dictionaries in another order; for each of the six element kinds, each "
        "network, node and element: the query answers exactly the rows and columns of the reference table. Non-trivial: distinct (pair, query).")
ASSUMPTIONS = ["queries on elements which exist"]


def reorder(r):
    """same result, dictionaries in reverse order"""
    r.networks = dict(reversed(list(r.networks.items())))
    for net in r.networks.values():
        net.nodes = dict(reversed(list(net.nodes.items())))
    r.converters = dict(reversed(list(r.converters.items())))
    for cv in r.converters.values():
        cv.flow_src = dict(reversed(list(cv.flow_src.items())))
    return r


def run(ctx):
    import hadar as hd
    from mc import spec as S, synth, analysis as A

    def one(c, t):
        label, sp, rev = t[:3]
        res = synth.result_of(sp)
        if len(t) > 3:
            sp, res = A.with_values(sp, t[3]), A.result_with(res, t[3])
            label += "-" + t[3]
        st = S.build(sp)
        if rev:
            res = reorder(res)
        agg = hd.ResultAnalyzer(st, res)
        for kind in A.KINDS:
            tab = A.table(sp, res, kind)
            if not tab:
                continue
            nets = sorted({k[0] for k in tab})
            qs = [dict(network=net) for net in nets]
            qs += [dict(network=net, node=nd) for net, nd in sorted({k[:2] for k in tab})]
            qs += [dict(network=net, node=nd, element=e) for net, nd, e in sorted({k[:3] for k in tab})]
            qs += [dict(network=net, element=e) for net, e in sorted({(k[0], k[2]) for k in tab})]
            for s in sorted({0, sp["n"] - 1}):
                qs += [dict(network=net, scn=s) for net in nets]
                qs += [dict(network=k[0], node=k[1], element=k[2], scn=s) for k in sorted({k[:3] for k in tab})]
            for x in sorted({0, sp["h"] - 1}):
                qs += [dict(network=net, t=x) for net in nets]
            for f in qs:
                df = A.ask(agg, kind, A.LEVELS, f)
                p = A.problem(df, tab, kind, A.LEVELS, f)
                c.check(p is None, "query %s %s on %s: %s" % (kind, f, label, p), study=label, answer=str(df)[:1500])
                c.add("evaluations")
                c.distinct.add((label, rev, kind, tuple(sorted(f.items()))))
        # names of the study
        for net in sp["nets"]:
            c.check(sorted(agg.nodes(net)) == sorted(sp["nets"][net]), "nodes(%s) is %s" % (net, agg.nodes(net)))
        c.check((agg.horizon, agg.nb_scn) == (sp["h"], sp["n"]), "sizes differ")
        # number of elements
        tot = [0] * 6
        for net, nodes in sp["nets"].items():
            sub = [0] * 6
            for nd, e in nodes.items():
                w = [len(e["cons"]), len(e["prod"]), len(e["stor"]), len(e["link"]),
                     sum((net, nd) in [s for s, _ in v["src"]] for v in sp["conv"].values()), sum(v["dest"] == (net, nd) for v in sp["conv"].values())]
                got = list(agg.get_elements_inside(node=nd, network=net))
                c.check(got == w, "elements inside %s/%s are %s instead of %s" % (net, nd, got, w), study=label)
                sub = [a + b for a, b in zip(sub, w)]
            got = list(agg.get_elements_inside(network=net))
            c.check(got == sub, "elements inside %s are %s instead of %s" % (net, got, sub), study=label)
            tot = [a + b for a, b in zip(sub, tot)]
        got = list(agg.get_elements_inside())
        c.check(got == tot, "elements inside study are %s instead of %s" % (got, tot), study=label)
        c.sample(dict(study=label, reversed=rev))

    sizes = ctx.pick([(1, 1), (2, 3), (3, 2), (1, 4), (4, 1)], [(n, h) for n in (1, 2, 3, 4) for h in (1, 2, 3, 4)])
    tasks = [("rich-%dx%d" % (n, h), A.rich(n, h), rev) for n, h in sizes + [(12, 11), (3, 25), (1, 400), (150, 2)] for rev in ((False, True) if n * h < 200 else (n > 1,))]
    sub = ctx.pick([(2, 2)], [(2, 2), (1, 3), (3, 1)])
    tasks += [("subset-%dx%d-%d" % (n, h, i), sp, rev) for n, h in sub for i, sp in enumerate(synth.subset_specs(n, h)) for rev in ctx.pick((i % 2 == 1,), (False, True))]
    # same pair under other names: prefixes of one another, patterns, cases, spaces, digits, empty...
    tasks += [("names-%s-%d" % (k, sh), S.renamed(A.rich(2, 2), k, sh), sh == 5) for k in S.NAMES for sh in ctx.pick((0, 2, 5) if k.startswith("empty") else (0, 5), range(16))]
    # many elements, and other numbers in the same places: fractional, tiny, huge, null, negative costs
    tasks += [("crowd-%dx%d" % s, A.crowd(*s), rev) for s in ctx.pick([(2, 2)], [(1, 1), (2, 2), (1, 3), (11, 2)]) for rev in (False, True)]
    tasks += [("rich-%dx%d" % s, A.rich(*s), False, how) for how in A.VALUES for s in ctx.pick([(2, 3)], [(1, 1), (2, 3), (3, 2), (4, 4)])]
    core.fan_out(ctx, tasks, one)
