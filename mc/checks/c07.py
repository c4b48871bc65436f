import copy
import itertools

from mc import core, lp, pool

TITLE = "Solving changes nothing and depends on nothing but the study"
LEVEL = "model_checking"
RULE = ("all histories up to the depth bound over {solve one of 4 studies with a shared or fresh optimizer, extend a study, solve after "
        "copy or JSON round trip, analyse, refused solve}: after each step every study still reads as the reference model says and every "
        "answer equals the answer of the same study built and solved in a fresh state. Then every study of the bounded families: same content, order and document before and after it is solved twice. states: history prefixes and studies; transitions: operations.")
ASSUMPTIONS = ["studies have a unique optimum", "depth bound 3 (quick), 4 (thorough)"]

lp.prepare()


def run(ctx):
    import numpy as np
    import hadar as hd
    from mc import spec as S, uniq, dump
    from mc.spec import node, stor

    infeasible = dict(h=1, n=1, conv={}, nets={"default": {"a": node(cons=[("load", 5, 1)], stor=[stor("cell", 1, 1, 1, 0, 9, 1)])}})
    start = [uniq.simple(2), uniq.base(2, 3), uniq.simple(1, 1, shift=4), infeasible]

    fresh = {}

    def timings(r):
        return len(r.benchmark.modeler), len(r.benchmark.solver)

    def expected(i, sp, ext):
        k = (i, ext)
        if k not in fresh:
            pool.set_schedule(pool.Schedule())
            r = S.solve(S.build(sp))
            fresh[k] = (S.extract(sp, r), timings(r))
            ctx.check(timings(r) == (sp["n"], sp["n"]), "a solve of %d scenarios reports %s modelling and solving times" % (sp["n"], timings(r)))
        return fresh[k]

    def ext_spec(sp, k, what):
        sp = copy.deepcopy(sp)
        net = list(sp["nets"])[0]
        nd = list(sp["nets"][net])[0]
        new = "new%d" % k
        if what == "extend node":
            sp["nets"][net][new] = node(prod=[("gen", 0.3 + k, 1.75)], stor=[stor("cell", 3, 2, 2, 0.02, 1, 0.5)])
            sp["nets"][net][new]["link"].append((nd, 0.1, 2.5))
            sp["nets"][net][nd]["stor"].append(stor(new, 3, 2, 2, 0.03, 1, 0.75))
            sp["nets"][net][nd]["link"].append((new, 0.2, 0.5))
            return sp
        if what == "extend network":
            sp["nets"][new] = {"a": node(prod=[("gen", 0.2 + k, 1.5)])}
            sp["conv"][new] = dict(src=[((new, "a"), 0.5)], dest=(net, nd), cost=0.05, max=1.25)
            for c in list(sp["conv"])[:1]:
                if c != new:
                    sp["conv"][c]["src"].append(((new, "a"), 2))
            return sp
        sp["nets"][net][nd]["cons"].append(("more%d" % k, 700 + k, 1.5))
        sp["nets"][net][nd]["prod"].append(("more%d" % k, 0.7 + k, 1.25))
        return sp

    def ext_real(study, sp, k, what):
        net = list(sp["nets"])[0]
        nd = list(sp["nets"][net])[0]
        new = "new%d" % k
        if what == "extend node":
            (study.network(net).node(new).production(name="gen", cost=0.3 + k, quantity=1.75).storage(name="cell", capacity=3, flow_in=2, flow_out=2, cost=0.02, init_capacity=1, eff=0.5)
             .node(nd).storage(name=new, capacity=3, flow_in=2, flow_out=2, cost=0.03, init_capacity=1, eff=0.75)
             .link(src=new, dest=nd, cost=0.1, quantity=2.5).link(src=nd, dest=new, cost=0.2, quantity=0.5))
            return
        if what == "extend network":
            study.network(new).node("a").production(name="gen", cost=0.2 + k, quantity=1.5).to_converter(name=new, ratio=0.5) \
                 .network(net).converter(name=new, to_network=net, to_node=nd, cost=0.05, max=1.25)
            for c in list(sp["conv"])[:1]:
                study.network(new).node("a").to_converter(name=c, ratio=2)
            return
        study.network(net).node(nd).consumption(name="more%d" % k, cost=700 + k, quantity=1.5).production(name="more%d" % k, cost=0.7 + k, quantity=1.25)

    alphabet = [("solve", 0), ("solve", 1), ("solve", 2), ("refused", 3), ("extend", 0), ("extend", 1), ("extend node", 0), ("extend network", 1), ("json", 0), ("copy", 1), ("analyse", 1), ("real", 0), ("twist", 1)]
    depth = ctx.pick(3, 4)
    hist = list(itertools.product(alphabet, repeat=depth))
    if ctx.thorough:
        hist = [x for x in hist if sum(op == "real" for op, _ in x) <= 1]

    def play(c, h):
        pool.set_schedule(pool.Schedule())
        specs = [copy.deepcopy(s) for s in start]
        studies = [S.build(s) for s in specs]
        exts = [()] * 4
        opt = hd.LPOptimizer()
        kept = []
        for op, i in h:
            c.add("transitions")
            if op in ("solve", "real", "json", "copy", "analyse", "twist"):
                st = studies[i]
                if op == "json":
                    st = hd.Study.from_json(st.to_json())
                if op == "copy":
                    st = copy.deepcopy(st)
                if op == "real":
                    with pool.real_pool():
                        r = S.solve(st)
                elif op == "twist":
                    r = opt.solve(st)
                    for net in r.networks.values():
                        for nd in net.nodes.values():
                            for e in nd.consumptions + nd.productions + nd.links:
                                e.quantity[:] = -77  # spoil our copy of the answer: nobody else may notice
                    r = opt.solve(st)
                else:
                    r = opt.solve(st)
                if op == "analyse":
                    a = hd.ResultAnalyzer(st, r)
                    a.get_cost()
                    for net in specs[i]["nets"]:
                        a.get_rac(net)
                        for nd in specs[i]["nets"][net]:
                            a.get_balance(nd, net)
                    a.network(list(specs[i]["nets"])[0]).node().scn().time().consumption()
                x = S.extract(specs[i], r)
                want, times = expected(i, specs[i], exts[i])
                d = uniq.differ(x, want)
                if d is None and timings(r) != times:
                    d = "%s timings instead of %s" % (timings(r), times)
                c.check(d is None, "answer of study %d after history %s differs from the one in a fresh state: %s" % (i, h, d), history=h)
                kept.append((r, dump.result(r)))
            elif op == "refused":
                try:
                    opt.solve(studies[i])
                    c.fail("infeasible study answered", history=h)
                except core.Violation:
                    raise
                except Exception:
                    pass
            elif op.startswith("extend"):
                ext_real(studies[i], specs[i], len(exts[i]), op)
                specs[i] = ext_spec(specs[i], len(exts[i]), op)
                exts[i] += (op,)
            for k in range(4):
                d = dump.diff(dump.study(studies[k]), dump.of_spec(specs[k]))
                c.check(d is None, "study %d changed after %s of history %s: %s" % (k, (op, i), h, d), history=h)
            for r, was in kept:
                d = dump.diff(dump.result(r), was)
                c.check(d is None, "an earlier answer changed after %s of history %s: %s" % ((op, i), h, d), history=h)
        c.add("traces")
        c.distinct |= {h[:k] for k in range(1, len(h) + 1)}
        c.sample([list(x) for x in h])

    core.fan_out(ctx, hist, play)

    # whatever the study is made of: same content, same order, same document after it was solved
    from mc import families

    def order(st):
        return [(net, [(nd, [e.name for e in x.consumptions], [e.name for e in x.productions], [e.name for e in x.storages], [e.dest for e in x.links])
                       for nd, x in network.nodes.items()]) for net, network in st.networks.items()], [(k, list(c.src_ratios)) for k, c in st.converters.items()]

    def content(c, it):
        pool.set_schedule(pool.Schedule())
        st = S.build(it["spec"])
        was = dump.study(st), order(st), copy.deepcopy(st.to_json())
        for again in range(2):
            try:
                S.solve(st)
            except Exception:
                pass  # whether it has an answer is not the matter here
            now = dump.study(st), order(st), st.to_json()
            d = dump.diff(now[0], was[0])
            c.check(d is None, "study %s changed when solved: %s" % (it["name"], d), spec=it["spec"])
            c.check(now[1] == was[1], "order of study %s changed when solved: %s instead of %s" % (it["name"], now[1], was[1]), spec=it["spec"])
            d = dump.diff(now[2], was[2])
            c.check(d is None, "document of study %s changed when solved: %s" % (it["name"], d), spec=it["spec"])
            c.add("transitions")
        c.distinct.add(("content", it["name"]))

    core.fan_out(ctx, families.items(ctx, ["elements", "networks", "mixed", "rewarded", "subsets", "ladder", "crowd", "late", "names", "forms", "ratios"]), content)
    ctx.add("states", len(ctx.distinct))
