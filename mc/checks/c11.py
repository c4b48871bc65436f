import copy
import json

from mc import core, lp, pool

TITLE = "A study survives JSON unchanged"
LEVEL = "exploration"
RULE = ("every study of the bounded families and of the synthetic family (all subsets of element kinds, every cell different) x every form of "
        "value: from_json(to_json()), once and twice, direct and through text, reads the same, equals the original, solves the same; neither "
        "the study nor the dictionary is altered. Non-trivial: distinct serialized text.")
ASSUMPTIONS = ["complete converters only (a destination and at least one source)"]

lp.prepare()


def run(ctx):
    import hadar as hd
    import numpy as np
    from mc import spec as S, dump, synth, families, uniq, analysis as A

    def numpy_spec(t):
        """sizes and levels are numpy numbers of type t"""
        i = t if np.issubdtype(t, np.integer) else np.int64
        nets = {"e": {"a": S.node(cons=[("c", t(3), t(2))], stor=[S.stor("s", t(5), t(2), t(1), t(1), t(2), t(1))], link=[("b", t(1), t(2))]), "b": S.node(prod=[("p", t(1), t(3))])}}
        return dict(h=i(2), n=i(3), nets=nets, conv={"v": dict(src=[(("e", "a"), t(2))], dest=("e", "b"), cost=t(1), max=t(4))})

    its = [("synthetic", sp) for sp in synth.subset_specs()]
    its += [("synthetic-1x1", sp) for sp in synth.subset_specs(1, 1)]
    its += [("synthetic-3x1", sp) for sp in synth.subset_specs(3, 1)] + [("synthetic-1x4", sp) for sp in synth.subset_specs(1, 4)]
    its += [(i["name"], i["spec"]) for i in families.items(ctx, ["forms", "ladder", "mixed", "converter", "storages", "networks", "crowd", "late"])]

    its += [("names-%s-%d" % (k, sh), S.renamed(A.rich(2, 2), k, sh)) for k in S.NAMES for sh in ctx.pick((0, 5), range(16))]
    its += [("joined-%r" % k, S.joined(k)) for k in S.SEPARATORS] + [("crowd", A.crowd(2, 2))] + [("rich-%dx%d" % s, A.rich(*s)) for s in ((1, 2000), (150, 2))]
    its += [("values-" + k, A.with_values(A.rich(2, 3), k)) for k in A.VALUES]
    its += [("numpy-%s" % t.__name__, numpy_spec(t)) for t in (np.int8, np.uint8, np.int16, np.int32, np.int64, np.uint64, np.float16, np.float32, np.float64)]

    def one(c, t):
        name, sp = t
        st = S.build(sp)
        want = dump.of_spec(sp)
        d1 = st.to_json()
        text = json.dumps(d1)
        c.check(dump.diff(dump.study(st), want) is None, "study altered by to_json [%s]" % name)
        keep = copy.deepcopy(d1)
        for how, src in (("dictionary", d1), ("text", json.loads(text)), ("dictionary again", d1)):
            back = hd.Study.from_json(src)
            d = dump.diff(dump.study(back), want)
            c.check(d is None, "study read back from %s differs: %s [%s]" % (how, d, name), study=lp.show(sp))
            c.check(list(back.networks) == list(sp["nets"]) and list(back.converters) == list(sp["conv"]), "order changed [%s]" % name)
            c.check(back.version == st.version, "version is %r instead of %r" % (back.version, st.version))
            c.check(src == keep if how != "text" else src == json.loads(text), "from_json altered its input [%s]" % name)
            c.check(json.dumps(back.to_json()) == text, "second serialization differs from the first [%s]" % name, study=lp.show(sp))
            c.check(back == st and not (back != st), "study read back from %s is not equal to the original [%s]" % (how, name), study=lp.show(sp))
            # a study read back is a living one: it can be extended, and the original does not move
            back.network("extra").node("extra").consumption(name="extra", cost=1, quantity=[1.0] * sp["h"])
            for net in sp["nets"]:
                for nd in sp["nets"][net]:
                    back.network(net).node(nd).production(name="extra!", cost=2, quantity=3)
            c.check(dump.diff(dump.study(st), want) is None, "extending the copy changed the original [%s]" % name)
            c.check(src == keep if how != "text" else True, "extending the copy changed the dictionary [%s]" % name)
            c.add("evaluations")
        c.distinct.add(hash(text))
        c.sample(text[:400], cap=3)

    core.fan_out(ctx, its, one)

    def solved(c, t):
        name, sp = t
        pool.set_schedule(pool.Schedule())
        st = S.build(sp)
        a = S.extract(sp, S.solve(st))
        b = S.extract(sp, S.solve(hd.Study.from_json(json.loads(json.dumps(st.to_json())))))
        d = uniq.differ(a, b)
        c.check(d is None, "study read back from JSON solves differently: %s [%s]" % (d, name), study=lp.show(sp))
        c.add("evaluations")

    core.fan_out(ctx, [("simple%d%d" % (n, h), uniq.simple(n, h)) for n in (1, 2, 3) for h in (1, 2, 3)]
                 + [("full%d%d" % (n, h), uniq.base(n, h)) for n in (1, 2) for h in (1, 2, 3)]
                 + [("names-" + k, S.renamed(uniq.base(2, 3), k)) for k in S.NAMES]
                 + [("numpy-" + t.__name__, dict(numpy_spec(t), conv={})) for t in (np.int8, np.int64, np.uint8, np.float32, np.float64)], solved)

    # version given by the user is kept
    st = hd.Study(horizon=1, version="0.1.2")
    ctx.check(hd.Study.from_json(st.to_json()).version == "0.1.2", "version lost")
