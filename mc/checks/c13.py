import copy

from mc import core, lp

TITLE = "Studies and results are equal exactly when their content is"
LEVEL = "exploration"
RULE = ("for every synthetic study and result: the same content built twice (and deep-copied) is equal both ways; every single change (one "
        "cell of one attribute of one element, one name, one element removed or added, one size) makes it different both ways. "
        "Every form of value at every position with the least change; names which look alike; results with the same cells in another size; timings. Non-trivial: distinct (study, change).")
ASSUMPTIONS = ["the same number given in different forms (number or array) is not compared"]


def run(ctx):
    import numpy as np
    import hadar as hd
    from mc import spec as S, synth, analysis as A

    def more(a, s, t, how):
        a[s, t] = a[s, t] + 0.25 if how == "more" else np.nextafter(a[s, t], np.inf)

    HOW = ("more", "least")  # the least change a number can make is a change

    def changes(sp):
        """(label, changed spec)"""
        def with_(f):
            s = copy.deepcopy(sp)
            f(s)
            return s

        n, h = sp["n"], sp["h"]
        cells = [(0, 0), (n - 1, h - 1)] if n * h > 1 else [(0, 0)]
        for net in sp["nets"]:
            for nd, e in sp["nets"][net].items():
                for kind in ("cons", "prod", "link"):
                    for i in range(len(e[kind])):
                        for a in (1, 2):
                            for s, t in cells:
                                for how in HOW:
                                    def f(x):
                                        more(x["nets"][net][nd][kind][i][a], s, t, how)
                                    yield "%s/%s/%s[%d].%d[%d,%d] %s" % (net, nd, kind, i, a, s, t, how), with_(f)
                        if kind == "link" and e[kind][i][0] != nd:
                            def f(x):
                                o = x["nets"][net][nd][kind][i]
                                x["nets"][net][nd][kind][i] = (nd,) + o[1:]
                            yield "%s/%s/%s[%d].dest" % (net, nd, kind, i), with_(f)
                        if kind != "link":
                            def f(x):
                                o = x["nets"][net][nd][kind][i]
                                x["nets"][net][nd][kind][i] = ("other",) + o[1:]
                            yield "%s/%s/%s[%d].name" % (net, nd, kind, i), with_(f)

                        def f(x):
                            del x["nets"][net][nd][kind][i]
                        yield "%s/%s/%s[%d] removed" % (net, nd, kind, i), with_(f)
                    if len(e[kind]) == 2:
                        def f(x):
                            x["nets"][net][nd][kind].reverse()
                for i in range(len(e["stor"])):
                    for a in ("capacity", "flow_in", "flow_out", "cost", "eff"):
                        if not isinstance(e["stor"][i][a], np.ndarray):
                            for how in HOW:
                                def f(x):
                                    o = x["nets"][net][nd]["stor"][i][a]
                                    x["nets"][net][nd]["stor"][i][a] = o + 0.25 if how == "more" else float(np.nextafter(o, 0))
                                yield "%s/%s/stor[%d].%s number %s" % (net, nd, i, a, how), with_(f)
                            continue
                        for s, t in cells:
                            for how in HOW:
                                def f(x):
                                    more(x["nets"][net][nd]["stor"][i][a], s, t, how)
                                yield "%s/%s/stor[%d].%s[%d,%d] %s" % (net, nd, i, a, s, t, how), with_(f)

                    def f(x):
                        x["nets"][net][nd]["stor"][i]["init_capacity"] += 1
                    yield "%s/%s/stor[%d].init" % (net, nd, i), with_(f)

                    def f(x):
                        x["nets"][net][nd]["stor"][i]["name"] = "other"
                    yield "%s/%s/stor[%d].name" % (net, nd, i), with_(f)

            def f(x):
                x["nets"][net]["zz"] = dict(cons=[], prod=[], stor=[], link=[])
            yield "%s: node added" % net, with_(f)
        for name in sp["conv"]:
            for a in ("cost", "max"):
                for s, t in cells:
                    for how in HOW:
                        def f(x):
                            more(x["conv"][name][a], s, t, how)
                        yield "conv %s.%s[%d,%d] %s" % (name, a, s, t, how), with_(f)
            for i in range(len(sp["conv"][name]["src"])):
                for s, t in cells:
                    for how in HOW:
                        def f(x):
                            more(x["conv"][name]["src"][i][1], s, t, how)
                        yield "conv %s ratio %d[%d,%d] %s" % (name, i, s, t, how), with_(f)

            def f(x):
                x["conv"][name]["dest"] = place
            place = [(net, nd) for net, nodes in sp["nets"].items() for nd in nodes][0]
            if sp["conv"][name]["dest"] != place:
                yield "conv %s dest" % name, with_(f)

            def f(x):
                del x["conv"][name]
            yield "conv %s removed" % name, with_(f)

        def f(x):
            x["nets"]["zz"] = {}
        yield "network added", with_(f)

    def eq(c, a, b, want, label, kind):
        for x, y in ((a, b), (b, a)):
            c.check(bool(x == y) is want, "%s: two %ss with %s content are %s" % (label, kind, "the same" if want else "different", "different" if want else "equal"))
            c.check(bool(x != y) is (not want), "%s: != contradicts == on %ss" % (label, kind))
        c.add("evaluations")

    def result_changes(sp):
        r0 = synth.result_of(sp)
        spots = []
        for net, network in r0.networks.items():
            for nd, x in network.nodes.items():
                for kind, attrs in (("consumptions", ["quantity"]), ("productions", ["quantity"]), ("links", ["quantity"]), ("storages", ["capacity", "flow_in", "flow_out"])):
                    for i in range(len(getattr(x, kind))):
                        for a in attrs:
                            spots.append((net, nd, kind, i, a))
        for net, nd, kind, i, a in spots:
            for pos in {(0, 0), (sp["n"] - 1, sp["h"] - 1)}:
                r = synth.result_of(sp)
                getattr(getattr(r.networks[net].nodes[nd], kind)[i], a)[pos] += 0.5
                yield "%s/%s/%s[%d].%s%s" % (net, nd, kind, i, a, pos), r
                r = synth.result_of(sp)
                m = getattr(getattr(r.networks[net].nodes[nd], kind)[i], a)
                m[pos] = np.nextafter(m[pos], 0)
                yield "%s/%s/%s[%d].%s%s least" % (net, nd, kind, i, a, pos), r
            r = synth.result_of(sp)
            setattr(getattr(r.networks[net].nodes[nd], kind)[i], "dest" if kind == "links" else "name", "zz")
            yield "%s/%s/%s[%d] renamed" % (net, nd, kind, i), r
            r = synth.result_of(sp)
            del getattr(r.networks[net].nodes[nd], kind)[i]
            yield "%s/%s/%s[%d] removed" % (net, nd, kind, i), r
        for net in r0.networks:
            r = synth.result_of(sp)
            del r.networks[net]
            yield "network %s removed" % net, r
            for nd in r0.networks[net].nodes:
                r = synth.result_of(sp)
                del r.networks[net].nodes[nd]
                yield "node %s/%s removed" % (net, nd), r
        for name, cv in r0.converters.items():
            r = synth.result_of(sp)
            r.converters[name].flow_dest[0, 0] += 1
            yield "converter %s dest" % name, r
            for s in cv.flow_src:
                r = synth.result_of(sp)
                r.converters[name].flow_src[s][-1, -1] += 1
                yield "converter %s src %s" % (name, s), r
            r = synth.result_of(sp)
            del r.converters[name]
            yield "converter %s removed" % name, r

    def one(c, t):
        label, sp = t
        a, b = S.build(sp), S.build(copy.deepcopy(sp))
        eq(c, a, b, True, label, "study")
        eq(c, a, copy.deepcopy(a), True, label, "study")
        c.check(not (a == "x") and not (a == None) and a != 3, "study equals something else")  # noqa: E711
        for lab, sp2 in changes(sp):
            eq(c, a, S.build(sp2), False, "%s changed %s" % (label, lab), "study")
            c.distinct.add((label, lab))
        ra, rb = synth.result_of(sp), synth.result_of(sp)
        eq(c, ra, rb, True, label, "result")
        eq(c, ra, copy.deepcopy(ra), True, label, "result")
        for lab, r2 in result_changes(sp):
            eq(c, ra, r2, False, "%s changed %s" % (label, lab), "result")
            c.distinct.add((label, "result", lab))
        # elements
        for net, nodes in sp["nets"].items():
            for nd in nodes:
                x, y = a.networks[net].nodes[nd], b.networks[net].nodes[nd]
                for kind in ("consumptions", "productions", "storages", "links"):
                    for i, (p, q) in enumerate(zip(getattr(x, kind), getattr(y, kind))):
                        eq(c, p, q, True, "%s %s/%s/%s" % (label, net, nd, kind), "element")
        c.sample(dict(study=label, changes=[k for k, _ in list(changes(sp))[:5]]))

    # every form of a value, every position, the least change: no two forms nor positions hide it
    def forms(c, t):
        (n, h), op, par = t
        m = np.arange(1, n * h + 1, dtype=float).reshape(n, h) / (n * h + 1)

        def study(v):
            st = hd.Study(horizon=h, nb_scn=n)
            kw = dict(consumption=dict(cost=1, quantity=1), production=dict(cost=1, quantity=1), storage=dict(capacity=1, flow_in=1, flow_out=1, cost=1, eff=1),
                      link=dict(src="a", dest="b", cost=1, quantity=1), converter=dict(to_network="e", to_node="b", cost=1, max=1), to_converter=dict(ratio=1))[op]
            kw = dict(kw, **{par: v})
            if op != "link":
                kw["name"] = "x"
            getattr(st.network("e").node("b").node("a"), op)(**kw)
            return st

        for form, v in (("number", np.float64(0.5)), ("row", m[0]), ("column", m[:, :1]), ("matrix", m)):
            give = (lambda a: float(a)) if form == "number" else np.array
            a = study(give(v))
            eq(c, a, study(give(v)), True, "%s.%s as %s" % (op, par, form), "study")
            pos = list(np.ndindex(v.shape))
            if len(pos) > 20:
                pos = [pos[i] for i in sorted({0, 1, 2, 3, len(pos) // 4, len(pos) // 2, len(pos) // 2 + 1, len(pos) - 4, len(pos) - 3, len(pos) - 1})]
            for p in pos:
                for how, f in (("least", lambda x: np.nextafter(x, 0)), ("null", lambda x: 0.0), ("fine", lambda x: x * (1 - 1e-9)), ("tiny", lambda x: x + 1e-12 - x * 2e-12)):
                    w = np.array(v)
                    w[p] = f(w[p])
                    if w[p] == v[p]:
                        continue
                    eq(c, a, study(give(w)), False, "%s.%s as %s of %s changed at %s (%s)" % (op, par, form, (n, h), p, how), "study")
            c.distinct.add((n, h, op, par, form))
            if v.size > 2:
                w = np.array(v).reshape(-1)
                w[[0, -1]] = w[[-1, 0]]
                eq(c, a, study(give(w.reshape(v.shape))), False, "%s.%s as %s with two cells exchanged" % (op, par, form), "study")
                eq(c, a, study(give(v[::-1].copy() if v.shape[0] > 1 else v[:, ::-1].copy())), False, "%s.%s as %s reversed" % (op, par, form), "study")

    NUM = dict(consumption=["cost", "quantity"], production=["cost", "quantity"], link=["cost", "quantity"],
               storage=["capacity", "flow_in", "flow_out", "cost", "eff"], converter=["cost", "max"], to_converter=["ratio"])
    core.fan_out(ctx, [(s, op, par) for s in ((1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 700), (40, 50)) for op, pars in NUM.items() for par in pars], forms)

    # results: large arrays, times
    def places(r):
        for net in r.networks.values():
            for nd in net.nodes.values():
                for e in nd.consumptions + nd.productions + nd.links:
                    yield e.__dict__, "quantity"
                for e in nd.storages:
                    for k in ("capacity", "flow_in", "flow_out"):
                        yield e.__dict__, k
        for cv in r.converters.values():
            yield cv.__dict__, "flow_dest"
            for k in cv.flow_src:
                yield cv.flow_src, k

    def spots_of(r):
        return (d[k] for d, k in places(r))

    def resize(r, i, shape):
        d, k = list(places(r))[i]
        d[k] = d[k].reshape(shape)

    def results(c, t):
        n, h = t
        sp = A.rich(n, h)

        a = synth.result_of(sp)
        for k in range(len(list(spots_of(a)))):
            for p in ((0, 0), (n // 2, h // 2), (n - 1, 0), (n - 1, h - 1)):
                b = synth.result_of(sp)
                m = list(spots_of(b))[k]
                m[p] = np.nextafter(m[p], 0)
                eq(c, a, b, False, "cell %s of array %d of a result of %s" % (p, k, (n, h)), "result")
        c.distinct.add(("result", n, h))

    core.fan_out(ctx, [(2, 3), (3, 700), (40, 50)], results)

    # results with the same cells one after the other, in another size
    shapes = [(1, 6), (6, 1), (2, 3), (3, 2), (1, 5), (5, 1), (2, 2), (1, 4), (4, 1)]
    for i, x in enumerate(shapes):
        for y in shapes[i:]:
            for k in range(40):
                pair_ = [synth.result_of(A.rich(*z)) for z in (x, y)]
                cells = [list(spots_of(r)) for r in pair_]
                if k > len(cells[0]):
                    break
                for r, a in zip(pair_, cells):
                    for j, m in enumerate(a):
                        m[:] = 0.5 * j if k < len(a) else np.arange(m.size).reshape(m.shape)
                if k < len(cells[0]):  # only one array has the other size
                    if x[0] * x[1] != y[0] * y[1]:
                        continue
                    pair_[1] = copy.deepcopy(pair_[0])
                    resize(pair_[1], k, y)
                eq(ctx, pair_[0], pair_[1], x == y, "results of size %s and %s%s" % (x, y, "" if k == len(cells[0]) else " (array %d only)" % k), "result")

    def bench(**kw):
        from hadar.optimizer.domain.output import Benchmark

        r = synth.result_of(A.rich(2, 2))
        r.benchmark = Benchmark(**dict(dict(modeler=[1, 2], solver=[3, 4], mapper=5, total=6), **kw))
        return r

    eq(ctx, bench(), bench(), True, "same times", "result")
    for kw in (dict(modeler=[1, 3]), dict(modeler=[1]), dict(modeler=[2, 1]), dict(solver=[3, 5]), dict(solver=[3, 4, 4]), dict(mapper=6), dict(mapper=5.5), dict(total=7), dict(total=6 + 1e-9)):
        eq(ctx, bench(), bench(**kw), False, "times changed: %s" % kw, "result")

    # names which look alike
    def alike(c, t):
        scheme, i, j = t
        x, y = S.NAMES[scheme][i], S.NAMES[scheme][j]
        sp = A.rich(2, 2)
        names = []
        S.renamed(sp, lambda k: names.append(k) or k)
        for k in sorted(set(names)):
            for what in ("study", "result"):
                a, b = ((S.build if what == "study" else synth.result_of)(S.renamed(sp, lambda z: w if z == k else "q=" + z)) for w in (x, y))
                eq(c, a, b, False, "%r named %r and %r" % (k, x, y), what)
        c.distinct.add(t)

    core.fan_out(ctx, [(k, i, j) for k in S.NAMES for i in range(16) for j in ctx.pick((i + 1,), range(i + 1, 16)) if j < 16], alike)

    sps = [("crowd", A.crowd(1, 1))] + [("%dx%d-%d" % (n, h, i), sp) for n, h in ((2, 3), (1, 1), (3, 1), (1, 2)) for i, sp in enumerate(synth.subset_specs(n, h))]
    # sizes
    core.fan_out(ctx, sps, one)
    sizes = [(n, h) for n in (1, 2, 3) for h in (1, 2, 3)]
    for a in sizes:
        for b in sizes:
            x, y = hd.Study(horizon=a[1], nb_scn=a[0]), hd.Study(horizon=b[1], nb_scn=b[0])
            eq(ctx, x, y, a == b, "empty studies of size %s and %s" % (a, b), "study")
    for a, b in (("1", "1"), ("1", "2"), ("0.0.0", None)):
        eq(ctx, hd.Study(horizon=1, version=a), hd.Study(horizon=1, version=b), a == b, "versions %s and %s" % (a, b), "study")
