import itertools

from mc import core

TITLE = "Query answers depend on the filters only, not on the order or history of calls"
LEVEL = "model_checking"
RULE = ("queries as call sequences: every order of node/scn/time/element calls x every combination of filters with at most D deviations from "
        "'no filter' (single value, list, tuple-free list, bounded, half-open and stepped slices) x every element kind; the answer is the "
        "reference rows, levels in call order, sorted. Then every prefix of a call sequence is reused for two different continuations, in both "
        "orders, and queries are repeated: same answers, tables unaltered. states: distinct call prefixes; transitions: calls; traces: answers compared.")
ASSUMPTIONS = ["slices have non-negative bounds", "of an answer without row, only its emptiness is decided"]

FILTERS = dict(
    network=["default", "gas", None, ["default", "gas"], ["gas"]],
    node=["a", "b", ["a", "b"], ["b"], []],
    element=[0, [0], [0, 1], []],  # by rank of the names
    scn=[0, 2, [0, 2], [2, 0], slice(0, 2), slice(None, 2), slice(1, None), slice(None, None, 2), [], slice(0, 3, 2)],
    t=[0, 3, [1, 3], [3, 0], slice(1, 3), slice(None, 2), slice(2, None), slice(None, None, 2), slice(1, None, 2), slice(0, 4, 3), [2], []])

# pairs of deviations in the quick tier
SHORT = dict(network=["gas", None], node=["b", ["a", "b"]], element=[0, [0, 1]], scn=[2, [2, 0], slice(1, None)], t=[3, [1, 3], slice(None, 2), slice(1, None, 2)])


def run(ctx):
    import hadar as hd
    from mc import spec as S, synth, analysis as A

    n, h = 3, 4
    sp = A.rich(n, h)
    st = S.build(sp)
    res = synth.result_of(sp)
    agg = hd.ResultAnalyzer(st, res)
    tabs = {k: A.table(sp, res, k) for k in A.KINDS}
    names = {k: sorted({r[2] for r in tabs[k]}) for k in A.KINDS}
    orders = [("network",) + p for p in itertools.permutations(("node", "element", "scn", "t"))]
    D = ctx.pick(2, 3)

    def real(kind, l, f):
        if l != "element" or f == []:
            return f
        if isinstance(f, list):
            return [names[kind][i % len(names[kind])] for i in f]
        return names[kind][f] if isinstance(f, int) else f

    combos = []
    for k in range(D + 1):
        for ls in itertools.combinations(A.LEVELS, k):
            for fs in itertools.product(*[(FILTERS if k < D or ctx.thorough else SHORT)[l] for l in ls]):
                combos.append(dict(zip(ls, fs)))
    # filters which keep nothing
    NOTHING = dict(network=["nowhere"], node=["nowhere", ["nowhere"]], element=["nothing"], scn=[3, [7, 8], slice(3, None), slice(1, 1), slice(2, 0)], t=[4, [9], slice(4, 9), slice(2, 2), slice(3, 1)])
    combos += [{l: f} for l in A.LEVELS for f in NOTHING[l]]
    # everything fixed
    for fs in itertools.product(*ctx.pick((["default"], ["a", "b"], [0], [0, 2], [3]), (["default", "gas"], ["a", "b"], [0, 1], [0, 2], [0, 3]))):
        combos.append(dict(zip(A.LEVELS, fs)))

    def one(c, t):
        kind, order = t
        tab = tabs[kind]
        for f0 in combos:
            f = {l: real(kind, l, v) for l, v in f0.items()}
            ff = dict(f)
            ff.setdefault("network", "default")
            if not A.expected(tab, ff):
                c.add("answers_without_row")
            df = A.ask(agg, kind, order, f)
            p = A.problem(df, tab, kind, order, f)
            c.check(p is None, "query %s in order %s with %s: %s" % (kind, order, f, p), answer=str(df)[:1500])
            c.add("transitions", 5)
            c.add("traces")
            for k in range(1, 6):
                c.distinct.add(hash((kind, order[:k], repr([f0.get(l, "-") for l in order[:k]]))))
        c.sample(dict(kind=kind, order=order, last_filters=repr(f0)))
        c.check({k: A.table(sp, res, k) for k in A.KINDS} == tabs, "queries altered the result")

    core.fan_out(ctx, list(itertools.product(A.KINDS, orders)), one)

    # reuse of a prefix
    def reuse(c, t):
        kind, order = t
        calls = {"node": "node", "scn": "scn", "t": "time", "element": kind}
        alt = {"node": [None, "a"], "scn": [None, 1], "t": [None, slice(1, None), 2], "element": [None, names[kind][0]]}
        for cut in range(1, 5):
            pre, post = order[1:cut], order[cut:]
            conts = list(itertools.product(*[alt[l] for l in post]))
            m = ctx.pick(4, 6)
            if len(conts) > m:
                conts = conts[::max(1, len(conts) // m)]
            for c1, c2 in itertools.permutations(conts, 2):
                q = agg.network("default")
                for l in pre:
                    q = getattr(q, calls[l])()
                for cont in (c1, c2, c1):
                    x = q
                    f = dict(network="default")
                    for l, v in zip(post, cont):
                        x = getattr(x, calls[l])(v) if v is not None else getattr(x, calls[l])()
                        f[l] = v
                        c.add("transitions")
                    p = A.problem(x, tabs[kind], kind, order, f)
                    c.check(p is None, "query %s, prefix %s reused for %s: %s" % (kind, pre, cont, p))
                    c.add("traces")
                    # answers belong to the caller: spoiling one changes nothing
                    if len(x):
                        x.iloc[:, :] = -1

    core.fan_out(ctx, list(itertools.product(A.KINDS, orders if ctx.thorough else orders[::3])), reuse)

    # two different kinds from one prefix
    def kinds(c, t):
        k1, k2 = t
        q = agg.network("default").node("b").scn()
        q2 = q.time()
        for k in (k1, k2, k1):
            f = dict(network="default", node="b")
            tab = tabs[k]
            p = A.problem(getattr(q2, k)(), tab, k, ("network", "node", "scn", "t", "element"), f)
            c.check(p is None, "prefix reused for %s then %s: %s" % (k1, k2, p))
            x = getattr(q, k)()
            p = A.problem(x.time(), tab, k, ("network", "node", "scn", "element", "t"), f)
            c.check(p is None, "prefix reused for %s then %s: %s" % (k1, k2, p))
            c.add("traces", 2)

    core.fan_out(ctx, list(itertools.permutations(A.KINDS, 2)), kinds)

    # same pair under other names: a filter keeps the very elements it names
    def named(c, t):
        scheme, shift = t
        sp = S.renamed(A.rich(2, 2), scheme, shift)
        res = synth.result_of(sp)
        an = hd.ResultAnalyzer(S.build(sp), res)
        for kind in A.KINDS:
            tab = A.table(sp, res, kind)
            keys = sorted({r[:3] for r in tab})
            qs = [dict(network=k[0], node=k[1], element=k[2]) for k in keys]
            qs += [dict(network=k[0], node=k[1]) for k in keys] + [dict(network=k[0], element=k[2]) for k in keys] + [dict(network=None, node=k[1]) for k in keys] + [dict(network=None, element=k[2]) for k in keys]
            qs += [dict(network=None, **{l: [a, b]}) for i, l in ((1, "node"), (2, "element")) for a, b in itertools.combinations(sorted({k[i] for k in keys}), 2)]
            for j, f in enumerate(qs):
                order = orders[(j * 7 + shift) % len(orders)]
                p = A.problem(A.ask(an, kind, order, f), tab, kind, order, f)
                c.check(p is None, "names %s: query %s in order %s with %s: %s" % (scheme, kind, order, f, p))
                c.add("transitions", 5)
                c.add("traces")
                c.distinct.add(hash((scheme, shift, kind, repr(f))))

    core.fan_out(ctx, [(k, sh) for k in S.NAMES for sh in ctx.pick((0, 5), range(16))], named)
    ctx.add("states", len(ctx.distinct))
    ctx.notes["filter_deviations"] = D
