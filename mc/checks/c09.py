import itertools

from mc import core

TITLE = "Invalid elements are refused whole and leave the study untouched"
LEVEL = "model_checking"
RULE = ("for every call of the builder x every validated parameter x every accepted form of the value (number, row, column, matrix, list, "
        "pandas) x every position of one bad entry x every bad value, and every wrong shape and wrong type, duplicate and dangling name: "
        "the call raises ValueError, the content of the study is unchanged, and the corrected call is accepted afterwards. The same values "
        "made valid are accepted. Every history of up to 3 (4) additions over the names of a place: a call is accepted if and only if its name is free there. states: distinct (call, parameter, form, position, value); transitions: calls made; traces: refusals compared.")
ASSUMPTIONS = ["NaN is not decided", "bool and numpy scalars are not decided"]


def run(ctx):
    import numpy as np
    import pandas as pd
    import hadar as hd
    from mc import dump

    def base(n, h):
        st = hd.Study(horizon=h, nb_scn=n)
        (st.network("e").node("a").consumption(name="old", cost=1, quantity=2).production(name="old", cost=1, quantity=2)
         .storage(name="old", capacity=5, flow_in=1, flow_out=1, init_capacity=1, eff=0.5).to_converter(name="cold", ratio=2)
         .node("b").node("c").link(src="a", dest="c", cost=1, quantity=1)
         .network("g").node("a").node("z")
         .converter(name="cold", to_network="g", to_node="a", cost=1, max=1))
        return st

    VALID = dict(
        consumption=dict(name="new", cost=3, quantity=4),
        production=dict(name="new", cost=3, quantity=4),
        storage=dict(name="new", capacity=5, flow_in=2, flow_out=2, cost=1, init_capacity=1, eff=0.5),
        link=dict(src="a", dest="b", cost=3, quantity=4),
        converter=dict(name="cnew", to_network="e", to_node="b", cost=3, max=4),
        to_converter=dict(name="cnew", ratio=3))

    def call(st, op, kw):
        if op == "link":
            return st.network("e").link(**kw)
        if op == "add_link":
            return st.add_link(network="e", **kw)
        return getattr(st.network("e").node("a"), op)(**kw)

    def attempt(c, st, op, kw, label):
        """refused whole, then valid call accepted"""
        before = dump.study(st)
        js = repr(st.to_json())
        try:
            call(st, op, kw)
        except ValueError:
            pass
        except Exception as e:
            c.fail("%s raised %s instead of ValueError: %s" % (label, type(e).__name__, e), call=op, kw=repr(kw))
        else:
            c.fail("%s was accepted" % label, call=op, kw=repr(kw))
        d = dump.diff(dump.study(st), before)
        c.check(d is None, "%s was refused but the study changed: %s" % (label, d), call=op, kw=repr(kw))
        c.check(repr(st.to_json()) == js, "%s was refused but the serialized study changed" % label, call=op, kw=repr(kw))
        c.add("transitions")
        c.add("traces")

    def accept(c, st, op, kw, label):
        try:
            call(st, op, kw)
        except Exception as e:
            c.fail("%s is valid but raised %s: %s" % (label, type(e).__name__, e), call=op, kw=repr(kw))
        c.add("transitions")

    def forms(n, h, good, bad):
        """(label, value with one bad entry, same value without)"""
        yield "number", bad, good
        for p in range(h):
            r = [good] * h
            r[p] = bad
            g = [good] * h
            yield "row[%d]" % p, np.array(r, dtype=float), np.array(g, dtype=float)
            yield "rowlist[%d]" % p, list(r), list(g)
            yield "series[%d]" % p, pd.Series(r), pd.Series(g)
        for s in range(n):
            m = np.full((n, 1), good, dtype=float)
            b = m.copy()
            b[s, 0] = bad
            yield "column[%d]" % s, b, m
            yield "columnlist[%d]" % s, b.tolist(), m.tolist()
        for s, p in itertools.product(range(n), range(h)):
            m = np.full((n, h), good, dtype=float)
            b = m.copy()
            b[s, p] = bad
            yield "matrix[%d,%d]" % (s, p), b, m
            yield "matrixlist[%d,%d]" % (s, p), b.tolist(), m.tolist()
            yield "frame[%d,%d]" % (s, p), pd.DataFrame(b), pd.DataFrame(m)
        m = np.full((n, h), bad, dtype=float)
        yield "matrix[all]", m, np.full((n, h), good, dtype=float)

    NEG = [(-1, 4), (-0.001, 0), (-1e9, 1), (-1e-9, 2), (-5e-324, 3)]
    BAD = {("consumption", "quantity"): NEG, ("production", "quantity"): NEG, ("link", "quantity"): NEG, ("add_link", "quantity"): NEG,
           ("storage", "capacity"): NEG, ("storage", "flow_in"): NEG, ("storage", "flow_out"): NEG,
           ("storage", "eff"): [(-0.1, 0.5), (1.001, 1), (5, 0.99), (-3, 0.01), (1.001, 0.01), (-0.001, 1), (1.2, 0.5), (1e9, 0.99), (-1e-9, 1), (1 + 1e-9, 1), (float(np.nextafter(1, 2)), 0), (-5e-324, 0)]}
    VALID["add_link"] = VALID["link"]
    sizes = ctx.pick([(1, 1), (2, 3), (3, 2), (1, 3), (3, 1), (2, 2), (1, 12), (12, 1)], [(n, h) for n in (1, 2, 3, 4) for h in (1, 2, 3, 4)] + [(5, 9), (1, 12), (12, 1)])

    def values(c, t):
        (op, par), (n, h) = t
        for bad, good in BAD[(op, par)]:
            for label, vb, vg in forms(n, h, good, bad):
                lab = "%s(%s=%s with %r, nb_scn=%d, horizon=%d)" % (op, par, label, bad, n, h)
                st = base(n, h)
                attempt(c, st, op, dict(VALID[op], **{par: vb}), lab)
                accept(c, st, op, dict(VALID[op], **{par: vg}), lab.replace("with %r" % bad, "with %r" % good))
                c.distinct.add((op, par, n, h, label, bad))
                c.sample(dict(call=op, parameter=par, form=label, bad=bad, nb_scn=n, horizon=h))

    core.fan_out(ctx, list(itertools.product(BAD, sizes)), values)

    # one bad entry among different valid ones (an average, an extreme or a neighbour does not tell)
    def mixed(c, t):
        (op, par), (n, h) = t
        good = (np.arange(n * h).reshape(n, h) * 7 % 10) / 10.0 + (0.05 if par == "eff" else 0)
        for bad in ((-0.001, 1.001, -50, 50) if par == "eff" else (-0.001, -50)):
            for s, u in itertools.product(range(n), range(h)):
                m = good.copy()
                m[s, u] = bad
                for label, v, g in (("matrix", m, good), ("frame", pd.DataFrame(m), pd.DataFrame(good)), ("list", m.tolist(), good.tolist()),
                                    ("row", m[s], good[s]), ("rowlist", m[s].tolist(), good[s].tolist()), ("column", m[:, [u]], good[:, [u]])):
                    st = base(n, h)
                    attempt(c, st, op, dict(VALID[op], **{par: v}), "%s(%s=%s with %r at (%d, %d))" % (op, par, label, bad, s, u))
                    accept(c, st, op, dict(VALID[op], **{par: g}), "%s(%s=%s)" % (op, par, label))
                    c.distinct.add((op, par, n, h, "mixed", label, bad, s, u))

    core.fan_out(ctx, list(itertools.product(BAD, ctx.pick([(2, 3), (1, 5)], [(2, 3), (1, 5), (3, 4), (6, 1)]))), mixed)

    # two entries off in opposite directions, bad entry hidden among huge values
    for op, par in BAD:
        if par == "eff":
            continue
        for n, h in ((2, 3), (1, 4)):
            m = np.full((n, h), 1e6)
            m[0, 1] = -1
            st = base(n, h)
            attempt(ctx, st, op, dict(VALID[op], **{par: m}), "%s(%s with one negative among large values)" % (op, par))
            accept(ctx, st, op, VALID[op], op)

    # zero is a valid quantity
    for op, par in BAD:
        if par != "eff":
            accept(ctx, base(2, 2), op, dict(VALID[op], **{par: 0}), "%s(%s=0)" % (op, par))
    for eff in (0, 1, [0, 1], [1, 0.5]):
        accept(ctx, base(2, 2), "storage", dict(VALID["storage"], eff=eff), "storage(eff=%r)" % (eff,))
    for cost in (-5, 0, 1e9, [-1, 2]):
        for op in ("consumption", "production", "link", "storage", "converter"):
            accept(ctx, base(2, 2), op, dict(VALID[op], cost=cost), "%s(cost=%r)" % (op, cost))

    # valid data of every numeric type and layout, the extremes of the type included
    def types(c, t):
        op, dt = t
        n, h = 2, 3
        top = np.iinfo(dt).max if np.issubdtype(dt, np.integer) else np.finfo(dt).max / 4
        for par in NUM[op]:
            one = par == "eff"
            for lab, vals in (("zeros", [0] * 6), ("small", [0, 1, 1, 0, 1, 0] if one else [0, 1, 2, 3, 2, 1]), ("large", [1] * 6 if one else [0, top, 1, top, 0, top])):
                m = np.array(vals, dtype=dt).reshape(n, h)
                for form, v in (("matrix", m), ("row", m[0]), ("column", m[:, :1]), ("fortran", np.asfortranarray(m)), ("frame", pd.DataFrame(m)), ("series", pd.Series(m[1])),
                                ("strided", np.repeat(m, 2, axis=1)[:, ::2]), ("list of rows", list(m))):
                    name = "%s(%s=%s of %s %s)" % (op, par, form, lab, dt)
                    st = base(n, h)
                    accept(c, st, op, dict(VALID[op], **{par: v}), name)
                    c.distinct.add((op, par, dt, lab, form))
                    if par not in ("cost", "ratio", "max") and not dt.startswith("u"):
                        b = m.copy()
                        b[1, 1] = -1
                        st = base(n, h)
                        attempt(c, st, op, dict(VALID[op], **{par: b}), name + " with -1")
                        accept(c, st, op, dict(VALID[op], **{par: v}), name)

    NUM = dict(consumption=["cost", "quantity"], production=["cost", "quantity"], link=["cost", "quantity"],
               storage=["capacity", "flow_in", "flow_out", "cost", "eff"], converter=["cost", "max"], to_converter=["ratio"])
    DTYPES = ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64")
    core.fan_out(ctx, list(itertools.product(NUM, DTYPES)), types)

    # init capacity
    for bad in (-1, -0.5, -1e-6, -1e-12):
        st = base(2, 2)
        attempt(ctx, st, "storage", dict(VALID["storage"], init_capacity=bad), "storage(init_capacity=%r)" % bad)
        accept(ctx, st, "storage", VALID["storage"], "storage")
        ctx.distinct.add(("init", bad))

    # shapes and types, every numerical parameter
    def shapes(c, t):
        n, h = t
        cand = [(k,) for k in range(0, 6)] + [(a, b) for a in range(0, 5) for b in range(0, 5)] + [(n, h, 1), (1, n, h)]
        ok = {(h,), (n, 1), (n, h)}
        for op, pars in NUM.items():
            for par in pars:
                for shp in cand:
                    v = np.full(shp, 0.5)
                    for lab, val in (("array", v), ("list", v.tolist())):
                        if lab == "list" and np.array(v.tolist()).shape != shp:
                            continue
                        kw = dict(VALID[op], **{par: val})
                        name = "%s(%s=%s of shape %s, nb_scn=%d, horizon=%d)" % (op, par, lab, shp, n, h)
                        if shp in ok:
                            accept(c, base(n, h), op, kw, name)
                        else:
                            st = base(n, h)
                            attempt(c, st, op, kw, name)
                            accept(c, st, op, VALID[op], op)
                        c.distinct.add((op, par, n, h, lab, shp))
                for bad in ("3", None, object(), {"a": 1}, {1, 2}):
                    st = base(n, h)
                    attempt(c, st, op, dict(VALID[op], **{par: bad}), "%s(%s=%r)" % (op, par, bad))
                    accept(c, st, op, VALID[op], op)
                    c.distinct.add((op, par, n, h, str(type(bad))))

    core.fan_out(ctx, ctx.pick([(1, 1), (2, 3), (3, 2), (2, 2), (1, 3), (3, 1), (4, 2)], list(itertools.product(range(1, 5), range(1, 5)))), shapes)

    # names
    n, h = 2, 2
    for op in ("consumption", "production", "storage"):
        st = base(n, h)
        attempt(ctx, st, op, dict(VALID[op], name="old"), "%s with a name already on the node" % op)
        accept(ctx, st, op, VALID[op], op)
        attempt(ctx, st, op, VALID[op], "%s added twice" % op)
        getattr(st.network("e").node("b"), op)(**dict(VALID[op], name="old"))
        getattr(st.network("g").node("a"), op)(**dict(VALID[op], name="old"))
    for src, dest in (("a", "c"), ("a", "nowhere"), ("nowhere", "a"), ("a", "z"), ("z", "a"), ("nowhere", "nowhere"), ("", "a")):
        for op in ("link", "add_link"):
            st = base(n, h)
            attempt(ctx, st, op, dict(src=src, dest=dest, cost=1, quantity=1), "%s %s->%s" % (op, src, dest))
            accept(ctx, st, op, dict(src="c", dest="a", cost=1, quantity=1), "reverse link")
            accept(ctx, st, op, dict(src="b", dest="c", cost=1, quantity=1), "link to a destination another node already has")
            ctx.distinct.add((op, src, dest))
    for net, nd in (("e", "z"), ("g", "b"), ("nowhere", "a"), ("g", "nowhere"), ("", "")):
        st = base(n, h)
        attempt(ctx, st, "converter", dict(VALID["converter"], to_network=net, to_node=nd), "converter to %s/%s" % (net, nd))
        attempt(ctx, st, "converter", dict(VALID["converter"], name="cold", to_network=net, to_node=nd), "converter to %s/%s" % (net, nd))
        accept(ctx, st, "converter", VALID["converter"], "converter")
        ctx.distinct.add(("converter", net, nd))
    st = base(n, h)
    attempt(ctx, st, "converter", dict(VALID["converter"], name="cold"), "second output of a converter")
    attempt(ctx, st, "to_converter", dict(name="cold", ratio=3), "same source twice on a converter")
    accept(ctx, st, "converter", VALID["converter"], "converter")
    attempt(ctx, st, "converter", VALID["converter"], "second output of a converter")
    accept(ctx, st, "to_converter", VALID["to_converter"], "to_converter")
    attempt(ctx, st, "to_converter", VALID["to_converter"], "same source twice")
    st.network("g").node("a").to_converter(name="cnew", ratio=2)

    # every history of names: a call is accepted if and only if its name is still free at this place
    def places(op):
        return dict(consumption=lambda st, x: st.network(x[0]).node(x[1]).consumption(name=x[2], cost=1, quantity=1),
                    production=lambda st, x: st.network(x[0]).node(x[1]).production(name=x[2], cost=1, quantity=1),
                    storage=lambda st, x: st.network(x[0]).node(x[1]).storage(name=x[2], capacity=1, flow_in=1, flow_out=1),
                    link=lambda st, x: st.network(x[0]).link(src=x[1], dest=x[2], cost=1, quantity=1),
                    nodelink=lambda st, x: st.network(x[0]).node("q").link(src=x[1], dest=x[2], cost=1, quantity=1),
                    add_link=lambda st, x: st.add_link(network=x[0], src=x[1], dest=x[2], cost=1, quantity=1),
                    to_converter=lambda st, x: st.network(x[0]).node(x[1]).to_converter(name=x[2], ratio=2),
                    converter=lambda st, x: st.network("e").converter(name=x[2], to_network=x[0], to_node=x[1], max=1))[op]

    def key(op, x):
        return (op, x[2]) if op == "converter" else ("link" if "link" in op else op,) + x

    def words(op):
        if "link" in op:
            w = ["a", "b", "ab"] if op == "link" else ["a", "b"]
            one = [[("e", "a", d) for d in ["a", "b", "ab", "A"]], [("e", s_, d) for s_ in w for d in w], [(net, s_, d) for net in "eg" for s_ in "ab" for d in "ab" if s_ != d]]
        else:
            one = [[("e", "a", k) for k in ["a", "b", "ab", "A"]], [(net, nd, k) for net in "eg" for nd in "ab" for k in "xy"]]
        return one

    def history(c, t):
        op, seq = t
        st = hd.Study(horizon=1)
        for net in "eg":
            for nd in ("a", "b", "ab", "A", "q"):
                st.network(net).node(nd)
        seen = set()
        f = places(op)
        for i, x in enumerate(seq):
            k = key(op, x)
            before = dump.study(st)
            try:
                f(st, x)
                ok = True
            except ValueError:
                ok = False
            lab = "%s%s after %s" % (op, x, list(seq[:i]))
            c.check(ok == (k not in seen), "%s was %s" % (lab, "accepted" if ok else "refused"))
            if not ok:
                d = dump.diff(dump.study(st), before)
                c.check(d is None, "%s was refused but the study changed: %s" % (lab, d))
            seen.add(k)
            c.add("transitions")
        c.add("traces")
        c.distinct.add((op,) + tuple(seq))

    hist = []
    for op in ("consumption", "production", "storage", "link", "nodelink", "add_link", "to_converter", "converter"):
        for w in words(op):
            for d in range(1, ctx.pick(4, 5) + (len(w) <= 4)):
                if len(w) ** d <= ctx.pick(800, 8000):
                    hist += [(op, seq) for seq in itertools.product(w, repeat=d)]
    ctx.notes["name_histories"] = len(hist)
    core.fan_out(ctx, hist, history)

    # twelve names at one place: each of them is taken, a thirteenth is free
    N = 12

    def many(c, t):
        op, order, end = t
        st = hd.Study(horizon=1)
        for net in "eg":
            for i in range(N + 1):
                st.network(net).node("n%d" % i)
        f = places(op)
        if "link" in op:
            every = [("e", "n0", "n%d" % i) if end == "dest" else ("e", "n%d" % i, "n0") for i in range(N + 1)]
        elif op == "to_converter" and end == "dest":
            every = [("e", "n%d" % i, "x") for i in range(N + 1)]
        else:
            every = [("e", "n0", "x%d" % i) for i in range(N + 1)]
        every = every[::-1] if order == "falling" else every
        every, more = every[:N], every[N]
        for i, x in enumerate(every + every + [more]):
            before = dump.study(st)
            try:
                f(st, x)
                ok = True
            except ValueError:
                ok = False
            lab = "%s%s at a place with %d" % (op, x, min(i, N))
            c.check(ok == (i < N or x is more), "%s was %s" % (lab, "accepted" if ok else "refused"))
            if not ok:
                d = dump.diff(dump.study(st), before)
                c.check(d is None, "%s was refused but the study changed: %s" % (lab, d))
            c.add("transitions")
        c.add("traces")
        c.distinct.add(t)

    core.fan_out(ctx, [(op, order, end) for op in ("consumption", "production", "storage", "link", "nodelink", "add_link", "to_converter", "converter") for order in ("rising", "falling") for end in ("name", "dest")], many)
    ctx.add("states", len(ctx.distinct))
