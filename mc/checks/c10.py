import copy
import itertools

from mc import core, lp, pool

TITLE = "Numbers, rows, columns and matrices mean the same everywhere"
LEVEL = "exploration"
RULE = ("for every (nb_scn, horizon) up to the bound x every accepted form (number, row, column, matrix; list, array of any dtype and "
        "memory layout, pandas) with a different value in every cell: the value read at [scn, t], flattened, seen by the analyzer in the "
        "study's element tables, compared with a number, and used by the solver, is the one of the documented broadcast. Non-trivial: distinct (size, form, element, attribute).")
ASSUMPTIONS = ["booleans and complex numbers are not decided"]

lp.prepare()


def run(ctx):
    import numpy as np
    import pandas as pd
    import hadar as hd
    from mc import spec as S

    def forms(n, h):
        m = (np.arange(n * h).reshape(n, h) + 1) * 1.0
        row, col = m[0], m[:, :1]
        out = [("int", 7, np.full((n, h), 7.0)), ("float", 2.5, np.full((n, h), 2.5)),
               ("row", row, np.tile(row, (n, 1))), ("rowlist", row.tolist(), np.tile(row, (n, 1))), ("series", pd.Series(row, index=[10 - k for k in range(h)]), np.tile(row, (n, 1))),
               ("column", col, np.tile(col, (1, h))), ("columnlist", col.tolist(), np.tile(col, (1, h))),
               ("matrix", m, m), ("list", m.tolist(), m), ("frame", pd.DataFrame(m, columns=["c%d" % (h - k) for k in range(h)]), m),
               ("fortran", np.asfortranarray(m), m), ("transposed", np.ascontiguousarray(m.T).T, m), ("strided", np.repeat(m, 2, axis=1)[:, ::2], m),
               ("reversed", m[::-1].copy()[::-1], m), ("intlist", m.astype(int).tolist(), m)]
        zero, some = np.zeros((n, h)), m * (np.arange(n * h).reshape(n, h) % 2)
        out += [("zero", 0, zero), ("zerofloat", 0.0, zero), ("minuszero", -0.0, zero), ("zerorow", zero[0], zero), ("zerorowlist", [0] * h, zero), ("zeroseries", pd.Series(zero[0]), zero),
                ("zerocolumn", zero[:, :1], zero), ("zeromatrix", zero, zero), ("zerolist", zero.tolist(), zero), ("zeroint", zero.astype(int), zero), ("zeroframe", pd.DataFrame(zero), zero),
                ("somezerorow", some[0], np.tile(some[0], (n, 1))), ("somezerocolumn", some[:, -1:], np.tile(some[:, -1:], (1, h))), ("somezeromatrix", some, some), ("somezerolist", some.tolist(), some),
                ("one", 1, zero + 1), ("onematrix", zero + 1, zero + 1), ("onerow", zero[0] + 1, zero + 1), ("onecolumn", zero[:, :1] + 1, zero + 1)]
        # whole numbers first and fractions later; fractions which need all digits
        def ints(v):
            return [ints(x) for x in v] if isinstance(v, list) else int(v) if v == int(v) else v

        z = np.where(np.arange(n * h).reshape(n, h) % 2 == 0, m, m + 0.625)
        big = z + 123456780
        for lab, y in (("mixed", z), ("digits", big), ("third", z / 3)):
            out += [(lab + "row", y[0], np.tile(y[0], (n, 1))), (lab + "rowlist", ints(y[0].tolist()), np.tile(y[0], (n, 1))), (lab + "series", pd.Series(ints(y[0].tolist())), np.tile(y[0], (n, 1))),
                    (lab + "column", y[:, :1], np.tile(y[:, :1], (1, h))), (lab + "columnlist", ints(y[:, :1].tolist()), np.tile(y[:, :1], (1, h))),
                    (lab + "matrix", y, y), (lab + "list", ints(y.tolist()), y), (lab + "frame", pd.DataFrame(ints(y.tolist())), y), (lab + "rows", [r for r in y], y),
                    (lab + "float", float(y[-1, -1]), np.full((n, h), y[-1, -1]))]
        out += [(type(x).__name__ + "scalar", x, np.full((n, h), 7.0)) for x in (np.float64(7), np.float32(7), np.float16(7), np.int64(7), np.int32(7), np.uint8(7), np.array(7.0), np.array(7))]
        for dt in ("int8", "uint8", "int16", "int32", "int64", "uint64", "float16", "float32", "float64"):
            out.append((dt, m.astype(dt), m))
            out.append((dt + "row", row.astype(dt), np.tile(row, (n, 1))))
            out.append((dt + "column", col.astype(dt), np.tile(col, (1, h))))
        return out

    def tols(label):
        return 1e-3 if "float16" in label else 1e-6 if "float32" in label else 1e-14

    def unaltered(c, label, v, before):
        same = repr(v) == repr(before) and type(v) is type(before) and getattr(v, "dtype", None) is getattr(before, "dtype", None) \
            and np.array_equal(np.asarray(v), np.asarray(before)) and getattr(v, "shape", None) == getattr(before, "shape", None)
        c.check(same, "data given as %s were altered: %r is now %r" % (label, before, v))

    def spoil(v):
        """the caller uses its own object for something else"""
        if isinstance(v, np.ndarray):
            if v.ndim:
                v[...] = 99
        elif isinstance(v, (pd.Series, pd.DataFrame)):
            v.iloc[:] = 99
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, (list, np.ndarray)):
                    spoil(x)
                else:
                    v[i] = 99

    def size(c, t):
        n, h = t
        for k_ in range(len(forms(n, h))):
            label, v, want = forms(n, h)[k_]  # fresh ones: they are spoiled below
            want = want.copy()
            before = copy.deepcopy(v)
            st = hd.Study(horizon=h, nb_scn=n)
            div = 128 if want.max() < 100 else 2.0 ** 30
            half = v * 0.5 if not isinstance(v, list) else (np.array(v) * 0.5).tolist()
            eff = v / div if not isinstance(v, list) else (np.array(v) / div).tolist()
            a = st.network("e").node("a")
            a.consumption(name="c", cost=v, quantity=v).production(name="p", cost=half, quantity=v)
            a.storage(name="s", capacity=v, flow_in=v, flow_out=half, cost=v, init_capacity=1, eff=eff)
            a.to_converter(name="cv", ratio=v).node("b").link(src="a", dest="b", cost=v, quantity=half).converter(name="cv", to_network="e", to_node="b", cost=v, max=half)
            nd = st.networks["e"].nodes["a"]
            cv = st.converters["cv"]
            attrs = {"consumption.cost": (nd.consumptions[0].cost, 1), "consumption.quantity": (nd.consumptions[0].quantity, 1),
                     "production.cost": (nd.productions[0].cost, .5), "production.quantity": (nd.productions[0].quantity, 1),
                     "storage.capacity": (nd.storages[0].capacity, 1), "storage.flow_in": (nd.storages[0].flow_in, 1),
                     "storage.flow_out": (nd.storages[0].flow_out, .5), "storage.cost": (nd.storages[0].cost, 1), "storage.eff": (nd.storages[0].eff, 1 / div),
                     "link.cost": (nd.links[0].cost, 1), "link.quantity": (nd.links[0].quantity, .5), "converter.ratio": (cv.src_ratios[("e", "a")], 1),
                     "converter.cost": (cv.cost, 1), "converter.max": (cv.max, .5)}
            for name, (x, k) in attrs.items():
                w = want * k
                tol = tols(label)
                got = np.array([[x[s, t_] for t_ in range(h)] for s in range(n)], dtype=float)
                c.check(np.allclose(got, w, rtol=tol, atol=0), "%s given as %s (nb_scn=%d, horizon=%d) reads %s instead of %s" % (name, label, n, h, got.tolist(), w.tolist()), value=repr(v))
                f = np.asarray(x.flatten(), dtype=float)
                c.check(f.shape == (n * h,) and np.allclose(f, w.flatten(), rtol=tol, atol=0),
                        "%s given as %s (nb_scn=%d, horizon=%d) flattens to %s instead of %s" % (name, label, n, h, f.tolist(), w.flatten().tolist()), value=repr(v))
                for s, t_ in ((n, 0), (0, h)):
                    try:
                        x[s, t_]
                    except IndexError:
                        pass
                    else:
                        c.fail("%s given as %s has a value at (%d, %d), outside nb_scn=%d, horizon=%d" % (name, label, s, t_, n, h))
                for b in sorted({float(y) + d for y in (w.min(), w.max()) for d in (-.25, 0, .25)}) if "float" not in label and "third" not in label else ():
                    for op, got_, true in (("<", x < b, (w < b).all()), (">", x > b, (w > b).all()), ("<=", x <= b, (w <= b).all()), (">=", x >= b, (w >= b).all())):
                        c.check(bool(got_) == bool(true), "%s given as %s (nb_scn=%d, horizon=%d), whose values are %s, is said %s%s %r" % (name, label, n, h, w.tolist(), "" if got_ else "not ", op, b))
                c.add("evaluations", n * h)
                c.distinct.add((n, h, label, name))
            unaltered(c, label, v, before)
            for x in (v, half, eff):
                spoil(x)
            for name, (x, k) in attrs.items():
                got = np.array([[x[s, t_] for t_ in range(h)] for s in range(n)], dtype=float)
                c.check(np.allclose(got, want * k, rtol=tols(label), atol=0), "%s given as %s reads %s instead of %s after the caller changed its own data" % (name, label, got.tolist(), (want * k).tolist()))
            c.sample(dict(nb_scn=n, horizon=h, form=label, value=repr(v)))

    core.fan_out(ctx, list(itertools.product(range(1, ctx.pick(5, 8)), repeat=2)) + [(1, 12), (12, 1), (9, 11)], size)

    # costs below zero
    def below(c, t):
        n, h = t
        m = (np.arange(n * h).reshape(n, h) - n * h // 2) * 1.25 - 0.5
        row, col = np.tile(m[0], (n, 1)), np.tile(m[:, :1], (1, h))
        for label, v, want in (("number", -2.5, np.full((n, h), -2.5)), ("whole number", -3, np.full((n, h), -3.0)), ("row", m[0], row), ("rowlist", m[0].tolist(), row), ("series", pd.Series(m[0]), row),
                               ("column", m[:, :1], col), ("columnlist", m[:, :1].tolist(), col), ("matrix", m, m), ("list", m.tolist(), m), ("frame", pd.DataFrame(m), m), ("fortran", np.asfortranarray(m), m),
                               ("int", (m * 4).astype(int), m * 4), ("float32", m.astype("float32"), m)):
            st = hd.Study(horizon=h, nb_scn=n)
            a = st.network("e").node("b").node("a")
            a.consumption(name="c", cost=v, quantity=1).production(name="p", cost=v, quantity=1).storage(name="s", capacity=1, flow_in=1, flow_out=1, cost=v, eff=1)
            a.to_converter(name="cv").link(src="a", dest="b", cost=v, quantity=1).converter(name="cv", to_network="e", to_node="b", cost=v, max=1)
            nd = st.networks["e"].nodes["a"]
            for what, x in (("consumption", nd.consumptions[0].cost), ("production", nd.productions[0].cost), ("storage", nd.storages[0].cost), ("link", nd.links[0].cost), ("converter", st.converters["cv"].cost)):
                got = np.array([[x[s, u] for u in range(h)] for s in range(n)], dtype=float)
                c.check(np.array_equal(got, want) and np.array_equal(np.asarray(x.flatten(), dtype=float), want.flatten()), "cost of %s given as %s (nb_scn=%d, horizon=%d) reads %s instead of %s" % (what, label, n, h, got.tolist(), want.tolist()))
                c.add("evaluations", n * h)
            c.distinct.add((n, h, label, "below"))

    core.fan_out(ctx, [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (9, 11)], below)

    # values taken from an element of another study, maybe of another size
    def other(c, t):
        (n, h), (n2, h2) = t
        for label, v, want in forms(n2, h2):
            src = hd.Study(horizon=h2, nb_scn=n2)
            src.network("e").node("a").production(name="p", cost=v, quantity=v)
            q = src.networks["e"].nodes["a"].productions[0].quantity
            st = hd.Study(horizon=h, nb_scn=n)
            nd = st.network("e").node("a")
            shape = np.shape(v)
            fits = shape in ((), (h,), (n, 1), (n, h))
            for call in ("production", "consumption"):
                try:
                    getattr(nd, call)(name="x", cost=q, quantity=q)
                except ValueError:
                    c.check(not fits, "value of shape %s of a study (nb_scn=%d, horizon=%d) is refused by a study (nb_scn=%d, horizon=%d)" % (shape, n2, h2, n, h))
                    continue
                c.check(fits, "value of shape %s of a study (nb_scn=%d, horizon=%d) is accepted by a study (nb_scn=%d, horizon=%d)" % (shape, n2, h2, n, h))
                e = getattr(st.networks["e"].nodes["a"], call + "s")[0]
                w = np.broadcast_to(np.asarray(v, dtype=float), (n, h))
                for x in (e.quantity, e.cost):
                    got = np.array([[x[s, u] for u in range(h)] for s in range(n)], dtype=float)
                    c.check(np.allclose(got, w, rtol=tols(label)) and np.allclose(x.flatten(), w.flatten(), rtol=tols(label)),
                            "value %s of a study (nb_scn=%d, horizon=%d) reads %s in a study (nb_scn=%d, horizon=%d)" % (label, n2, h2, got.tolist(), n, h))
                c.add("evaluations")
            c.distinct.add((n, h, n2, h2, label, "other"))

    core.fan_out(ctx, list(itertools.product(itertools.product((1, 2, 3), repeat=2), repeat=2)), other)

    # one object of the caller, filled again between two elements, two networks, two studies
    def reused(c, t):
        n, h = t
        for k_ in range(len(forms(n, h))):
            label, v, want = forms(n, h)[k_]
            want = want.copy()
            after = np.full((n, h), 99.0)
            studies = [hd.Study(horizon=h, nb_scn=n) for _ in range(2)]
            places = [st.network(net).node(nd) for st in studies for net in "eg" for nd in "ab"]

            def read(x, w, what):
                got = np.array([[x[s, u] for u in range(h)] for s in range(n)], dtype=float)
                c.check(np.allclose(got, w, rtol=tols(label)) and np.allclose(x.flatten(), w.flatten(), rtol=tols(label)),
                        "%s given as %s reads %s instead of %s, after the caller used the same object for several elements and filled it again in between" % (what, label, got.tolist(), w.tolist()))

            def add(tag):
                for a in places:
                    a.consumption(name=tag, cost=v, quantity=v).production(name=tag, cost=v, quantity=v)
                    a.storage(name=tag, capacity=v, flow_in=v, flow_out=v, cost=v, init_capacity=1, eff=1)
                    a.to_converter(name=tag, ratio=v)
                for st in studies:
                    st.network("e").link(src="a", dest="b" if tag == "x" else "a", cost=v, quantity=v)

            add("x")
            spoil(v)
            if np.array_equal(np.broadcast_to(np.asarray(v, dtype=float), (n, h)), want):
                after = want  # a number can not be filled again
            add("y")
            for st in studies:
                for i, w in ((0, want), (1, after)):
                    for net in "eg":
                        for nd in "ab":
                            e = st.networks[net].nodes[nd]
                            for what, x in (("consumption", e.consumptions[i]), ("production", e.productions[i])):
                                read(x.cost, w, what + ".cost")
                                read(x.quantity, w, what + ".quantity")
                            for at in ("capacity", "flow_in", "flow_out", "cost"):
                                read(getattr(e.storages[i], at), w, "storage." + at)
                            read(st.converters["xy"[i]].src_ratios[(net, nd)], w, "converter.ratio")
                    l = st.networks["e"].nodes["a"].links[i]
                    read(l.cost, w, "link.cost")
                    read(l.quantity, w, "link.quantity")
            c.add("evaluations", n * h)
            c.distinct.add((n, h, label, "reused"))

    core.fan_out(ctx, list(itertools.product((1, 2, 3), repeat=2)), reused)

    # initial level of a storage
    def level(c, t):
        pool.set_schedule(pool.Schedule())
        st = hd.Study(horizon=2, nb_scn=2)
        st.network("e").node("a").storage(name="s", capacity=9, flow_in=0, flow_out=1, init_capacity=t, eff=1, cost=0).consumption(name="c", cost=10, quantity=1)
        an = hd.ResultAnalyzer(st, S.solve(st))
        df = an.network("e").node("a").storage("s").scn().time()
        c.check(np.allclose(df["init_capacity"], 3) and df["capacity"].tolist() == [2, 1, 2, 1], "initial level %r of type %s is used as %s" % (t, type(t).__name__, df.to_dict()))
        c.add("evaluations")
        c.distinct.add(("level", type(t).__name__))

    core.fan_out(ctx, [3, 3.0] + [t(3) for t in (np.int8, np.uint8, np.int16, np.int32, np.int64, np.uint64, np.float16, np.float32, np.float64)], level)

    # the solver and the analyzer use the very same cells: load given in full, cost = quantity * unit cost
    def used(c, t):
        n, h = t
        pool.set_schedule(pool.Schedule())
        for label, v, want in forms(n, h):
            if "float16" in label or "digits" in label:
                continue
            before = copy.deepcopy(v)
            st = hd.Study(horizon=h, nb_scn=n)
            st.network("e").node("a").consumption(name="c", cost=1e4, quantity=v).production(name="p", cost=v, quantity=1e3).node("b") \
              .production(name="p", cost=1, quantity=v).consumption(name="c", cost=v, quantity=1e3)
            r = S.solve(st)
            e = r.networks["e"].nodes
            for what, got, w in (("quantity of consumption", e["a"].consumptions[0].quantity, want), ("production used", e["a"].productions[0].quantity, want)):
                c.check(np.allclose(got, w, rtol=1e-6), "%s given as %s (nb_scn=%d, horizon=%d): solver answers %s instead of %s" % (what, label, n, h, np.asarray(got).tolist(), w.tolist()))
            wantb = np.where(want > 1, want, 0)  # sheds when its cost is below production cost 1
            got = np.asarray(e["b"].consumptions[0].quantity)
            tie = want == 1
            c.check(np.allclose(got[~tie], wantb[~tie], rtol=1e-6), "cost given as %s: given %s instead of %s" % (label, got.tolist(), wantb.tolist()))
            an = hd.ResultAnalyzer(st, r)
            df = an.network("e").node("a").consumption("c").scn().time()
            c.check(np.allclose(df["asked"].values.reshape(n, h), want), "analyzer reads asked=%s for a quantity given as %s" % (df["asked"].tolist(), label))
            df = an.network("e").node("a").production("p").scn().time()
            c.check(np.allclose(df["cost"].values.reshape(n, h), want), "analyzer reads cost=%s for a cost given as %s" % (df["cost"].tolist(), label))
            unaltered(c, label, v, before)
            c.add("evaluations", 4 * n * h)
            c.distinct.add((n, h, label, "solved"))

    core.fan_out(ctx, list(itertools.product((1, 2, 3), (1, 2, 3))) + [(1, 9), (9, 1), (9, 9)], used)
