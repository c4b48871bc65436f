import itertools

from mc import core, pool

TITLE = "Shuffled scenarios are rows of their own timeline, drawn as the sampler says"
LEVEL = "model_checking"
RULE = ("Shuffler with an injected sampler: every answer of the sampler for each of up to 3 timelines (raw arrays and pipelines), every number of "
        "scenarios up to the bound, every order of registration and replacement of names, repeated shuffles, every worker assignment and "
        "completion order of the controlled pool (forked workers) and the genuine pool; the answer is exactly the drawn rows of each timeline, "
        "sources unaltered. Default sampler: rows of the source only, timelines and successive shuffles drawn independently. "
        "states: (registration, schedule, sampler answer) reached; transitions: sampler calls and pool tasks; traces: shuffles compared.")
ASSUMPTIONS = ["a sampler answers indexes of existing rows"]

pool.install()


def perms_workers(n):
    """every partition of n tasks over at most 2 workers with orders, x completion orders"""
    seen = set()
    for perm in itertools.permutations(range(n)):
        for cut in range(n + 1):
            w = (perm[:cut], perm[cut:])
            if w in seen:
                continue
            seen.add(w)
            for comp in itertools.permutations(range(n)):
                ok = all(comp.index(a) < comp.index(b) for ws in w for a, b in zip(ws, ws[1:]))
                if ok:
                    yield [list(x) for x in w if x], list(comp)


class Scripted:
    """sampler(0, n, nb): answers by number of rows n, records its calls"""

    def __init__(self, script):
        self.script, self.calls = script, []

    def __call__(self, low, high, size):
        import numpy as np

        self.calls.append((low, high, size))
        return np.array(self.script[high], dtype=int)


def run(ctx):
    import numpy as np
    import pandas as pd
    import hadar as hd
    from mc import flow as F

    H = 3

    def raw(rows, k):
        return np.arange(rows * H, dtype=float).reshape(rows, H) + 1000 * k

    def source(kind, rows, k):
        """-> (register(shuffler, name), expected matrix (rows, H), untouched())"""
        if kind == "data":
            d = raw(rows, k)
            keep = d.copy()
            return (lambda s, n: s.add_data(n, d)), keep, lambda: np.array_equal(d, keep)
        if kind == "flat":  # one scenario repeated by the pipeline
            df = pd.DataFrame({"quantity": np.arange(H) + 1000.0 * k, "other": np.arange(H) - 5.0}, index=[5, 6, 7])
            keep = df.copy(deep=True)
            p = hd.RepeatScenario(rows) + hd.Clip(lower=1000.0 * k + 1) + hd.ToShuffler("quantity")
            want = np.tile(np.clip(np.arange(H) + 1000.0 * k, 1000.0 * k + 1, None), (rows, 1))
            return (lambda s, n: s.add_pipeline(n, data=df, pipeline=p)), want, lambda: df.equals(keep) and list(df.columns) == list(keep.columns)
        if kind == "after":  # stages follow the one which names the column
            df = pd.DataFrame({"other": np.arange(H) - 5.0, "quantity": np.arange(H) + 1000.0 * k}, index=[5, 6, 7])
            keep = df.copy(deep=True)
            p = hd.ToShuffler("quantity") + hd.RepeatScenario(rows) + hd.Clip(upper=1000.0 * k + 1)
            want = np.tile(np.clip(np.arange(H) + 1000.0 * k, None, 1000.0 * k + 1), (rows, 1))
            return (lambda s, n: s.add_pipeline(n, data=df, pipeline=p)), want, lambda: df.equals(keep) and list(df.columns) == list(keep.columns)
        if kind == "already":  # the column has its name from a rename, an other column is dropped afterwards
            cols = [((s, n), tuple(1000.0 * k + 100 * s + t + (0 if n == "a" else 50) for t in range(H))) for s in range(rows) for n in ("a", "b")]
            df = F.frame(cols, [0, 1, 2])
            keep = df.copy(deep=True)
            p = hd.Rename(a="to_shuffler", b="y") + hd.Drop("y")
            want = np.array([[1000.0 * k + 100 * s + t for t in range(H)] for s in range(rows)])
            return (lambda s, n: s.add_pipeline(n, data=df, pipeline=p)), want, lambda: df.equals(keep) and list(df.columns) == list(keep.columns)
        # many scenarios, two columns each
        cols = [((s, n), tuple(1000.0 * k + 100 * s + t + (0 if n == "a" else 50) for t in range(H))) for s in range(rows) for n in EXTRA[kind]]
        df = F.frame(cols, [0, 1, 2])
        keep = df.copy(deep=True)
        p = hd.Rename(a="quantity") + hd.ToShuffler("quantity")
        want = np.array([[1000.0 * k + 100 * s + t for t in range(H)] for s in range(rows)])
        return (lambda s, n: s.add_pipeline(n, data=df, pipeline=p)), want, lambda: df.equals(keep) and list(df.columns) == list(keep.columns)

    KINDS = ("data", "flat", "multi", "single")
    EXTRA = dict(multi=("b", "a"), single=("a",), zero=(0, "a"), blank=("a", ""), many=("c", "a", 0, "b"))

    def judge(c, label, res, want, nb):
        c.check(isinstance(res, dict) and set(res) == set(want), "timelines are %s instead of %s (%s)" % (list(res), list(want), label))
        for n, w in want.items():
            g = np.asarray(res[n])
            c.check(g.shape == (nb, H), "%s has shape %s instead of %s (%s)" % (n, g.shape, (nb, H), label))
            c.check(np.array_equal(g, w), "%s is %s instead of %s (%s)" % (n, g.tolist(), w.tolist(), label))
        c.add("traces")

    # phase 1: every sampler answer, every kinds of sources
    def answers(c, t):
        kinds, nb = t
        rows = [2, 3, 1][:len(kinds)]
        names = ["y", "x", "z"][:len(kinds)]
        src = [source(k, r, i + 1) for i, (k, r) in enumerate(zip(kinds, rows))]
        pool.set_schedule(pool.Schedule())
        for ans in itertools.product(*[itertools.product(range(r), repeat=nb) for r in rows]):
            sam = Scripted({r: list(a) for r, a in zip(rows, ans)})
            s = hd.Shuffler(sampler=sam)
            for n, (reg, _, _) in zip(names, src):
                back = reg(s, n)
                c.check(back is s, "registering %s does not return the shuffler" % n)
            want = {n: m[list(a)].reshape(nb, H) for n, (_, m, _), a in zip(names, src, ans)}
            label = "%s, %d scenarios, sampler answers %s" % (kinds, nb, ans)
            r1 = s.shuffle(nb)
            judge(c, label, r1, want, nb)
            c.check(not sam.calls or sorted(sam.calls) == sorted((0, r, nb) for r in rows), "sampler is called with %s (%s)" % (sam.calls, label))
            for v in r1.values():
                v[...] = -1  # spoil the answer
            # again, other answers
            sam.script = {r: [(x + 1) % r for x in a] for r, a in zip(rows, ans)}
            judge(c, label + ", second shuffle", s.shuffle(nb), {n: m[[(x + 1) % r for x in a]].reshape(nb, H) for n, (_, m, _), a, r in zip(names, src, ans, rows)}, nb)
            c.check(all(u() for _, _, u in src), "a source is altered (%s)" % label)
            c.add("transitions", 4 * len(kinds))
            c.distinct.add((kinds, nb, ans))
            if c.over():
                return
        c.sample(label, cap=3)

    tasks = [((k,), nb) for k in KINDS for nb in (0, 1, 2, 3)]
    tasks += [((k,), nb) for k in ("zero", "blank", "many", "after", "already") for nb in (1, 2)]
    tasks += [(k, 1) for k in (("after", "data"), ("after", "already"), ("multi", "after"))]
    tasks += [(k, nb) for k in itertools.product(KINDS, repeat=2) for nb in ctx.pick((1, 2), (1, 2, 3))]
    tasks += [(k, 1) for k in itertools.product(KINDS, repeat=3)]
    core.fan_out(ctx, tasks, answers)

    # phase 2: registration histories: replace, interleave, shuffle in between
    def history(c, seq):
        sam = Scripted({})
        s = hd.Shuffler(sampler=sam)
        pool.set_schedule(pool.Schedule())
        model = {}
        for step, (n, kind) in enumerate(seq):
            rows = step + 2
            if n == "!":
                pass
            else:
                reg, m, _ = source(kind, rows, step + 1)
                reg(s, n)
                model[n] = m
            if n == "!" or step == len(seq) - 1:
                sam.script = {len(m): [len(m) - 1, 0] for m in model.values()}
                judge(c, "history %s" % (seq[:step + 1],), s.shuffle(2), {k: m[[len(m) - 1, 0]] for k, m in model.items()}, 2)
                c.add("transitions", len(model))
        c.distinct.add(seq)

    ops = [("x", "data"), ("x", "multi"), ("y", "data"), ("y", "flat"), ("!", None)]
    core.fan_out(ctx, [q for d in range(1, ctx.pick(4, 5)) for q in itertools.product(ops, repeat=d) if q[0][0] != "!"], history)

    # phase 3: schedules
    def schedules(c, t):
        w, comp, mode = t
        n = len(comp)
        kinds = ("multi", "data", "flat")[:n]
        src = [source(k, r, i + 1) for i, (k, r) in enumerate(zip(kinds, (2, 3, 4)))]
        for ans in (([1, 0], [2, 0], [3, 1]), ([0, 0], [1, 1], [0, 2])):
            sam = Scripted({r: a for r, a in zip((2, 3, 4), ans)})
            s = hd.Shuffler(sampler=sam)
            for i, (reg, _, _) in enumerate(src):
                reg(s, "n%d" % i)
            pool.set_schedule(pool.Schedule(workers=w, completion=comp, mode=mode))
            judge(c, "schedule workers %s completion %s %s" % (w, comp, mode), s.shuffle(2), {"n%d" % i: m[a] for i, ((_, m, _), a) in enumerate(zip(src, ans))}, 2)
            c.add("transitions", n)
        c.distinct.add((repr(t),))

    core.fan_out(ctx, [(w, comp, mode) for n in (1, 2, 3) for w, comp in perms_workers(n) for mode in ("fork",)], schedules)

    # phase 4: genuine pool and generator
    def genuine(c, t):
        with pool.real_pool(), core.watchdog(120, "Shuffler.shuffle"):
            src = [source(k, r, i + 1) for i, (k, r) in enumerate((("data", 5), ("multi", 4), ("single", 5), ("flat", 2)))]
            s = hd.Shuffler()
            same = raw(6, 9)
            for i, (reg, _, _) in enumerate(src):
                reg(s, "n%d" % i)
            s.add_data("twin1", same).add_data("twin2", same)
            nb = 64
            rs = [s.shuffle(nb) for _ in range(3)]
            for r in rs:
                for i, (_, m, _) in enumerate(src):
                    g = np.asarray(r["n%d" % i])
                    c.check(g.shape == (nb, H), "shape of n%d is %s" % (i, g.shape))
                    rows = {tuple(x) for x in m.tolist()}
                    c.check(all(tuple(x) in rows for x in g.tolist()), "n%d holds rows which are not in its source" % i)
                    # every row can be drawn: 64 draws among at most 6 rows miss one with probability < 1e-4, three shuffles together < 1e-13
                c.check(not np.array_equal(r["twin1"], r["twin2"]), "two timelines are drawn alike")
                c.add("traces")
            c.check(not all(np.array_equal(rs[0][k], r[k]) for r in rs[1:] for k in r), "successive shuffles are alike")
            for k, m in [("n%d" % i, m) for i, (_, m, _) in enumerate(src)] + [("twin1", same)]:
                drawn = {tuple(x) for r in rs for x in np.asarray(r[k]).tolist()}
                c.check(drawn == {tuple(x) for x in m.tolist()}, "some rows of %s are never drawn" % k)
            c.check(all(u() for _, _, u in src), "a source is altered")

    core.fan_out(ctx, list(range(3)), genuine, procs=1)

    # phase 4b: a sampler is any callable, a local function or a lambda too
    def closures(c, kinds):
        rows = (2, 3)
        src = [source(k, r, i + 1) for i, (k, r) in enumerate(zip(kinds, rows))]
        seen = []
        lock = __import__("threading").Lock()

        def local(low, high, size):
            with lock:
                seen.append((low, high, size))
            return np.arange(size) % high

        for real in (False, True):
            for label, sam in (("local function", local), ("lambda", lambda low, high, size: np.arange(size) % high)):
                s = hd.Shuffler(sampler=sam)
                for i, (reg, _, _) in enumerate(src):
                    reg(s, "n%d" % i)
                want = {"n%d" % i: m[np.arange(4) % len(m)] for i, (_, m, _) in enumerate(src)}
                if real:
                    with pool.real_pool(), core.watchdog(120, "Shuffler.shuffle"):
                        judge(c, "sampler is a %s, genuine pool" % label, s.shuffle(4), want, 4)
                else:
                    pool.set_schedule(pool.Schedule())
                    judge(c, "sampler is a %s" % label, s.shuffle(4), want, 4)
        c.distinct.add(("closure", kinds))

    core.fan_out(ctx, list(itertools.product(KINDS, repeat=2)), closures)

    # phase 4c: names of timelines and columns which resemble each other
    from mc import spec

    def named(c, t):
        scheme, shift = t
        w = spec.NAMES[scheme]
        w = [w[(shift + i) % len(w)] for i in range(4)]
        pool.set_schedule(pool.Schedule())
        for col in w:
            sam = Scripted({2: [1, 0]})
            s = hd.Shuffler(sampler=sam)
            want = {}
            for i, n in enumerate(w):
                cols = [((z, m), tuple(1000.0 * i + 100 * z + 10 * j + u for u in range(H))) for z in range(2) for j, m in enumerate(w)]
                s.add_pipeline(n, data=F.frame(cols, [4, 5, 6]), pipeline=hd.Clip(lower=0) + hd.ToShuffler(col))
                d = dict(cols)
                want[n] = np.array([d[(1, col)], d[(0, col)]])
            judge(c, "timelines %s, column %r" % (w, col), s.shuffle(2), want, 2)
            s.add_data(w[0], raw(2, 7))
            want[w[0]] = raw(2, 7)[[1, 0]]
            judge(c, "timelines %s, column %r, %r replaced" % (w, col, w[0]), s.shuffle(2), want, 2)
        c.distinct.add(("named", scheme, shift))

    core.fan_out(ctx, [(s, i) for s in spec.NAMES for i in range(0, len(spec.NAMES[s]), ctx.pick(4, 1))], named)

    # phase 4d: many rows, long horizons, values with all their digits
    def sizes(c, t):
        kind, rows, hor = t
        m = np.arange(rows * hor, dtype=float).reshape(rows, hor) / 7 + (1e9 / 3 if rows % 2 else -1e-3)
        pool.set_schedule(pool.Schedule())
        if kind == "data":
            add = lambda s: s.add_data("x", m.copy())
        else:
            df = F.frame([((s, n), tuple(m[s] if n == "q" else m[s] + 1)) for s in range(rows) for n in ("q", "b")], list(range(hor)))
            add = lambda s: s.add_pipeline("x", data=df, pipeline=hd.Clip() + hd.ToShuffler("q"))
        for label, ans in (("every row", list(range(rows))), ("rows from the last", list(range(rows))[::-1]), ("last row", [rows - 1]), ("twice each", sorted(list(range(rows)) * 2))):
            s = hd.Shuffler(sampler=Scripted({rows: ans}))
            add(s)
            g = np.asarray(s.shuffle(len(ans))["x"])
            c.check(g.shape == (len(ans), hor) and np.array_equal(g, m[ans]), "%d rows of %d steps (%s), %s: answer differs from the rows of the source" % (rows, hor, kind, label),
                    first=str(np.argwhere(g != m[ans])[:1]) if g.shape == m[ans].shape else str(g.shape))
            c.add("traces")
            c.add("transitions")
        c.distinct.add(t)

    core.fan_out(ctx, [(k, r, x) for k in ("data", "pipeline") for r, x in ((1, 1), (11, 3), (26, 2), (50, 1), (300, 2), (2, 300), (1, 8760 if ctx.thorough else 1000))], sizes)

    # phase 4e: a dozen timelines
    def dozen(c, t):
        order, pick = t
        kinds = [("data", "flat", "multi", "single", "after", "already")[(i + pick) % 6] for i in range(12)]
        src = [source(k, i + 2, i + 1) for i, k in enumerate(kinds)]
        sam = Scripted({i + 2: [(pick + 3 * i) % (i + 2), i + 1, 0] for i in range(12)})
        s = hd.Shuffler(sampler=sam)
        pool.set_schedule(pool.Schedule())
        for i in (range(12) if order == "rising" else range(11, -1, -1)):
            src[i][0](s, "n%d" % i)
        judge(c, "twelve timelines %s" % kinds, s.shuffle(3), {"n%d" % i: m[[(pick + 3 * i) % (i + 2), i + 1, 0]] for i, (_, m, _) in enumerate(src)}, 3)
        with pool.real_pool(), core.watchdog(120, "Shuffler.shuffle"):
            judge(c, "twelve timelines %s, genuine pool" % kinds, s.shuffle(3), {"n%d" % i: m[[(pick + 3 * i) % (i + 2), i + 1, 0]] for i, (_, m, _) in enumerate(src)}, 3)
        c.add("transitions", 24)
        c.distinct.add(t)

    core.fan_out(ctx, [(o, k) for o in ("rising", "falling") for k in range(6)], dozen)

    # phase 5: what can not be shuffled is refused when it is added
    df = pd.DataFrame({"a": [1.0, 2.0]})
    bad = [(df, hd.Clip() + hd.Rename(a="b")), (df, hd.Clip() + hd.ToShuffler("b")), (df, hd.ToShuffler("a") + hd.Drop("to_shuffler")), (df, hd.Clip() + hd.Clip())]
    for d, p in bad:
        s = hd.Shuffler()
        try:
            s.add_pipeline("x", data=d, pipeline=p)
        except ValueError:
            ctx.add("traces")
            ctx.check(s.shuffle(1) == {}, "a refused pipeline stays in the shuffler")
            continue
        ctx.fail("a pipeline with inputs %s and outputs %s is accepted for columns %s" % (p.plug.inputs, p.plug.outputs, list(d.columns)))
    ctx.add("states", len(ctx.distinct))
