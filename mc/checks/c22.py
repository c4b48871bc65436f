import itertools

from mc import core

TITLE = "Faults stay within their parameters and a seed reproduces them"
LEVEL = "model_checking"
RULE = ("Fault under a controlled random generator: for every horizon, downtime range and frequency of the grid, every sequence of answers of "
        "the generator is explored (stateless depth-first search); each loss profile must be reachable in the reference automaton (at most one "
        "fault drawn per time step, each removing the loss over downtime_min..downtime_max steps from a step of the horizon; none at frequency 0, "
        "one per step at frequency 1), and every single fault must be reached; then every seed of a range, on every history of previous random "
        "draws and runs: identical outcome. Then long horizons (to 8760 steps): number of faults at frequencies 0, 1 and between. states: profiles of the automaton; transitions: random answers; traces: runs of the real stage.")
ASSUMPTIONS = ["downtime_min < downtime_max", "the maximal downtime may be counted inclusive or exclusive"]


def reach(h, dmin, dmax, loss, ks):
    """loss profiles of exactly k faults, k in ks"""
    single = set()
    for b in range(h):
        for d in range(dmin, dmax + 1):
            single.add(tuple(loss if b <= t < b + d else 0 for t in range(h)))
    layers = [{(0,) * h}]
    for _ in range(max(ks)):
        layers.append({tuple(a + b for a, b in zip(x, y)) for x in layers[-1] for y in single})
    return set().union(*[layers[k] for k in ks])


def run(ctx):
    import numpy as np
    import hadar as hd
    from mc import flow as F, rng

    def stage(h, dmin, dmax, freq, loss=10, seed=None):
        return hd.Fault(loss=loss, occur_freq=freq, downtime_min=dmin, downtime_max=dmax, seed=seed)

    def frame(h, scn=1, extra=False, base=100.0):
        cols = []
        for s in range(scn):
            cols.append(((s, "quantity"), tuple(base * (s + 1) + t for t in range(h))))
            if extra:
                cols.append(((s, "b"), tuple(-1.0 - t - s for t in range(h))))
        return cols

    def profiles(c, st, cols, h, label):
        """run and return [loss profile per scenario]; everything else must be unaltered"""
        idx = [3 * t + 1 for t in range(h)]
        df = F.frame(cols, idx)
        keep = df.copy(deep=True)
        out = st(df)
        c.check(df.equals(keep), "Fault altered its input (%s)" % label)
        got, gi = F.read(out)
        c.check(set(got) == {k for k, _ in cols} and gi == idx, "columns or index of the answer are %s, %s (%s)" % (sorted(got), gi, label))
        res = []
        for k, v in cols:
            if k[1] == "quantity":
                res.append(tuple(round(a - b, 9) for a, b in zip(v, got[k])))
            else:
                c.check(F.same(got[k], v), "column %s altered (%s)" % (k, label))
        c.add("traces")
        return res

    def one(c, t):
        h, dmin, dmax, freq = t
        label = "horizon=%d downtime=[%d, %d] occur_freq=%s" % t
        ks = [0] if freq == 0 else ([h] if freq == 1 else range(h + 1))
        ok = reach(h, dmin, dmax, 10, ks)
        c.add("states", len(ok))
        seen = set()
        st = stage(h, dmin, dmax, freq)
        cols = frame(h)
        d0 = rng.used["draws"]
        for p in rng.explore(lambda: profiles(c, st, cols, h, label)):
            for x in p:
                if x not in ok:
                    c.fail("loss %s is not possible (%s)" % (x, label), answers=[a for a, _ in rng._trail])
                seen.add(x)
            c.distinct.add((t, p[0]))
            if c.over():
                return
        c.add("transitions", rng.used["draws"] - d0)
        # genuine generator, a range of seeds
        for seed in range(ctx.pick(150, 1000)):
            p = profiles(c, stage(h, dmin, dmax, freq, seed=seed), cols, h, label + " seed=%d" % seed)
            for x in p:
                c.check(x in ok, "loss %s is not possible (%s, seed=%d)" % (x, label, seed))
                seen.add(x)
        if 0 < freq < 1:
            # each single fault: any begin, any downtime below the maximum
            for b in range(h):
                for d in range(dmin, dmax):
                    w = tuple(10 if b <= t < b + d else 0 for t in range(h))
                    c.check(w in seen, "a fault at step %d during %d steps never happens (%s)" % (b, d, label))
            c.check((0,) * h in seen, "a scenario without fault never happens (%s)" % label)
        if freq == 1 and h == 1 and dmin == 0:
            c.check((0,) in seen, "a fault without downtime never happens (%s)" % label)
        c.sample(dict(case=label, profiles_reached=len(seen)), cap=4)

    cases = [(h, a, b, f) for h in ctx.pick((1, 2, 3), (1, 2, 3, 4)) for a, b in ((1, 2), (1, 3), (2, 4), (0, 1), (0, 3)) for f in (0, 0.5, 1)]
    cases += [(4, 1, 2, 0.5), (4, 1, 3, 1)]
    core.fan_out(ctx, sorted(set(cases), key=lambda t: -t[0]), one)

    # long horizons: as many faults as steps at 1, none at 0, about the given share between
    def long(c, t):
        h, freq, seeds = t
        label = "horizon=%d occur_freq=%s" % (h, freq)
        for dmin, dmax in ((1, 2), (8, 10)):
            total, cells = 0.0, 0
            for seed in range(seeds):
                p = profiles(c, stage(h, dmin, dmax, freq, loss=4, seed=seed), frame(h), h, label)[0]
                c.check(all(x >= 0 and x % 4 == 0 for x in p), "loss %s is not a number of faults (%s, seed=%d)" % (p, label, seed))
                nb = sum(p) / 4
                if freq == 0:
                    c.check(nb == 0, "%d steps lost without fault (%s, seed=%d)" % (nb, label, seed))
                if freq == 1:
                    c.check(h <= nb <= h * dmax, "%d faults remove %d steps (%s, downtime [%d, %d], seed=%d)" % (h, nb, label, dmin, dmax, seed))
                total += nb
                cells += h
            if freq:  # far beyond what chance allows: 6 standard deviations of the number of faults, downtimes cut at the end
                w = 6 * (freq * (1 - freq) / cells) ** 0.5
                lo, hi = max(0, freq - w) * (dmin - dmin * dmin / h), (freq + w) * dmax
                c.check(lo <= total / cells <= hi, "%s steps are lost in %d, %s to %s expected (%s, downtime [%d, %d])" % (total, cells, lo * cells, hi * cells, label, dmin, dmax))
        c.distinct.add(("long", t))

    core.fan_out(ctx, [(h, f, ctx.pick(40, 400)) for h in (25, 60, 168, 400) for f in (0, 0.1, 0.5, 0.9, 1)] + [(8760, f, ctx.pick(2, 10)) for f in (0, 0.01, 1)], long)

    # two scenarios, other columns: each scenario is hit on its own
    def many(c, t):
        h, freq = t
        ok = reach(h, 1, 3, 10, range(h + 1) if freq == 0.5 else [h])
        st = stage(h, 1, 3, freq)
        cols = frame(h, scn=2, extra=True)
        d0 = rng.used["draws"]
        pairs = set()
        for p in rng.explore(lambda: profiles(c, st, cols, h, "two scenarios, horizon=%d" % h)):
            c.check(len(p) == 2 and all(x in ok for x in p), "losses %s are not possible (two scenarios, horizon %d)" % (p, h))
            pairs.add(tuple(p))
        c.add("transitions", rng.used["draws"] - d0)
        c.distinct.add((h, freq, len(pairs)))

    core.fan_out(ctx, [(1, 0.5), (2, 0.5), (1, 1)], many)

    # fractional and negative losses scale the profile
    def losses(c, loss):
        for seed in range(20):
            a = profiles(c, stage(4, 1, 3, 0.5, loss=loss, seed=seed), frame(4), 4, "loss=%s" % loss)[0]
            b = profiles(c, stage(4, 1, 3, 0.5, loss=1, seed=seed), frame(4), 4, "loss=1")[0]
            c.check(F.same(a, [loss * x for x in b]), "same seed, loss %s: %s is not %s times %s" % (loss, a, loss, b))

    core.fan_out(ctx, [0, 0.5, 2, 37.25], losses)

    # the loss does not depend on the quantities it is removed from
    def quantities(c, how):
        vals = dict(null=lambda t: 0.0, negative=lambda t: -50.0 - t, signs=lambda t: (-1.0) ** t * t, small=lambda t: 0.25 * t, huge=lambda t: 1e7 + t)[how]
        h = 8
        for seed in range(40):
            a = profiles(c, stage(h, 1, 4, 0.5, seed=seed), [((0, "quantity"), tuple(vals(t) for t in range(h)))], h, "%s quantities" % how)[0]
            b = profiles(c, stage(h, 1, 4, 0.5, seed=seed), frame(h), h, "plain quantities")[0]
            c.check(F.same(a, b), "same seed, %s quantities: %s is removed instead of %s" % (how, a, b))
        c.distinct.add(("quantities", how))

    core.fan_out(ctx, ["null", "negative", "signs", "small", "huge"], quantities)

    # a seed reproduces the faults whatever happened before
    def seeds(c, seed):
        h = 12
        cols = frame(h, scn=2, extra=True)
        kw = dict(dmin=1, dmax=5, freq=0.4)
        outs = []

        def go(st):
            return profiles(c, st, cols, h, "seed=%s" % seed)

        first = go(stage(h, seed=seed, **kw))
        st = stage(h, seed=seed, **kw)
        histories = [("fresh stage", lambda: None, None), ("global seed 1", lambda: np.random.seed(1), None), ("global seed 2", lambda: np.random.seed(2), None),
                     ("after draws", lambda: np.random.rand(7), None), ("same stage again", lambda: None, st), ("same stage after another seed", lambda: go(stage(h, seed=seed + 1, **kw)), st),
                     ("after an unseeded run", lambda: go(stage(h, **kw)), st), ("inside a pipeline", lambda: None, hd.Clip() + stage(h, seed=seed, **kw))]
        for (l1, f1, s1), (l2, f2, s2) in itertools.product(histories, repeat=2):
            f1()
            f2()
            x = go(s2 or stage(h, seed=seed, **kw))
            c.check(x == first, "seed=%s gives %s after (%s, %s) instead of %s" % (seed, x, l1, l2, first))
        c.distinct.add(("seed", repr(first)))

    core.fan_out(ctx, list(range(ctx.pick(8, 40))) + [2 ** 32 - 2, 12345], seeds)

    ctx.check(sum(1 for d in ctx.distinct if d[0] == "seed") > 1, "every seed gives the same faults")

    # without seed the global state does not decide: independent runs
    got = set()
    for _ in range(24):
        np.random.seed(7)
        got.add(repr(profiles(ctx, stage(60, 1, 5, 0.5), frame(60), 60, "unseeded")))
    ctx.check(len(got) > 1, "unseeded faults are all alike")
