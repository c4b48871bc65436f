import itertools
import os

from mc import core, lp, pool

TITLE = "Each scenario's answer is its own, whatever the worker schedule"
LEVEL = "model_checking"
RULE = ("for studies of 1..N scenarios: every assignment of scenarios to workers x every order inside each worker x every completion "
        "order, run on the real solve code under a controlled pool of forked workers; each answer compared with the "
        "scenario solved alone. Then every permutation of the scenarios, and the genuine pool with 1..8 workers, up to 260 scenarios. states: distinct "
        "schedules; transitions: scenario jobs executed; traces: solves compared.")
ASSUMPTIONS = ["studies have a unique optimum, so that equal means equal", "jobs share nothing but the pickled arguments (crossed through pickle as the real pool does)"]

lp.prepare()


def assignments(n):
    """all ways to give tasks 0..n-1 to indistinct workers, each with an order"""
    def rec(rest):
        if not rest:
            yield []
            return
        first = rest[0]
        others = rest[1:]
        for k in range(len(others) + 1):
            for sub in itertools.combinations(others, k):
                left = [t for t in others if t not in sub]
                for order in itertools.permutations((first,) + sub):
                    for tail in rec(left):
                        yield [list(order)] + tail

    yield from rec(list(range(n)))


def run(ctx):
    import multiprocessing
    from mc import spec as S, uniq

    makers = [("simple", uniq.simple), ("full", uniq.base)]
    alone = {}

    def one_alone(name, mk, s, n):
        k = (name, s, n)
        if k not in alone:
            pool.set_schedule(pool.Schedule())
            sp = mk(n, perm=[s])
            alone[k] = S.extract(sp, S.solve(S.build(sp)))
        return alone[k]

    def compare(c, name, mk, n, x, order, how):
        for pos, s in enumerate(order):
            d = uniq.differ(uniq.row(x, pos), one_alone(name, mk, s, n))
            c.check(d is None, "scenario %d of study %s differs from the same scenario solved alone: %s (%s)" % (pos, name, d, how),
                    schedule=repr(how), nb_scn=n)
        c.add("traces")

    tasks = []
    for name, mk in makers:
        for n in range(1, ctx.pick(5, 6)):
            full = name == "simple"
            asg = list(assignments(n))
            for w in asg:
                comps = list(itertools.permutations(range(n)))
                if n == 5:
                    comps = [comps[0], comps[-1], comps[len(comps) // 2 + 1]]
                elif not full:
                    comps = [comps[0], comps[-1]]
                for comp in comps:
                    for mode in ("fork",):
                        tasks.append((name, n, w, list(comp), mode))
    mkd = dict(makers)

    for name, mk in makers:
        for n in range(1, ctx.pick(5, 6)):
            for s in range(n):
                one_alone(name, mk, s, n)

    def go(c, task):
        name, n, w, comp, mode = task
        pool.set_schedule(pool.Schedule(workers=w, completion=comp, mode=mode))
        sp = mkd[name](n)
        x = S.extract(sp, S.solve(S.build(sp)))
        compare(c, name, mkd[name], n, x, range(n), pool.Schedule(w, comp, mode))
        c.add("states")
        c.add("transitions", n)
        c.sample(dict(study=name, nb_scn=n, workers=w, completion=comp, mode=mode))

    core.fan_out(ctx, tasks, go)

    # permutations of scenarios
    def perm(c, task):
        name, n, p = task
        pool.set_schedule(pool.Schedule())
        sp = mkd[name](n, perm=p)
        x = S.extract(sp, S.solve(S.build(sp)))
        compare(c, name, mkd[name], n, x, p, "scenarios permuted %s" % (p,))
        c.add("states")
        c.add("transitions", n)

    core.fan_out(ctx, [(name, n, p) for name, _ in makers for n in (2, 3, 4) for p in itertools.permutations(range(n))], perm)

    # genuine pool, several sizes
    real_count = os.cpu_count
    try:
        for cpus in (1, 2, 3, 8):
            for n in ctx.pick((1, 2, 5, 17, 41), (1, 2, 3, 4, 5, 8, 9, 17, 33, 64, 101)) + ((260,) if cpus == 8 else ()):
                os.cpu_count = lambda: cpus
                with pool.real_pool():
                    sp = uniq.simple(n)
                    x = S.extract(sp, S.solve(S.build(sp)))
                os.cpu_count = real_count
                compare(ctx, "simple", uniq.simple, n, x, range(n), "multiprocessing.Pool with %d workers, %d scenarios" % (cpus, n))
                ctx.add("real_pool_runs")
    finally:
        os.cpu_count = real_count
    ctx.notes["controlled_pools_used"] = "yes" if pool.stats["pools"] else "no"
