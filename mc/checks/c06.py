import itertools

from mc import core, lp, pool

TITLE = "A study without admissible dispatch is refused, any other is answered"
LEVEL = "model_checking"
RULE = ("every single-scenario study of a bounded family where stored energy may have nowhere to go (initial level above capacity, "
        "capacity shrinking, flow and load limits, with or without neighbour): the explicit-state model decides whether a dispatch path "
        "exists (integer data, no loss: exact); LPOptimizer must raise iff none does. Then every placement of infeasible scenarios "
        "among 3 and completion order. states/transitions of the model; traces: studies solved.")
ASSUMPTIONS = ["efficiency 1 so that the lattice is exact", "infeasibility only comes from storages: loads can always be shed"]

lp.prepare()


def run(ctx):
    import numpy as np
    from mc import spec as S, ref
    from mc.spec import node, stor

    def specs():
        H = (1, 2, 3)
        for h in H:
            caps = {1: [(0,), (1,), (2,)], 2: [(1, 1), (2, 0), (0, 2), (3, 1)], 3: [(2, 1, 0), (3, 0, 2), (1, 1, 1)]}[h]
            louts = {1: [(0,), (1,), (3,)], 2: [(1, 1), (2, 0), (0, 1)], 3: [(1, 1, 1), (2, 0, 1)]}[h]
            loads = {1: [(0,), (1,), (2,)], 2: [(1, 0), (0, 2), (2, 1)], 3: [(1, 0, 1), (0, 2, 0), (1, 1, 1)]}[h]
            for cap, fo, ld, init, link in itertools.product(caps, louts, loads, (0, 1, 2, 3), (0, 1)):
                yield dict(h=h, n=1, conv={}, nets={"default": {
                    "a": node(cons=[("load", 10, list(ld))], prod=[("gen", 1, 1)], stor=[stor("cell", list(cap), 1, list(fo), 0, init, 1)],
                              link=[("b", 1, link)]),
                    "b": node(cons=[("load", 5, 1)])}}), "one"
            for cap, init, fin in itertools.product(caps, (1, 2, 3), (0, 1)):
                # energy may go to a second storage
                yield dict(h=h, n=1, conv={}, nets={"default": {
                    "a": node(stor=[stor("cell", list(cap), 1, 2, 0, init, 1), stor("other", 2, fin, 2, 0, 0, 1)])}}), "two"
                # and through a converter
                yield dict(h=h, n=1, nets={"default": {"a": node(stor=[stor("cell", list(cap), 1, 2, 0, init, 1)])}, "gas": {"x": node(cons=[("load", 3, 1)])}},
                           conv={"cv": dict(src=[(("default", "a"), 1)], dest=("gas", "x"), cost=1, max=fin)}), "conv"

    def attempt(sp):
        try:
            return True, S.extract(sp, S.solve(S.build(sp)))
        except core.Hang:
            raise
        except Exception as e:
            return False, e

    def one(c, t):
        sp, kind = t
        s0, t0 = ref.Stats.states, ref.Stats.transitions
        feasible = ref.Model(sp).best(0) is not None
        c.add("states", ref.Stats.states - s0)
        c.add("transitions", ref.Stats.transitions - t0)
        pool.set_schedule(pool.Schedule())
        ok, x = attempt(sp)
        c.add("traces")
        c.add("feasible" if feasible else "infeasible")
        if feasible:
            c.check(ok, "study with an admissible dispatch is refused: %r" % x, study=lp.show(sp))
            bad = S.issues_balance(sp, x) + S.issues_storage(sp, x)
            c.check(not bad, bad and bad[0], study=lp.show(sp))
        else:
            c.check(not ok, "study without any admissible dispatch got an answer instead of an error", study=lp.show(sp))
        c.sample(dict(feasible=feasible, study=lp.show(sp)))

    core.fan_out(ctx, list(specs()), one)
    ctx.check(ctx.count.get("infeasible", 0) > 50 and ctx.count.get("feasible", 0) > 50, "harness: vacuous family")

    # infeasible scenarios among others
    def multi(c, t):
        bad, comp, mode, kind = t
        n = len(bad)
        load = [[0, 3] if b else [3, 0] for b in bad]
        sp = dict(h=2, n=n, conv={}, nets={"default": {"a": node(cons=[("load", 10, load)], prod=[("gen", 1, 1)],
                                                                 stor=[stor("cell", [[1, 1]] * n, 1, 2, 0, 2, 1)])}})
        for s in range(n):
            one_s = dict(sp, n=1, nets={"default": {"a": node(cons=[("load", 10, load[s])], prod=[("gen", 1, 1)], stor=[stor("cell", 1, 1, 2, 0, 2, 1)])}})
            assert (ref.Model(one_s).best(0) is None) == bool(bad[s])
        if kind == "real":
            with pool.real_pool():
                ok, x = attempt(sp)
        else:
            pool.set_schedule(pool.Schedule(completion=comp, mode=mode))
            ok, x = attempt(sp)
        c.add("traces")
        if any(bad):
            c.check(not ok, "scenarios %s have no admissible dispatch but the study got an answer" % [i for i in range(n) if bad[i]], study=lp.show(sp))
        else:
            c.check(ok, "feasible study refused: %r" % x, study=lp.show(sp))

    tasks = [(bad, list(comp), mode, "ctl") for n in (1, 2, 3) for bad in itertools.product((0, 1), repeat=n)
             for comp in itertools.permutations(range(n)) for mode in ("fork",)]
    # one infeasible scenario among many, at every rank
    tasks += [(tuple(int(i == k) for i in range(n)), list(range(n))[::d], "fork", "ctl") for n, ks in ((12, range(13)), (40, (0, 9, 20, 39, 40)))
              for k in ks for d in (1, -1)]
    tasks += [(tuple(int(i == k) for i in range(40)), None, None, "real") for k in (1, 17, 39, 40)]
    tasks += [(bad, None, None, "real") for n in (1, 3) for bad in itertools.product((0, 1), repeat=n)]
    core.fan_out(ctx, tasks, multi)
