"""Exploration of the optimizer shared by C01..C04: every study of the families
is built with the public API, solved by LPOptimizer and the answer replayed
through the transition relation of the reference model."""
import numpy as np

from mc import core, pool

REAL = ("forms", "ladder", "mixed")  # solved with the genuine multiprocessing.Pool too


def prepare():
    pool.install()


def specs_of(ctx, names):
    from mc import families

    out = []
    for f in names:
        for it in families.ALL[f](ctx):
            it["family"] = f
            out.append(it)
    return out


def show(spec, cell=None):
    """Readable form of one scenario of a study, for samples and replay files."""
    from mc.spec import mat

    s = 0 if cell is None else cell

    def v(x):
        return mat(spec, x)[s].tolist() if spec["n"] else []

    nets = {net: {nd: dict(
        cons=[(a, v(c), v(q)) for a, c, q in e["cons"]], prod=[(a, v(c), v(q)) for a, c, q in e["prod"]],
        link=[(a, v(c), v(q)) for a, c, q in e["link"]],
        stor=[dict(name=t["name"], init_capacity=t["init_capacity"], **{k: v(t[k]) for k in ("capacity", "flow_in", "flow_out", "cost", "eff")})
              for t in e["stor"]]) for nd, e in nodes.items()} for net, nodes in spec["nets"].items()}
    conv = {n: dict(src=[(list(k), v(r)) for k, r in c["src"]], dest=list(c["dest"]), cost=v(c["cost"]), max=v(c["max"]))
            for n, c in spec.get("conv", {}).items()}
    return dict(horizon=spec["h"], nb_scn=spec["n"], scenario_shown=s, networks=nets, converters=conv)


def answers(ctx, it):
    """yield (how, answer) of the real code for one study"""
    from mc import spec as S

    sp = it["spec"]
    pool.set_schedule(pool.Schedule())
    yield "controlled pool", S.extract(sp, S.solve(S.build(sp)))
    if it["family"] in REAL and sp["n"] <= 12:
        with pool.real_pool():
            yield "multiprocessing.Pool", S.extract(sp, S.solve(S.build(sp)))


def explore(ctx, names, judge, want=lambda spec: True):
    its = [i for i in specs_of(ctx, names) if want(i["spec"])]

    def one(c, it):
        for how, x in answers(c, it):
            try:
                judge(c, it, x)
            except core.Violation as e:
                d = dict(e.data or {}, study_family=it["name"], solved_with=how)
                d["study"] = show(it["spec"], d.pop("scn", None))
                raise core.Violation("%s [study %s]" % (e.what, it["name"]), d)

    core.fan_out(ctx, its, one)
    ctx.notes["studies"] = len(its)


def has(kind):
    def f(spec):
        return any(e[kind] for nodes in spec["nets"].values() for e in nodes.values())

    return f


def first_scn(msg):
    import re

    m = re.search(r"\(scn, t\)=\((\d+), (\d+)\)", msg)
    return int(m.group(1)) if m else None
