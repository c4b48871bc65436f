"""Studies with one single optimal dispatch (strictly ordered costs, no ties): every
correct solver run gives the same numbers. Data differ for each scenario."""
import numpy as np

from mc.spec import node, stor


def base(n, h=3, shift=0, perm=None):
    i = np.arange(n * h).reshape(n, h) + shift
    if perm is not None:
        i = i[list(perm)]
        n = len(perm)
    nets = {
        "elec": {
            "a": node(cons=[("load", 1000 + i % 5, 5 + (i * 7) % 11)], prod=[("gen", 3 + (i % 4) / 10, 3 + (i * 5) % 9), ("peak", 40.5 + (i % 3), 2)],
                      link=[("b", 0.25 + (i % 4) / 50, 2 + i % 3)]),
            "b": node(cons=[("load", 900, 2 + (i * 3) % 7)], prod=[("gen", 7.5 + (i % 5) / 9, (i * 11) % 8)],
                      stor=[stor("cell", 4 + i % 2, 3 - i % 3 / 2, 3 - i % 4 / 3, 0.01 + (i % 3) / 300, 1, 0.75 - (i % 2) / 8)], link=[("a", 0.35, 1 + i % 2)])},
        "gas": {"a": node(cons=[("heat", 500, 1 + i % 2)], prod=[("well", 1.1 + (i % 3) / 7, 4 + i % 3)])}}
    conv = {"turb": dict(src=[(("gas", "a"), 0.5 + (i % 5) / 8)], dest=("elec", "b"), cost=0.4 + (i % 7) / 30, max=1 + i % 2)}
    return dict(h=h, n=n, nets=nets, conv=conv)


def simple(n, h=2, shift=0, perm=None):
    i = np.arange(n * h).reshape(n, h) + shift
    if perm is not None:
        i = i[list(perm)]
        n = len(perm)
    nets = {"default": {"a": node(cons=[("load", 100, 1 + i)], prod=[("gen", 2, 2 * (1 + i) / 3)], link=[("b", 1, 4)]),
                        "b": node(cons=[("load", 50, 1)], prod=[("gen", 5, i % 3)])}}
    return dict(h=h, n=n, nets=nets, conv={})


def flat(x):
    """extracted answer -> {label: matrix}"""
    out = {}
    for net, nodes in x["nets"].items():
        for nd, r in nodes.items():
            for k in ("cons", "prod", "link"):
                for j, v in enumerate(r[k]):
                    out[(net, nd, k, j)] = v
            for j, s in enumerate(r["stor"]):
                for k, v in s.items():
                    out[(net, nd, "stor", j, k)] = v
    for name, c in x["conv"].items():
        out[(name, "dest")] = c["dest"]
        for s, v in c["src"].items():
            out[(name, "src", s)] = v
    return out


def differ(a, b, tol=1e-6):
    a, b = flat(a), flat(b)
    if a.keys() != b.keys():
        return "different elements"
    for k in a:
        if a[k].shape != b[k].shape:
            return "%s: shape %s instead of %s" % (k, a[k].shape, b[k].shape)
        m = ~(np.abs(a[k] - b[k]) <= tol * np.maximum(1, np.abs(b[k])))
        if m.any():
            i = tuple(int(z) for z in np.argwhere(m)[0])
            return "%s at (scn, t)=%s: %r instead of %r" % (k, i, a[k][i], b[k][i])
    return None


def row(x, s):
    """answer restricted to scenario s"""
    import copy

    def cut(v):
        return v[s:s + 1]

    y = copy.deepcopy(x)
    for nodes in y["nets"].values():
        for r in nodes.values():
            for k in ("cons", "prod", "link"):
                r[k] = [cut(v) for v in r[k]]
            r["stor"] = [{k: cut(v) for k, v in t.items()} for t in r["stor"]]
    for c in y["conv"].values():
        c["dest"] = cut(c["dest"])
        c["src"] = {k: cut(v) for k, v in c["src"].items()}
    return y
