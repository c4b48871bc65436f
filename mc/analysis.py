"""Reference reading of (study, result) pairs: tables of rows, queries as filters over rows."""
import numpy as np

from mc.spec import mat, node, stor
from mc.synth import Counter

KINDS = ("consumption", "production", "storage", "link", "to_converter", "from_converter")


def rich(n, h, start=1):
    k = Counter(start)

    def q():
        return k.cells(n, h)

    nets = {
        "default": {
            "a": node(cons=[("load", q(), q()), ("aux", q(), q())], prod=[("gen", q(), q()), ("load", q(), q())],
                      stor=[stor("cell", q(), q(), q(), q(), 3, q() / 1e6), stor("big", q(), q(), q(), q(), 5, q() / 1e6)],
                      link=[("b", q(), q()), ("c", q(), q())]),
            "b": node(cons=[("load", q(), q())], prod=[("gen", q(), q())], link=[("a", q(), q()), ("c", q(), q())]),
            "c": node(stor=[stor("cell", q(), q(), q(), q(), 0, q() / 1e6)])},
        "gas": {
            "a": node(cons=[("load", q(), q())], prod=[("gen", q(), q()), ("aux", q(), q())], stor=[stor("cell", q(), q(), q(), q(), 1, q() / 1e6)], link=[("b", q(), q())]),
            "b": node(link=[("a", q(), q())]),
            "d": node()}}
    conv = {"cv": dict(src=[(("default", "a"), q()), (("gas", "a"), q())], dest=("default", "b"), cost=q(), max=q()),
            "cw": dict(src=[(("gas", "b"), q())], dest=("default", "b"), cost=q(), max=q()),
            "cx": dict(src=[(("gas", "b"), q()), (("gas", "a"), q()), (("default", "c"), q())], dest=("gas", "a"), cost=q(), max=q())}
    return dict(h=h, n=n, nets=nets, conv=conv)


def crowd(n, h, start=1, size=12):
    """many of everything: 11 networks, a node with `size` elements of each kind, `size` converters"""
    k = Counter(start)

    def q():
        return k.cells(n, h)

    nets = {"default": {"hub": node(cons=[("c%d" % i, q(), q()) for i in range(size)], prod=[("p%d" % i, q(), q()) for i in range(size)],
                                    stor=[stor("s%d" % i, q(), q(), q(), q(), i, q() / 1e6) for i in range(size)],
                                    link=[("n%d" % i, q(), q()) for i in range(size)])}}
    for i in range(size):
        nets["default"]["n%d" % i] = node(cons=[("c0", q(), q())] if i % 4 == 3 else [], stor=[stor("s0", q(), q(), q(), q(), 1, q() / 1e6)] if i % 5 == 4 else [], prod=[("p0", q(), q())] if i % 3 == 0 else [], link=[("hub" if i % 2 == 0 else "n%d" % (i - 1), q(), q())] if i != 5 else [])
    for j in range(3):
        nets["net%d" % j] = {x: node(cons=[("c%d" % j, q(), q())], prod=[("p%d" % j, q(), q())], stor=[stor("s0", q(), q(), q(), q(), 2, q() / 1e6)]) for x in ("hub", "n1")}
    for j in range(3, 10):
        nets["net%d" % j] = {x: node(cons=[("c0", q(), q())], prod=[("p0", q(), q())], stor=[stor("s0", q(), q(), q(), q(), 2, q() / 1e6)], link=[("hub" if x == "n1" else "n1", q(), q())]) for x in ("hub", "n1")}
    conv = {"v%d" % i: dict(src=[(("net%d" % (i % 3), "hub"), q())], dest=("default", "hub"), cost=q(), max=q()) for i in range(size)}
    conv["all"] = dict(src=[(("default", "hub"), q())] + [(("net%d" % j, x), q()) for j in range(3) for x in ("hub", "n1")] + [(("default", "n%d" % i), q()) for i in range(0, size, 2)], dest=("net2", "n1"), cost=q(), max=q())
    return dict(h=h, n=n, nets=nets, conv=conv)


def _odd(v):
    v = np.asarray(v, dtype=float)
    return np.indices(v.shape).sum(axis=0) % 2 if v.ndim else 1


# other values in the same places: f(attribute, value)
VALUES = dict(
    fine=lambda a, v: np.asarray(v) / 4096 + 1 / 3,
    tiny=lambda a, v: np.asarray(v) * 1e-7,
    huge=lambda a, v: np.asarray(v) * 1e7,
    zeros=lambda a, v: np.asarray(v) * (1 - _odd(v) if a in ("eff", "cost") else _odd(v)),
    null=lambda a, v: np.asarray(v) * 0,
    signs=lambda a, v: np.asarray(v) * (1 - 2 * _odd(v)) if a == "cost" else v)


def with_values(sp, how):
    """same study, other numbers (ratios and, but for zeros, efficiencies stay)"""
    f = VALUES[how]

    def g(a, v):
        w = f(a, v)
        return float(w) if np.ndim(w) == 0 else w

    nets = {net: {nd: dict(cons=[(a, g("cost", c), g("quantity", q)) for a, c, q in e["cons"]], prod=[(a, g("cost", c), g("quantity", q)) for a, c, q in e["prod"]],
                           link=[(a, g("cost", c), g("quantity", q)) for a, c, q in e["link"]],
                           stor=[{k: (v if k == "name" or (k == "eff" and how not in ("zeros", "null")) else g(k, v)) for k, v in s.items()} for s in e["stor"]])
                  for nd, e in nodes.items()} for net, nodes in sp["nets"].items()}
    conv = {name: dict(c, cost=g("cost", c["cost"]), max=g("max", c["max"])) for name, c in sp["conv"].items()}
    return dict(sp, nets=nets, conv=conv)


def result_with(res, how):
    """the same on a result, in place"""
    f = VALUES[how]
    for net in res.networks.values():
        for nd in net.nodes.values():
            for x in nd.consumptions + nd.productions + nd.links:
                x.quantity = np.array(f("used", x.quantity), dtype=float)
            for x in nd.storages:
                x.capacity, x.flow_in, x.flow_out = (np.array(f("used", v), dtype=float) for v in (x.capacity, x.flow_in, x.flow_out))
    for cv in res.converters.values():
        cv.flow_dest = np.array(f("used", cv.flow_dest), dtype=float)
        cv.flow_src = {k: np.array(f("used", v), dtype=float) for k, v in cv.flow_src.items()}
    return res


def largest(res):
    """largest number of a result"""
    m = [1e-9]
    for net in res.networks.values():
        for nd in net.nodes.values():
            for x in nd.consumptions + nd.productions + nd.links:
                m.append(np.abs(x.quantity).max(initial=0))
            for x in nd.storages:
                m += [np.abs(v).max(initial=0) for v in (x.capacity, x.flow_in, x.flow_out)]
    for cv in res.converters.values():
        m += [np.abs(v).max(initial=0) for v in [cv.flow_dest] + list(cv.flow_src.values())]
    return float(max(m))


def table(sp, res, kind):
    """{(network, node, name, scn, t): {column: value}} from spec and a Result, our own reading"""
    out = {}
    n, h = sp["n"], sp["h"]

    def put(net, nd, name, cols):
        for s in range(n):
            for t in range(h):
                out[(net, nd, name, s, t)] = {c: float(v[s, t]) for c, v in cols.items()}

    for net, nodes in sp["nets"].items():
        for nd, e in nodes.items():
            r = res.networks[net].nodes[nd]
            if kind == "consumption":
                for (a, c, q), x in zip(e["cons"], r.consumptions):
                    put(net, nd, a, dict(cost=mat(sp, c), asked=mat(sp, q), given=np.asarray(x.quantity)))
            if kind == "production":
                for (a, c, q), x in zip(e["prod"], r.productions):
                    put(net, nd, a, dict(cost=mat(sp, c), avail=mat(sp, q), used=np.asarray(x.quantity)))
            if kind == "link":
                for (a, c, q), x in zip(e["link"], r.links):
                    put(net, nd, a, dict(cost=mat(sp, c), avail=mat(sp, q), used=np.asarray(x.quantity)))
            if kind == "storage":
                for s, x in zip(e["stor"], r.storages):
                    put(net, nd, s["name"], dict(max_capacity=mat(sp, s["capacity"]), capacity=x.capacity, max_flow_in=mat(sp, s["flow_in"]), flow_in=x.flow_in,
                                                 max_flow_out=mat(sp, s["flow_out"]), flow_out=x.flow_out, cost=mat(sp, s["cost"]),
                                                 init_capacity=mat(sp, s["init_capacity"]), eff=mat(sp, s["eff"])))
    for name, c in sp["conv"].items():
        r = res.converters[name]
        if kind == "to_converter":
            for s, ratio in c["src"]:
                put(s[0], s[1], name, dict(ratio=mat(sp, ratio), flow=r.flow_src[s], max=mat(sp, c["max"]) / mat(sp, ratio)))
        if kind == "from_converter":
            put(c["dest"][0], c["dest"][1], name, dict(flow=r.flow_dest, cost=mat(sp, c["cost"]), max=mat(sp, c["max"])))
    return out


LEVELS = ("network", "node", "element", "scn", "t")


def keep(f, v):
    """does filter f (None, value, list, slice) keep value v"""
    if f is None:
        return True
    if isinstance(f, slice):
        start = 0 if f.start is None else f.start
        step = 1 if f.step is None else f.step
        return v >= start and (f.stop is None or v < f.stop) and (v - start) % step == 0
    if isinstance(f, (list, tuple)):
        return len(f) == 0 or v in f
    return v == f


def expected(tab, filters):
    return {k: row for k, row in tab.items() if all(keep(filters.get(l), v) for l, v in zip(LEVELS, k))}


def ask(agg, kind, order, filters):
    """run the query; order: permutation of LEVELS beginning by network"""
    calls = {"node": "node", "scn": "scn", "t": "time", "element": kind}
    q = agg.network(filters.get("network")) if "network" in filters else agg.network()
    for l in order[1:]:
        f = getattr(q, calls[l])
        q = f(filters[l]) if l in filters else f()
    return q


def column(kind, l):
    if l == "element":
        return "dest" if kind == "link" else "name"
    return l


def single(f):
    return f is not None and not isinstance(f, (list, tuple, slice))


def problem(df, tab, kind, order, filters):
    """None or a message: the answer df of a query is not the expected rows"""
    import pandas as pd

    filters = dict(filters)
    filters.setdefault("network", "default")
    want = expected(tab, filters)
    if not isinstance(df, pd.DataFrame):
        return "answer is a %s, not a DataFrame" % type(df).__name__
    if not want:
        return "%d rows instead of none" % len(df) if len(df) else None
    names = list(df.index.names)
    cols = [column(kind, l) for l in order]
    # leading levels fixed to one value are dropped, the last level always stays
    drop = 0
    while drop < 4 and single(filters.get(order[drop])):
        drop += 1
    if names != cols[drop:]:
        # a list of one element may count as a single value
        d2 = 0
        while d2 < 4 and (single(filters.get(order[d2])) or (isinstance(filters.get(order[d2]), (list, tuple)) and len(filters[order[d2]]) == 1)):
            d2 += 1
        if not any(names == cols[k:] for k in range(drop, d2 + 1)):
            return "index levels are %s instead of %s" % (names, cols[drop:])
    if len(df) != len(want):
        return "%d rows instead of %d" % (len(df), len(want))
    rows = list(want.items())
    if not rows:
        return None
    wantcols = sorted(rows[0][1])
    got = sorted(c for c in df.columns if c not in ("t", "scn"))
    if got != wantcols:
        return "columns are %s instead of %s" % (got, wantcols)
    pos = [LEVELS.index(order[cols.index(c)]) for c in names]
    exp = {tuple(k[p] for p in pos): row for k, row in rows}
    last = None
    vals = df[wantcols].values
    for i, key in enumerate(df.index):
        key = key if isinstance(key, tuple) else (key,)
        if key not in exp:
            return "unexpected row %s" % (key,)
        if last is not None and not last < key:
            return "rows are not sorted: %s before %s" % (last, key)
        last = key
        for j, c in enumerate(wantcols):
            w = exp[key][c]
            g = vals[i, j]
            if not abs(g - w) <= 1e-9 * max(1e-3, abs(w)):
                return "%s of %s is %r instead of %r" % (c, dict(zip(names, key)), g, w)
    return None
