"""Canonical, plain reading of hadar objects through their public attributes."""
import numpy as np


def num(v, n, h):
    return tuple(tuple(float(v[s, t]) for t in range(h)) for s in range(n))


def study(st):
    n, h = st.nb_scn, st.horizon
    nets = {}
    for net, network in st.networks.items():
        nets[net] = {}
        for nd, x in network.nodes.items():
            nets[net][nd] = dict(
                cons=[(c.name, num(c.cost, n, h), num(c.quantity, n, h)) for c in x.consumptions],
                prod=[(c.name, num(c.cost, n, h), num(c.quantity, n, h)) for c in x.productions],
                stor=[(c.name, num(c.capacity, n, h), num(c.flow_in, n, h), num(c.flow_out, n, h), num(c.cost, n, h),
                       float(c.init_capacity), num(c.eff, n, h)) for c in x.storages],
                link=[(c.dest, num(c.cost, n, h), num(c.quantity, n, h)) for c in x.links])
    conv = {}
    for name, c in st.converters.items():
        full = bool(c.dest_network or c.dest_node) or not isinstance(c.cost, (int, float))
        conv[name] = dict(name=c.name, src={tuple(k): num(v, n, h) for k, v in c.src_ratios.items()},
                          dest=(c.dest_network, c.dest_node) if full else None,
                          cost=num(c.cost, n, h) if full else None, max=num(c.max, n, h) if full else None)
    return dict(h=h, n=n, nets=nets, conv=conv)


def of_spec(sp):
    """the dump the study built from spec must have"""
    from mc.spec import mat

    def m(v):
        return tuple(tuple(float(x) for x in r) for r in mat(sp, v))

    nets = {net: {nd: dict(
        cons=[(a, m(c), m(q)) for a, c, q in e["cons"]], prod=[(a, m(c), m(q)) for a, c, q in e["prod"]],
        stor=[(s["name"], m(s["capacity"]), m(s["flow_in"]), m(s["flow_out"]), m(s["cost"]), float(s["init_capacity"]), m(s["eff"])) for s in e["stor"]],
        link=[(a, m(c), m(q)) for a, c, q in e["link"]]) for nd, e in nodes.items()} for net, nodes in sp["nets"].items()}
    conv = {name: dict(name=name, src={tuple(k): m(r) for k, r in c["src"]}, dest=tuple(c["dest"]), cost=m(c["cost"]), max=m(c["max"]))
            for name, c in sp.get("conv", {}).items()}
    return dict(h=sp["h"], n=sp["n"], nets=nets, conv=conv)


def arr(a):
    a = np.asarray(a, dtype=float)
    return (a.shape, tuple(a.ravel().tolist()))


def result(r):
    nets = {net: {nd: dict(
        cons=[(c.name, arr(c.quantity)) for c in x.consumptions], prod=[(c.name, arr(c.quantity)) for c in x.productions],
        stor=[(c.name, arr(c.capacity), arr(c.flow_in), arr(c.flow_out)) for c in x.storages],
        link=[(c.dest, arr(c.quantity)) for c in x.links]) for nd, x in network.nodes.items()} for net, network in r.networks.items()}
    conv = {name: dict(name=c.name, src={tuple(k): arr(v) for k, v in c.flow_src.items()}, dest=arr(c.flow_dest)) for name, c in r.converters.items()}
    return dict(nets=nets, conv=conv)


def diff(a, b, path=""):
    """first difference between two dumps, None if equal (dict order matters not)"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return "%s: %s instead of %s" % (path, sorted(map(str, a)), sorted(map(str, b)))
        for k in a:
            d = diff(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items instead of %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r instead of %r" % (path, a, b)
