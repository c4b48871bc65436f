"""Bounded families of studies explored by the optimizer checks.

Each item: dict(name, spec, ref) with ref one of
  None          only admissibility is decided on it
  ("grid", k)   one-step cells, integer data, link capacities <= k: exact optimum by enumeration
  ("dp", unit, flow_step, conv_step, exact)  lattice path enumeration
Value combinations are packed on the scenario (and time) axis: each scenario
is an independent problem.
"""
import itertools

import numpy as np

from mc.spec import node, stor

prod_ = itertools.product


def item(name, spec, ref=None, base=None, factor=1.0):
    """base, factor: spec is base with every quantity times factor, so that its optimum is factor times the one of base"""
    return dict(name=name, spec=spec, ref=ref, base=spec if base is None else base, factor=factor)


def shape_cells(cells, h):
    """list of per-cell dicts -> function key -> (n, h) array; pads by repeating cells."""
    cells = list(cells)
    size = len(cells)
    while len(cells) % h:
        cells.append(cells[len(cells) % size])
    n = len(cells) // h

    def get(k):
        return np.array([c[k] for c in cells], dtype=float).reshape(n, h)

    return n, get


def scn(cells, key, h=None):
    """scenario column (n, 1) or matrix (n, h) from list of per-scenario dicts"""
    v = [c[key] for c in cells]
    a = np.array(v, dtype=float)
    return a.reshape(len(v), 1) if a.ndim == 1 else a


COSTS = [
    dict(p=[1, 3, 5], l=[10, 20, 30], k=[1, 1, 1, 1, 1, 1]),
    dict(p=[5, 1, 3], l=[4, 2, 6], k=[0, 2, 1, 3, 0, 1]),
    dict(p=[2, -1, 2], l=[7, 7, 1], k=[2, 0, 3, 0, 2, 1]),
    dict(p=[0, 4, 0], l=[0, 5, 3], k=[0, 0, 1, -1, 0, 2]),
]


def topologies(N, self_links=False):
    pairs = [(i, j) for i in range(N) for j in range(N) if self_links or i != j]
    for k in range(len(pairs) + 1):
        for sub in itertools.combinations(pairs, k):
            yield sub


def fam_topology(ctx):
    names = ["a", "b", "c"]
    for N in (1, 2, 3):
        if N == 1:
            lo, ca, tabs = [0, 1, 2, 3], [0, 1, 2, 3], COSTS
        elif N == 2:
            lo, ca, tabs = [0, 1, 2], [0, 1, 2, 3], COSTS
        else:
            lo, ca, tabs = [0, 1, 2], [0, 1, 3], ctx.pick(COSTS[:2], COSTS)
        for topo in topologies(N, self_links=N <= 2):
            cells = []
            for ti, tab in enumerate(tabs):
                for ci, (ls, cs) in enumerate(prod_(prod_(lo, repeat=N), prod_(ca, repeat=N))):
                    c = {}
                    for i in range(N):
                        c["l%d" % i], c["c%d" % i] = ls[i], cs[i]
                        c["pc%d" % i] = tab["p"][(i + ci) % 3]
                        c["lc%d" % i] = tab["l"][(i + ci // 3) % 3]
                    for j, _ in enumerate(topo):
                        c["k%d" % j] = (1, 2, 0, 2)[(ci + j + ti) % 4]
                        c["kc%d" % j] = tab["k"][(j + ci) % 6]
                    cells.append(c)
            n, g = shape_cells(cells, 9 if N == 3 else 12)
            nodes = {}
            for i in range(N):
                nodes[names[i]] = node(
                    cons=[("load", g("lc%d" % i), g("l%d" % i))],
                    prod=[("gen", g("pc%d" % i), g("c%d" % i))],
                    link=[(names[b], g("kc%d" % j), g("k%d" % j)) for j, (a, b) in enumerate(topo) if a == i])
            yield item("topology-%d-%s" % (N, "".join("%d%d_" % p for p in topo)),
                       dict(h=9 if N == 3 else 12, n=n, nets={"default": nodes}, conv={}), ("grid", 2))


def fam_topology4(ctx):
    """four nodes, every digraph with at most 4 links (thorough: any)"""
    names = ["a", "b", "c", "d"]
    pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
    for k in range(0, ctx.pick(4, 13)):
        for topo in itertools.combinations(pairs, k):
            cells = []
            for ci in range(16):
                c = {}
                for i in range(4):
                    c["l%d" % i] = (ci >> i) & 1
                    c["c%d" % i] = (2, 0, 1, 3)[(ci * 3 + i) % 4]
                    c["pc%d" % i] = (1, 6, 3, 2)[(ci + i) % 4]
                    c["lc%d" % i] = (30, 8, 15)[(ci + i) % 3]
                for j in range(k):
                    c["kc%d" % j] = (1, 0, 2)[(j + ci) % 3]
                    c["k%d" % j] = 0 if (ci + 2 * j) % 7 == 0 else 1
                cells.append(c)
            n, g = shape_cells(cells, 8)
            nodes = {names[i]: node(cons=[("load", g("lc%d" % i), g("l%d" % i))], prod=[("gen", g("pc%d" % i), g("c%d" % i))],
                                    link=[(names[b], g("kc%d" % j), g("k%d" % j)) for j, (a, b) in enumerate(topo) if a == i])
                     for i in range(4)}
            yield item("topology-4-%s" % "".join("%d%d_" % p for p in topo), dict(h=8, n=n, nets={"default": nodes}, conv={}), ("grid", 1))


def fam_elements(ctx):
    """several consumptions and productions per node, all orders of costs"""
    for nc, np_ in prod_(range(0, 4), range(0, 4)):
        cells = []
        for ci, q in enumerate(prod_([0, 1, 2], repeat=nc + np_)):
            c = {}
            for i in range(nc):
                c["l%d" % i] = q[i]
                c["lc%d" % i] = [9, 4, 2, 6][(i + ci) % 4] + i
            for i in range(np_):
                c["c%d" % i] = q[nc + i]
                c["pc%d" % i] = [3, 1, 5, 2][(i * 3 + ci) % 4]
            cells.append(c)
        n, g = shape_cells(cells, 9)
        nd = node(cons=[("load%d" % i, g("lc%d" % i), g("l%d" % i)) for i in range(nc)],
                  prod=[("gen%d" % i, g("pc%d" % i), g("c%d" % i)) for i in range(np_)])
        yield item("elements-%d-%d" % (nc, np_), dict(h=9, n=n, nets={"default": {"a": nd}}, conv={}), ("grid", 0))


def fam_networks(ctx):
    """same node, link and element names in several networks"""
    for links in prod_([(), ((0, 1),), ((1, 0),), ((0, 1), (1, 0))], repeat=2):
        cells = []
        for ci, q in enumerate(prod_([0, 2], [1, 3], [0, 1], [0, 2], [2, 0], [1, 2], [0, 1], [3, 1])):
            cells.append({str(i): v for i, v in enumerate(q)})
            for i in range(8):
                cells[-1]["x%d" % i] = [1, 4, 2, 3, 5][(ci + i) % 5]
        n, g = shape_cells(cells, 8)
        nets = {}
        for k, net in enumerate(["elec", "gas"]):
            nets[net] = {nm: node(cons=[("load", g("x%d" % (2 * k + i)) * 2 + 1, g(str(4 * k + 2 * i)))],
                                  prod=[("gen", g("x%d" % (4 + 2 * k + i)), g(str(4 * k + 2 * i + 1)))],
                                  link=[("ab"[b], g("x%d" % (3 * k + i)) - 3, 1 + k) for a, b in links[k] if a == i])
                         for i, nm in enumerate("ab")}
        yield item("networks-%s" % (links,), dict(h=8, n=n, nets=nets, conv={}), ("grid", 2))


def _keep(spec, ref, cells):
    """drop the scenarios without lattice path (built again by caller)"""
    from mc.ref import Model

    m = Model(spec, unit=ref[1], flow_step=ref[2], conv_step=ref[3])
    return [i for i in range(spec["n"]) if m.best(i) is not None]


def fam_storage(ctx):
    ref = ("dp", 0.5, 1, 1, False)
    hs = ctx.pick([1, 3], [1, 2, 3, 4])
    for h in hs:
        for init in (0, 1, 2):
            cells = []
            loads = list(prod_([0, 2], repeat=h))
            for ci, (ld, cap, fin, fo, eff, sc) in enumerate(prod_(loads, [2, 3], [0, 1, 2], [0, 2, 1], [1, 0.5, 0], [0, 1])):
                if h == 4 and ci % 2:
                    continue
                cells.append(dict(load=ld, cap=cap, fin=fin, fo=fo, eff=eff, sc=sc,
                                  gen=[(1, 3, 0, 2)[(t + ci) % 4] for t in range(h)],
                                  gc=[(1, 6, 2)[(t + ci // 4) % 3] for t in range(h)]))
            nd = node(cons=[("load", 20, scn(cells, "load"))], prod=[("gen", scn(cells, "gc"), scn(cells, "gen"))],
                      stor=[stor("cell", scn(cells, "cap"), scn(cells, "fin"), scn(cells, "fo"), scn(cells, "sc"), init, scn(cells, "eff"))])
            yield item("storage-h%d-init%d" % (h, init), dict(h=h, n=len(cells), nets={"default": {"a": nd}}, conv={}), ref)


def fam_storage_time(ctx):
    """every storage attribute changes with time"""
    h = 3
    ref = ("dp", 0.5, 1, 1, False)
    for init in (0, 1, 2, 3, 4):  # may begin above the capacity of the first step
        cells = []
        for ci, (ld, cap, fin, fo, eff, sc) in enumerate(prod_(
                [(0, 0, 3), (0, 3, 0), (2, 0, 2)], [(2, 2, 2), (1, 2, 3), (3, 1, 2)], [(1, 2, 0), (2, 0, 2)],
                [(0, 1, 2), (2, 2, 1)], [(1, 0.5, 1), (0.5, 1, 0.5), (1, 1, 1), (0, 0.5, 0)], [(0, 1, 2), (1, 0, 0)])):
            cells.append(dict(load=ld, cap=cap, fin=fin, fo=fo, eff=eff, sc=sc))
        def spec_of(cells):
            nd = node(cons=[("load", 20, scn(cells, "load"))], prod=[("gen", np.array([1, 4, 2]), np.array([2, 1, 1]))],
                      stor=[stor("cell", scn(cells, "cap"), scn(cells, "fin"), scn(cells, "fo"), scn(cells, "sc"), init, scn(cells, "eff"))])
            return dict(h=h, n=len(cells), nets={"default": {"a": nd}}, conv={})
        keep = _keep(spec_of(cells), ref, cells)
        cells = [cells[i] for i in keep]
        yield item("storage-time-init%d" % init, spec_of(cells), ref)


def fam_storages(ctx):
    """several storages: same node, neighbour nodes, other networks"""
    h = 3
    ref = ("dp", 1.0, 1, 1, True)
    for inits in prod_((0, 1), (1, 0, 2), (0, 1)):
        cells = []
        for ci, (ld, fo, sc) in enumerate(prod_([(0, 0, 4), (3, 0, 3), (4, 2, 0), (1, 4, 1)], [(1, 2, 1), (2, 0, 1), (0, 1, 2)], [(0, 1, 2), (1, 0, 0)])):
            cells.append(dict(load=ld, f0=fo[0], f1=fo[1], f2=fo[2], s0=sc[0], s1=sc[1], s2=sc[2],
                              gc=[(1, 6, 2)[(t + ci) % 3] for t in range(h)]))
        def st(i, name=None):
            return stor(name or "cell%d" % i, 2, [1, 2, 1], scn(cells, "f%d" % i), scn(cells, "s%d" % i), inits[i], 1)
        load = [("load", 20, scn(cells, "load"))]
        gen = [("gen", scn(cells, "gc"), 2)]
        yield item("storages-onenode-%s" % (inits,), dict(h=h, n=len(cells), conv={}, nets={"default": {
            "a": node(cons=load, prod=gen, stor=[st(0), st(1), st(2)])}}), ref)
        if inits[2] == 0 or ctx.thorough:
            yield item("storages-neighbours-%s" % (inits,), dict(h=h, n=len(cells), conv={}, nets={"default": {
                "a": node(prod=gen, stor=[st(0, "cell")], link=[("b", 1, 2)]),
                "b": node(cons=load, stor=[st(1, "cell"), st(2, "other")], link=[("a", 0, 1)])}}), ref)
            yield item("storages-networks-%s" % (inits,), dict(h=h, n=len(cells), conv={}, nets={
                "default": {"a": node(cons=load, prod=gen, stor=[st(0, "cell")])},
                "gas": {"a": node(cons=[("load", 9, 1)], prod=[("gen", 2, 1)], stor=[st(1, "cell"), st(2, "x")])}}), ref)


def fam_converter(ctx):
    ref = ("dp", 0.25, 1, 1, False)
    # one converter, one to three sources, ratios varying over scenario or time
    for ns in (1, 2, 3):
        cells = []
        ratios = [0.5, 1, 2]
        for ci, (rs, ld, mx, cc) in enumerate(prod_(prod_(ratios, repeat=ns), [0, 1, 3], [0, 1, 2], [0, 2])):
            c = dict(load=ld, mx=mx, cc=cc, lol=(9, 3, 20)[ci % 3], alt=(6, 1)[ci // 3 % 2])
            for i in range(ns):
                c["r%d" % i] = rs[i]
                c["g%d" % i] = (4, 1, 2)[(ci + i) % 3]
                c["c%d" % i] = (1, 2, 0)[(ci // 2 + i) % 3]
                c["sl%d" % i] = (0, 1)[(ci + i) // 2 % 2]
            cells.append(c)
        if not ctx.thorough and ns == 3:
            cells = cells[::2]
        h = 3
        n, g = shape_cells(cells, h)
        nets = {"elec": {"d": node(cons=[("load", g("lol"), g("load"))], prod=[("gen", g("alt"), 1)])}}
        for i in range(ns):
            nets["s%d" % i] = {"x": node(cons=[("load", 15, g("sl%d" % i))], prod=[("gen", g("c%d" % i), g("g%d" % i))])}
        conv = {"cv": dict(src=[(("s%d" % i, "x"), g("r%d" % i)) for i in range(ns)], dest=("elec", "d"), cost=g("cc"), max=g("mx"))}
        yield item("converter-%dsrc" % ns, dict(h=h, n=n, nets=nets, conv=conv), ref)
    # sources on the same network and node shared, chain, fan
    base = list(prod_([0, 2], [0, 1, 2], [1, 2], [0, 3], [1, 0.5]))
    cells = [dict(l=a, m=b, m2=c, k=d, r=e) for a, b, c, d, e in base]
    n, g = shape_cells(cells, 4)
    h = 4
    ga = {"x": node(prod=[("gen", 1, 3)], cons=[("load", 8, 1)]), "y": node(prod=[("gen", 2, 2)], link=[("x", 1, 1)])}
    el = {"x": node(cons=[("load", 12, g("l"))], prod=[("gen", 5, 1)], link=[("y", 1, g("k"))]),
          "y": node(cons=[("load", 30, 1)])}
    yield item("converter-shared-source", dict(h=h, n=n, nets={"gas": ga, "elec": el}, conv={
        "c1": dict(src=[(("gas", "x"), g("r"))], dest=("elec", "x"), cost=1, max=g("m")),
        "c2": dict(src=[(("gas", "x"), 1)], dest=("elec", "y"), cost=g("k"), max=g("m2"))}), ref)
    yield item("converter-shared-dest", dict(h=h, n=n, nets={"gas": ga, "elec": el}, conv={
        "c1": dict(src=[(("gas", "x"), g("r"))], dest=("elec", "x"), cost=0, max=g("m")),
        "c2": dict(src=[(("gas", "y"), 0.5)], dest=("elec", "x"), cost=2, max=g("m2"))}), ref)
    yield item("converter-chain", dict(h=h, n=n, nets={"gas": ga, "heat": {"x": node(cons=[("load", 7, 1)])}, "elec": el}, conv={
        "c1": dict(src=[(("gas", "x"), g("r"))], dest=("heat", "x"), cost=0, max=g("m2")),
        "c2": dict(src=[(("heat", "x"), 1), (("gas", "y"), 2)], dest=("elec", "x"), cost=1, max=g("m"))}), ref)
    yield item("converter-same-network", dict(h=h, n=n, nets={"default": {
        "x": node(prod=[("gen", 1, 3)], cons=[("load", 8, 1)], link=[("y", 4, g("k"))]),
        "y": node(cons=[("load", 12, g("l"))], prod=[("gen", 5, 1)])}}, conv={
        "c1": dict(src=[(("default", "x"), g("r"))], dest=("default", "y"), cost=1, max=g("m"))}), ref)

    # a converter may take from the node it gives to, alone or among others, losing or winning energy
    for shape, extra in (("alone", []), ("first", [(("gas", "y"), 1)]), ("among", [(("elec", "y"), 2), (("gas", "x"), 0.5)])):
        src = {"alone": [(("elec", "x"), g("r"))], "first": [(("elec", "x"), g("r"))] + extra, "among": extra[:1] + [(("elec", "x"), g("r"))] + extra[1:]}[shape]
        for w, cc in (("lose", -8), ("pay", 1)):
            yield item("converter-self-%s-%s" % (shape, w), dict(h=h, n=n, nets={"gas": ga, "elec": dict(el, y=node(cons=[("load", 30, 1)], prod=[("gen", 2, 4)]))}, conv={
                "c1": dict(src=src, dest=("elec", "x"), cost=cc, max=g("m"))}), ref)
    yield item("converter-self-win", dict(h=h, n=n, nets={"gas": ga, "elec": el}, conv={
        "c1": dict(src=[(("elec", "x"), 2)], dest=("elec", "x"), cost=1, max=2 * g("m")), "c2": dict(src=[(("elec", "y"), 2)], dest=("elec", "y"), cost=g("k"), max=2)}), ref)
    # source nodes with the same name in several networks, destination network included
    tri = {net: {"x": node(prod=[("gen", 1 + j, 3)], cons=[("load", 8, j)]), "y": node(cons=[("load", 9 + j, g("l"))])} for j, net in enumerate(("gas", "elec", "heat"))}
    for k, order in enumerate(itertools.permutations(("gas", "elec", "heat"))):
        yield item("converter-homonyms-%s" % "-".join(order), dict(h=h, n=n, nets=tri, conv={
            "c1": dict(src=[((net, "x"), (1, 0.5, 2)[(j + k) % 3]) for j, net in enumerate(order)], dest=("elec", "y"), cost=0, max=g("m")),
            "c2": dict(src=[((order[0], "x"), 1), ((order[0], "y"), 0.5)], dest=(order[0], "x"), cost=g("k"), max=1)}), ref)


def fam_ratios(ctx):
    """ratios far from one, with many digits, where the optimum is on the lattice; gain or loss decides whether it runs"""
    fine = [1e-4, 1e-3, 0.01, 0.125, 0.1, 0.2]
    tall = [3, 7, 10, 1000, 12345]
    for r in fine + tall:
        k = max(1, r)
        cells = [dict(l=l * k, m=m * k, gc=gc * r, cc=cc, g=(2 * max(1, 1 / r), max(1, 1 / r))[ci % 2]) for ci, (l, m, gc, cc) in enumerate(prod_([0, 1, 2], [1, 2], [1, 3], [0, 1, 4]))]
        n, g = shape_cells(cells, 6)
        nets = {"gas": {"x": node(prod=[("gen", g("gc"), g("g"))])}, "elec": {"x": node(cons=[("load", 5, g("l"))])}}
        yield item("ratio-%g" % r, dict(h=6, n=n, nets=nets, conv={"cv": dict(src=[(("gas", "x"), r)], dest=("elec", "x"), cost=g("cc"), max=g("m"))}),
                   ("dp", 1.0, 1, int(k), True))
    # any digits: only admissibility is decided, and that it runs since shedding is dear
    rs = [1 / 3, 0.1234567, 2 / 7, 0.3333, 1e-3 / 7, 1.0000001, 1.0005, 0.9999, 3.14159265, 99.99, 1234.5678, 0.05]
    for k in (0, 3):
        r = np.array(rs).reshape(3, 4)
        q = np.roll(r, k)
        nets = {"gas": {"x": node(prod=[("gen", 1e-4, 1e5)]), "y": node(prod=[("gen", 1e-4, 1e5)])}, "elec": {"x": node(cons=[("load", 1000, 7)])}}
        yield item("ratio-digits-%d" % k, dict(h=4, n=3, nets=nets, conv={"cv": dict(src=[(("gas", "x"), r)] + ([(("gas", "y"), q)] if k else []), dest=("elec", "x"), cost=1, max=9)}), None)


def fam_mixed(ctx):
    """storage + links + converters together, in two networks"""
    h = 2
    ref = ("dp", 0.25, 1, 1, False) if ctx.thorough else ("dp", 0.5, 1, 1, False)
    for init in (0, 1):
        for eff in (1, 0.5):
            cells = []
            for ci, (l0, l1, cap, mx, k) in enumerate(prod_([(0, 2), (2, 1)], [(1, 1), (0, 3)], [1, 2], [(1, 2), (2, 0)], [1, 2])):
                cells.append(dict(l0=l0, l1=l1, cap=cap, mx=mx, k=k, gc=(1, 3) if ci % 2 else (4, 0)))
            nets = {
                "elec": {"a": node(cons=[("load", 20, scn(cells, "l0"))], prod=[("gen", scn(cells, "gc"), [2, 1])],
                                   stor=[stor("cell", scn(cells, "cap"), 1, 1, [0, 1], init, eff)], link=[("b", 1, scn(cells, "k"))]),
                         "b": node(cons=[("load", 15, scn(cells, "l1")), ("aux", 3, 1)], prod=[("gen", 6, 1)], link=[("a", 0, 1)])},
                "gas": {"a": node(prod=[("gen", 2, [3, 1])], cons=[("load", 9, 1)],
                                  stor=[stor("cell", 1, 1, 1, 0, init, 1)])}}
            conv = {"cv": dict(src=[(("gas", "a"), 0.5)], dest=("elec", "b"), cost=1, max=scn(cells, "mx"))}
            yield item("mixed-init%d-eff%s" % (init, eff), dict(h=h, n=len(cells), nets=nets, conv=conv), ref)


def fam_rewarded(ctx):
    """flows which pay for themselves run as far as they can: energy which leaks or appears anywhere shows up"""
    h = 2
    ref = ("dp", 0.5, 1, 1, False)
    for which in ctx.pick([(), ("link",), ("prod",), ("conv",), ("stor",), ("link", "prod", "conv", "stor")],
                          [c for k in range(5) for c in itertools.combinations(("link", "prod", "conv", "stor"), k)]):
        def cost(kind, v):
            return -v if kind in which else v

        cells = [dict(l=l, k=k, m=m, g=g) for l, k, m, g in prod_([(0, 1), (2, 0), (1, 3)], [(1, 2), (2, 0)], [(1, 1), (0, 2)], [(2, 1), (3, 3)])]
        nets = {}
        for j, net in enumerate(("elec", "gas", "heat")):
            nets[net] = {"a": node(cons=[("load", 6 + j, scn(cells, "l"))], prod=[("gen", cost("prod", 3 + j), scn(cells, "g"))],
                                   link=[("b", cost("link", 1 + j), scn(cells, "k"))],
                                   stor=[stor("cell", 1, 1, 1, cost("stor", 1), j % 2, 1)] if j < 2 else ()),
                         "b": node(cons=[("load", 8 - j, 1 + j)], prod=[("gen", cost("prod", 2), 1)] if j else (),
                                   link=[("a", cost("link", 2), 1)])}
        conv = {"cv": dict(src=[(("elec", "a"), 1), (("gas", "a"), 0.5)], dest=("heat", "a"), cost=cost("conv", 2), max=scn(cells, "m")),
                "cw": dict(src=[(("heat", "b"), 1)], dest=("gas", "b"), cost=cost("conv", 1), max=1)}
        yield item("rewarded-%s" % "-".join(which), dict(h=h, n=len(cells), nets=nets, conv=conv), None)
        # one network only, small enough for the exact path enumeration
        nets = {"elec": dict(nets["elec"]), "gas": {"a": nets["gas"]["a"], "b": node(cons=[("load", 7, 1)])}}
        conv = {"cv": dict(src=[(("elec", "a"), 1)], dest=("gas", "b"), cost=cost("conv", 2), max=scn(cells, "m"))}
        yield item("rewarded2-%s" % "-".join(which), dict(h=h, n=len(cells), nets=nets, conv=conv), ref)


def fam_subsets(ctx):
    """every subset of the kinds of elements a node can have x every sign of their costs (one scenario each)"""
    h = 2
    kinds = ("cons", "prod", "free", "stor", "out", "in", "to", "from")
    signs = list(prod_((1, -1), repeat=4))
    n = len(signs)

    def cost(k, v):
        return np.array([s[k] * v for s in signs], dtype=float).reshape(n, 1)

    for sub in (c for k in range(len(kinds) + 1) for c in itertools.combinations(kinds, k)):
        a = node(cons=[("load", 9, [2, 1])] if "cons" in sub else (),
                 prod=([("gen", cost(0, 3), [2, 2])] if "prod" in sub else []) + ([("free", 0, [1, 2])] if "free" in sub else []),
                 stor=[stor("cell", [3, 2], 2, 1, cost(1, 1), 1, 1)] if "stor" in sub else (),
                 link=[("b", cost(2, 1), [1, 2])] if "out" in sub else ())
        b = node(cons=[("load", 6, 2)], prod=[("gen", 4, 1)], link=[("a", cost(2, 2), 1)] if "in" in sub else ())
        conv = {}
        if "to" in sub:
            conv["up"] = dict(src=[(("elec", "a"), 1)], dest=("gas", "a"), cost=cost(3, 2), max=1)
        if "from" in sub:
            conv["down"] = dict(src=[(("gas", "a"), 1)], dest=("elec", "a"), cost=cost(3, 1), max=[1, 2])
        gas = node(cons=[("load", 5, 1)], prod=[("gen", 2, 2)])
        yield item("subset-%s" % "-".join(sub), dict(h=h, n=n, nets={"elec": {"a": a, "b": b}, "gas": {"a": gas}}, conv=conv), ("dp", 1, 1, 1, True))


def fam_ladder(ctx):
    """sizes: horizon, scenarios, nodes, elements; magnitudes; names"""
    # long horizon and many scenarios, every cell different
    for h, n in ctx.pick([(30, 3), (3, 30), (13, 12)], [(30, 3), (3, 30), (13, 12), (120, 2), (1, 150), (25, 25)]):
        i = np.arange(n * h).reshape(n, h)
        nodes = {"a": node(cons=[("load", 10 + i % 7, i % 4)], prod=[("gen", 1 + i % 5, (i // 2) % 3), ("gen2", 2 + i % 3, (i // 3) % 3)],
                           link=[("b", 1 + i % 2, i % 3)]),
                 "b": node(cons=[("load", 20 - i % 9, (i // 3) % 3)], prod=[("gen", i % 6, (i // 5) % 3)], link=[("a", i % 3, (i // 2) % 2)])}
        yield item("size-h%d-n%d" % (h, n), dict(h=h, n=n, nets={"default": nodes}, conv={}), ("grid", 2))
        st = {"a": node(cons=[("load", 10 + i % 7, i % 4)], prod=[("gen", 1 + i % 5, (i // 2) % 4)],
                        stor=[stor("cell", 5 + i % 3, 2, 9, i % 2 * 0.5, 3, 0.9 - i % 4 / 5), stor("cell2", 4, i % 3, 4, 0.1, 1, 0.8)], link=[("b", 1, 2)]),
              "b": node(cons=[("load", 20, (i // 3) % 3)], stor=[stor("cell", 3, 1 + i % 2, 3, 0, 0, 1)])}
        cv = {"cv": dict(src=[(("default", "a"), 0.5 + (i % 3) / 2), (("default", "b"), 1 + i % 2)], dest=("gas", "a"), cost=i % 4, max=1 + i % 3)}
        yield item("size-storage-h%d-n%d" % (h, n), dict(h=h, n=n, nets={"default": st, "gas": {"a": node(cons=[("load", 50, 1 + i % 2)])}}, conv=cv), None)
    # many nodes in a ring, many elements, several networks
    for N in ctx.pick([11], [11, 26]):
        nodes = {}
        for j in range(N):
            nodes["n%d" % j] = node(cons=[("load%d" % k, 10 + j + k, (j + k) % 3) for k in range(j % 4)],
                                    prod=[("gen%d" % k, 1 + (j * 7 + k) % 5, (j + 2 * k) % 3) for k in range((j + 1) % 4)],
                                    stor=[stor("cell%d" % k, 3, 1, 1, 0, (j + k) % 3, 1) for k in range(j % 3)],
                                    link=[("n%d" % ((j + 1) % N), 1, 1 + j % 2)] + ([("n%d" % ((j + 5) % N), 2, 1)] if j % 2 else []))
        cv = {"cv%d" % k: dict(src=[(("net", "n%d" % k), 1), (("net", "n%d" % (k + 3)), 2)], dest=("other", "n%d" % (k % 3)), cost=k, max=k) for k in range(1, 7)}
        yield item("ring-%d" % N, dict(h=3, n=2, nets={"net": nodes, "other": {"n%d" % k: node(cons=[("load", 30 + k, 2)]) for k in range(3)}}, conv=cv), None)
    # magnitudes
    for sc in (1e-2, 1.0, 1e3, 1e6):
        i = np.arange(12).reshape(3, 4)
        nodes = {"a": node(cons=[("load", 10 + i, sc * (1 + i % 3))], prod=[("gen", 2, sc * (i % 4))], link=[("b", 1, sc * 1.5)],
                           stor=[stor("cell", sc * 2, sc, sc, 0.1, sc, 0.9)]),
                 "b": node(cons=[("load", 20, sc / 3)], prod=[("gen", 0.5, sc * (i % 3) / 7)])}
        cv = {"cv": dict(src=[(("default", "a"), 0.3)], dest=("gas", "a"), cost=0.7, max=sc)}
        yield item("scale-%g" % sc, dict(h=4, n=3, nets={"default": nodes, "gas": {"a": node(cons=[("load", 9, sc / 2)])}}, conv=cv), None)
    # names: prefixes of one another, spaces, unicode, empty, digits, format characters
    odd = ["", "a", "aa", "a b", "10", "2", "é", "%s", "{x}", "node=a", "t=0", ":", "default"]
    nodes = {}
    for j, nm in enumerate(odd):
        nodes[nm] = node(cons=[(x, 10 + j, (j + k) % 3) for k, x in enumerate(odd[: 1 + j % 4])],
                         prod=[(x, 1 + (j + k) % 4, (j * k) % 3) for k, x in enumerate(odd[: 1 + j % 3])],
                         stor=[stor(odd[j - 1], 2, 1, 1, 0, 1, 1)],
                         link=[(odd[(j + 1) % len(odd)], 1, 1)])
    cv = {nm: dict(src=[(("", odd[k]), 1), (("a", odd[k + 1]), 2)], dest=("a", odd[k + 2]), cost=1, max=2) for k, nm in enumerate(odd[:5])}
    yield item("names", dict(h=2, n=2, nets={"": nodes, "a": nodes}, conv=cv), None)
    from mc import spec as S

    base = next(iter(fam_mixed(ctx)))
    for scheme in S.NAMES:
        yield item("names-" + scheme, S.renamed(base["spec"], scheme), base["ref"])
    for sep in S.SEPARATORS:
        yield item("joined-%r" % sep, S.joined(sep), None)
    # degenerate shapes: networks or nodes with nothing inside
    yield item("empty-study", dict(h=2, n=2, nets={}, conv={}), None)
    yield item("empty-nodes", dict(h=2, n=3, nets={"x": {}, "y": {"a": node(), "b": node(link=[("a", 1, 1)])}}, conv={}), None)


def recost(sp, f):
    """same study, every cost passed through f (of the cost and of the rank of the element)"""
    k = itertools.count()

    def g(c):
        return f(np.asarray(c, dtype=float), next(k))

    nets = {net: {nd: dict(cons=[(a, g(c), q) for a, c, q in e["cons"]], prod=[(a, g(c), q) for a, c, q in e["prod"]],
                           stor=[dict(s, cost=g(s["cost"])) for s in e["stor"]], link=[(a, g(c), q) for a, c, q in e["link"]])
                  for nd, e in nodes.items()} for net, nodes in sp["nets"].items()}
    return dict(sp, nets=nets, conv={n: dict(c, cost=g(c["cost"])) for n, c in sp["conv"].items()})


RECOST = dict(fine=lambda c, k: c * 1e-3, near=lambda c, k: 20 + c * 1e-3 + k * 1e-4, huge=lambda c, k: c * 1e7, signs=lambda c, k: c * (-1) ** k)


def fam_costs(ctx):
    """fine, near, huge costs and costs of either sign on every kind of element"""
    for it in picked(ctx):
        for how, f in RECOST.items():
            sp = recost(it["spec"], f)
            yield item("%s-%s" % (it["name"], how), sp, it["ref"])


def rescale(sp, k):
    """same study, every quantity, capacity and flow times k (efficiencies, ratios and costs unchanged)"""
    def g(v):
        return np.asarray(v, dtype=float) * k

    nets = {net: {nd: dict(cons=[(a, c, g(q)) for a, c, q in e["cons"]], prod=[(a, c, g(q)) for a, c, q in e["prod"]],
                           stor=[dict(s, capacity=g(s["capacity"]), flow_in=g(s["flow_in"]), flow_out=g(s["flow_out"]), init_capacity=float(s["init_capacity"] * k)) for s in e["stor"]],
                           link=[(a, c, g(q)) for a, c, q in e["link"]]) for nd, e in nodes.items()} for net, nodes in sp["nets"].items()}
    return dict(sp, nets=nets, conv={n: dict(c, max=g(c["max"])) for n, c in sp["conv"].items()})


def picked(ctx):
    its = [i for f in (fam_elements, fam_topology) for i in f(ctx) if i["name"] in ("elements-2-2", "elements-1-3", "elements-3-1", "topology-2-01_10_", "topology-3-01_12_20_")]
    its += list(fam_mixed(ctx))[:3] + [i for i in fam_storages(ctx) if i["name"].endswith("(0, 1, 0)")]
    its += [i for i in fam_storage_time(ctx) if i["name"].endswith(("init0", "init3"))]
    return its + [i for i in fam_converter(ctx) if i["name"] in ("converter-1src", "converter-2src", "converter-shared-source", "converter-shared-dest", "converter-chain", "converter-same-network", "converter-self-among-pay")]


def fam_fractions(ctx):
    """quantities which are no integers, fine or large, on every kind of element: bounds bind at fractions"""
    for it in picked(ctx):
        for k in ctx.pick((0.3, 1 / 7, 1234.5), (0.3, 1 / 7, 1234.5, 0.01, 2.5, 1e5 / 3)):
            yield item("%s-x%.3g" % (it["name"], k), rescale(it["spec"], k), it["ref"], base=it["spec"], factor=k)


def fam_crowd(ctx):
    """more than ten of each thing, each of them needed"""
    N = 12
    h, n = 2, 2
    i = np.arange(n * h).reshape(n, h)
    one = ("dp", 1.0, 1, 1, True)
    yield item("crowd-elements", dict(h=h, n=n, conv={}, nets={"default": {"a": node(
        cons=[("load%d" % k, 40 - k + i % 3, (k + i) % 3) for k in range(N)], prod=[("gen%d" % k, 5 * k - i, (k + i) % 2 + 1) for k in range(N)])}}), ("grid", 0))
    # all of them used, all of them served; the last ones first, and the first ones first
    for what, f in (("rising", lambda k: k), ("falling", lambda k: N - 1 - k)):
        yield item("crowd-used-" + what, dict(h=h, n=n, conv={}, nets={"default": {"a": node(
            cons=[("load%d" % k, 50 + f(k), 1 + (k + i) % 2) for k in range(N)], prod=[("gen%d" % k, f(k), 1 + (k + i + 1) % 2) for k in range(N)])}}), ("grid", 0))
        yield item("crowd-shed-" + what, dict(h=h, n=n, conv={}, nets={"default": {"a": node(
            cons=[("load%d" % k, 50 + f(k), 1) for k in range(N)], prod=[("gen%d" % k, f(k), i // 2 * (k % 3)) for k in range(N)])}}), ("grid", 0))
    hub = [("n%d" % k, 1 + (k + i) % 3, 1) for k in range(N)]
    spread = {"n%d" % k: node(cons=[("load", 20 + k, (k + i) % 2 + 1)], prod=[("gen", 30 - 2 * k, k % 2)]) for k in range(N)}
    yield item("crowd-exports", dict(h=h, n=n, conv={}, nets={"default": dict({"hub": node(prod=[("gen", 1, N - 2)], link=hub)}, **spread)}), ("grid", 1))
    yield item("crowd-imports", dict(h=h, n=n, conv={}, nets={"default": dict({"n%d" % k: node(prod=[("gen", 1 + k, (k + i) % 2 + 1)], link=[("hub", 1, 1)]) for k in range(N)}, hub=node(cons=[("load", 9, N)]))}), ("grid", 1))
    yield item("crowd-networks", dict(h=h, n=n, conv={}, nets={"net%d" % k: {"a": node(cons=[("load", 5, (k + i) % 3)], prod=[("gen", 1 + k % 7, (k + i) % 4)])} for k in range(N)}), ("grid", 0))
    # storages: discharged together, and charged together at first then discharged
    for what, gen, load, init in (("out", 0, [N, N], 2), ("in", [N, 0], [0, N], 0)):
        st = [stor("cell%d" % k, 2, 1, 1, 0, init, 1) for k in range(N)]
        sp = dict(h=h, n=n, conv={}, nets={"default": {"a": node(cons=[("load", 50, load)], prod=[("gen", 2, gen)], stor=st)}})
        yield item("crowd-storages-" + what, sp, ("known", [0.0, 0.0] if what == "out" else [2.0 * N] * n))
        sp = dict(h=h, n=n, conv={}, nets={"default": {"n%d" % k: node(cons=[("load", 50, np.array(load) / N)], prod=[("gen", 2, np.array(gen) / N)], stor=[stor("cell", 2, 1, 1, 0, init, 1)]) for k in range(N)}})
        yield item("crowd-storages-nodes-" + what, sp, ("known", [0.0, 0.0] if what == "out" else [2.0 * N] * n))
    # one storage over more than ten steps, everything varying
    H = 13
    j = np.arange(3 * H).reshape(3, H)
    sp = dict(h=H, n=3, conv={}, nets={"default": {"a": node(cons=[("load", 30 + j % 7, (j * 5) % 4)], prod=[("gen", 1 + (j * 3) % 8, (j * 7) % 5)],
                                                             stor=[stor("cell", 3 + j % 3, 1 + j % 2, 1 + (j // 2) % 2, j % 3 / 4, 2, 1 / (1 + j % 2))])}})
    yield item("crowd-steps", sp, ("dp", 0.5, 1, 1, False))
    yield item("crowd-steps-scenarios", dict(h=H, n=N, conv={"cv": dict(src=[(("default", "a"), 1 / (1 + np.arange(N * H).reshape(N, H) % 2))], dest=("gas", "a"), cost=np.arange(N * H).reshape(N, H) % 3, max=1 + np.arange(N * H).reshape(N, H) // 3 % 2)}, nets={
        "default": {"a": node(cons=[("load", 30, np.arange(N * H).reshape(N, H) % 3)], prod=[("gen", np.arange(N * H).reshape(N, H) % 7, 4)])}, "gas": {"a": node(cons=[("load", 12, 1 + np.arange(N * H).reshape(N, H) % 5 // 4)])}}), ("dp", 0.5, 1, 1, True))
    # every other one is too dear to be used: each cost decides
    dear = [np.where((k + i) % 2 == 0, 20, 5) for k in range(N)]
    yield item("crowd-dear-loads", dict(h=h, n=n, conv={}, nets={"default": {"a": node(cons=[("load%d" % k, dear[k], 1) for k in range(N)], prod=[("gen", 12, N)])}}), ("grid", 0))
    yield item("crowd-dear-gens", dict(h=h, n=n, conv={}, nets={"default": {"a": node(cons=[("load", 12, N)], prod=[("gen%d" % k, dear[k], 1) for k in range(N)])}}), ("grid", 0))
    yield item("crowd-dear-exports", dict(h=h, n=n, conv={}, nets={"default": dict({"hub": node(prod=[("gen", 1, N)], link=[("n%d" % k, dear[k], 1) for k in range(N)])}, **{"n%d" % k: node(cons=[("load", 12, 1)]) for k in range(N)})}), ("grid", 1))
    yield item("crowd-dear-imports", dict(h=h, n=n, conv={}, nets={"default": dict({"n%d" % k: node(prod=[("gen", 1, 1)], link=[("hub", dear[k], 1)]) for k in range(N)}, hub=node(cons=[("load", 12, N)]))}), ("grid", 1))
    cheap = [(k + np.arange(n).reshape(n, 1)) % 2 == 0 for k in range(N)]
    cells = [stor("cell%d" % k, 2, 1, 1, np.where(cheap[k], 1, 3), 1, 1) for k in range(N)]
    yield item("crowd-dear-storages", dict(h=h, n=n, conv={}, nets={"default": {"a": node(cons=[("load", 50, N // 2)], stor=cells)}}), ("known", [N / 2.0] * n))
    yield item("crowd-dear-storages-nodes", dict(h=h, n=n, conv={}, nets={"default": dict({"n%d" % k: node(stor=[cells[k]], link=[("hub", 0, 1)]) for k in range(N)}, hub=node(cons=[("load", 50, N // 2)]))}), ("known", [N / 2.0] * n))
    for where in ("out", "in"):
        nets = {"gas": {"n%d" % k: node(prod=[("gen", 1, 1)]) for k in range(N)}, "elec": {"n%d" % k: node(cons=[("load", 12, 1)]) for k in range(N)}}
        yield item("crowd-dear-converters-" + where, dict(h=h, n=n, nets=nets, conv={"cv%d" % k: dict(src=[(("gas", "n%d" % k), 1)], dest=("elec", "n%d" % (k if where == "out" else N - 1 - k)), cost=dear[k], max=1) for k in range(N)}), one)
    # converters: many sources of one, many from one source, many to one destination
    for ns in (4, 5, N):
        for where in ("nodes", "networks"):
            src = [(("gas", "n%d" % k) if where == "nodes" else ("gas%d" % k, "a"), (1, 0.5, 2, 0.25)[k % 4]) for k in range(ns)]
            nets = {"elec": {"a": node(cons=[("load", 1000, 2)])}}
            for k, ((net, nd), r) in enumerate(src):
                nets.setdefault(net, {})[nd] = node(prod=[("gen", 1 + k, 2 / r)], cons=[("load", 0.1, 1)])
            yield item("crowd-sources-%d-%s" % (ns, where), dict(h=h, n=n, nets=nets, conv={"cv": dict(src=src, dest=("elec", "a"), cost=i, max=2 - i % 2)}), ("dp", 0.5, 1, 2, True))
    fan = {"gas": {"a": node(prod=[("gen", 1, N)])}, "elec": {"n%d" % k: node(cons=[("load", 10 + k, 1)]) for k in range(N)}}
    yield item("crowd-fan-out", dict(h=h, n=n, nets=fan, conv={"cv%d" % k: dict(src=[(("gas", "a"), 1)], dest=("elec", "n%d" % k), cost=(k + i) % 14, max=1) for k in range(N)}), one)
    fan = {"gas": {"n%d" % k: node(prod=[("gen", k, 1)]) for k in range(N)}, "elec": {"a": node(cons=[("load", 15, N)])}}
    yield item("crowd-fan-in", dict(h=h, n=n, nets=fan, conv={"cv%d" % k: dict(src=[(("gas", "n%d" % k), 1)], dest=("elec", "a"), cost=(3 * k + i) % 14, max=1) for k in range(N)}), one)
    # the same things under names in falling order
    for it in list(fam_mixed(ctx))[:1] + list(fam_storages(ctx))[:1] + [x for x in fam_converter(ctx) if x["name"] in ("converter-3src", "converter-shared-dest")]:
        from mc import spec as S
        words = {}
        yield item("falling-" + it["name"], S.renamed(it["spec"], lambda x: words.setdefault(x, "w%02d" % (90 - len(words)))), it["ref"])


def fam_late(ctx):
    """every attribute of every kind varying over thirteen steps, over twelve scenarios, and over both"""
    for what, n, h in (("steps", 2, 13), ("scenarios", 12, 2), ("both", 12, 13)):
        k = np.arange(n * h).reshape(n, h)

        def v(a, m, base=0):
            # scenario and step both matter
            return (a * k + k // m + k // h) % m + base

        sides = {"a": node(cons=[("load", 20 + v(1, 5), v(5, 3)), ("late", v(3, 40), v(1, 2))], prod=[("gen", v(7, 9), v(3, 4)), ("peak", 15 + v(2, 7), v(1, 3))], link=[("b", v(1, 3), v(5, 4))]),
                 "b": node(cons=[("load", 18 + v(3, 7), v(7, 4))], prod=[("gen", v(5, 8), v(1, 3))], link=[("a", v(2, 3), v(3, 4))])}
        yield item("late-links-" + what, dict(h=h, n=n, conv={}, nets={"default": sides}), ("grid", 3))
        gas = {"default": {"a": node(cons=[("load", 30, v(1, 3))], prod=[("gen", v(1, 7), v(2, 5) + 2)])}, "gas": {"a": node(cons=[("load", 12 + v(3, 4), v(5, 3))], prod=[("own", v(3, 14), v(2, 2))])}}
        cv = {"cv": dict(src=[(("default", "a"), 1 / (1 + v(1, 2)))], dest=("gas", "a"), cost=v(1, 5), max=v(3, 3))}
        yield item("late-converter-" + what, dict(h=h, n=n, conv=cv, nets=gas), ("dp", 0.5, 1, 1, True))
        if what != "both":
            st = stor("cell", v(1, 3, 3), v(3, 2, 1), v(5, 2, 1), v(7, 4) / 4, 2, 1 / v(1, 2, 1))
            yield item("late-storage-" + what, dict(h=h, n=n, conv={}, nets={"default": {"a": node(cons=[("load", 30 + v(1, 7), v(5, 4))], prod=[("gen", v(3, 8, 1), v(7, 5))], stor=[st])}}), ("dp", 0.5, 1, 1, False))


def fam_year(ctx):
    """a year of hours: what is made at even steps is stored for the odd ones"""
    n, h = 2, 8760
    even = 1 - np.arange(h) % 2
    fin = np.ones((n, h))
    fin[1, [5000, 8758]] = 0  # two loads can not be served in the second scenario
    nd = node(cons=[("load", 100, 1 - even)], prod=[("gen", 1, even)], stor=[stor("cell", 1, fin, 1, 0.25, 0, 1)])
    yield item("year-storage", dict(h=h, n=n, conv={}, nets={"default": {"a": nd}}), ("known", [4380 * 1.25, 4378 * 1.25 + 200]))
    q = np.ones((n, h))
    q[0, [17, 4321, 8759]] = 0
    nets = {"default": {"a": node(prod=[("gen", 1 + even, 1)], link=[("b", 1, q)]), "b": node(cons=[("load", 10, 1)])}}
    yield item("year-link", dict(h=h, n=n, conv={}, nets=nets), ("known", [sum(10.0 if q[s, t] == 0 else 2.0 + even[t] for t in range(h)) for s in range(n)]))


def fam_names(ctx):
    """two nodes, elements, storages, networks, converters under each pair of neighbouring words"""
    from mc import spec as S

    h, n = 2, 2
    for scheme, words in S.NAMES.items():
        for x, y in zip(words, words[1:]):
            tag = "%s-%r-%r" % (scheme, x, y)
            # each side needs the other in turn
            two = {x: node(cons=[(x, 50, [2, 1]), (y, 40, [1, 0])], prod=[(x, 2, [0, 3]), (y, 3, [1, 1])], link=[(y, 1, [1, 2])]),
                   y: node(cons=[(x, 45, [0, 2]), (y, 55, [1, 2])], prod=[(y, 1, [3, 1])], link=[(x, 2, [2, 1])])}
            yield item("pair-nodes-" + tag, dict(h=h, n=n, conv={}, nets={"default": two}), ("grid", 2))
            cells = {"a": node(cons=[("load", 50, [0, 3])], prod=[("gen", 1, [2, 0])], stor=[stor(x, 2, 1, 1, 0, 1, 1), stor(y, 3, 1, 2, 0, 0, 1)])}
            yield item("pair-storages-" + tag, dict(h=h, n=n, conv={}, nets={"default": cells}), ("dp", 1.0, 1, 1, True))
            nets = {x: {x: node(cons=[("load", 30, [1, 2])], prod=[("gen", 2, [3, 1])]), y: node(prod=[("gen", 1, [1, 2])], cons=[("load", 20, 1)])},
                    y: {x: node(cons=[("load", 40, 2)], prod=[("gen", 9, 1)]), y: node(cons=[("load", 10, 1)])}}
            cv = {x: dict(src=[((x, x), 1), ((x, y), 1)], dest=(y, x), cost=1, max=[1, 2]), y: dict(src=[((x, y), 1)], dest=(y, y), cost=[2, 0], max=1)}
            yield item("pair-converters-" + tag, dict(h=h, n=n, conv=cv, nets=nets), ("dp", 1.0, 1, 1, True))


def fam_forms(ctx):
    """same study, every attribute written in each accepted form"""
    import pandas as pd

    h, n = 3, 2
    base = dict(q=np.array([[2, 1, 3], [1, 3, 2]]), cap=np.array([[1, 2, 0], [2, 1, 1]]), c=np.array([[1, 5, 2], [3, 1, 4]]))

    def forms(m):
        m = np.array(m)
        yield "matrix", m
        yield "list", m.tolist()
        yield "frame", pd.DataFrame(m)
        yield "float32", m.astype("float32")
        yield "int32", m.astype("int32")
        yield "fortran", np.asfortranarray(m)

    for name in ("matrix", "list", "frame", "float32", "int32", "fortran"):
        f = {k: dict(forms(v))[name] for k, v in base.items()}
        nd = node(cons=[("load", 10, f["q"])], prod=[("gen", f["c"], f["cap"])], link=[("b", f["c"], f["cap"])],
                  stor=[stor("cell", f["q"], f["cap"], f["cap"], f["c"], 1, 1)])
        nets = {"default": {"a": nd, "b": node(cons=[("load", f["c"], f["q"])])}, "gas": {"a": node(cons=[("load", 9, f["q"])])}}
        cv = {"cv": dict(src=[(("default", "a"), f["c"])], dest=("gas", "a"), cost=f["c"], max=f["q"])}
        yield item("form-%s" % name, dict(h=h, n=n, nets=nets, conv=cv), None)
    for name, conv in (("row", lambda m: np.array(m)[0]), ("rowlist", lambda m: np.array(m)[0].tolist()), ("series", lambda m: pd.Series(np.array(m)[0])),
                       ("column", lambda m: np.array(m)[:, :1]), ("columnlist", lambda m: np.array(m)[:, :1].tolist()),
                       ("scalar", lambda m: int(np.array(m)[0, 0])), ("float", lambda m: float(np.array(m)[0, 0]))):
        f = {k: conv(v) for k, v in base.items()}
        nd = node(cons=[("load", 10, f["q"])], prod=[("gen", f["c"], f["cap"])], link=[("b", f["c"], f["cap"])],
                  stor=[stor("cell", f["q"], f["cap"], f["cap"], f["c"], 1, 1)])
        nets = {"default": {"a": nd, "b": node(cons=[("load", f["c"], f["q"])])}, "gas": {"a": node(cons=[("load", 9, f["q"])])}}
        cv = {"cv": dict(src=[(("default", "a"), f["c"])], dest=("gas", "a"), cost=f["c"], max=f["q"])}
        yield item("form-%s" % name, dict(h=h, n=n, nets=nets, conv=cv), None)


ALL = dict(topology=fam_topology, topology4=fam_topology4, elements=fam_elements, networks=fam_networks, storage=fam_storage,
           storage_time=fam_storage_time, storages=fam_storages, converter=fam_converter, ratios=fam_ratios, mixed=fam_mixed, rewarded=fam_rewarded, subsets=fam_subsets,
           ladder=fam_ladder, costs=fam_costs, fractions=fam_fractions, crowd=fam_crowd, late=fam_late, year=fam_year, names=fam_names, forms=fam_forms)


def items(ctx, names):
    out = []
    for f in names:
        out += list(ALL[f](ctx))
    return out
