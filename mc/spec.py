"""Plain description of a study, independent of hadar's classes.

spec = dict(h=horizon, n=nb_scn,
            nets={net: {node: dict(cons=[(name, cost, qty)], prod=[(name, cost, qty)],
                                   stor=[dict(name, capacity, flow_in, flow_out, cost, init_capacity, eff)],
                                   link=[(dest, cost, qty)])}},
            conv={name: dict(src=[((net, node), ratio)], dest=(net, node), cost, max)})

Every number is anything which broadcasts to (nb_scn, horizon): scalar, row
(h,), column (n, 1), matrix.  build() gives it *as is* to hadar's fluent API,
mat() is our own reading of it.
"""
import numpy as np


def node(cons=(), prod=(), stor=(), link=()):
    return dict(cons=list(cons), prod=list(prod), stor=list(stor), link=list(link))


def stor(name, capacity, flow_in, flow_out, cost=0, init_capacity=0, eff=0.99):
    return dict(name=name, capacity=capacity, flow_in=flow_in, flow_out=flow_out,
                cost=cost, init_capacity=init_capacity, eff=eff)


def mat(spec, v):
    """(nb_scn, horizon) matrix of a value, by the documented rule."""
    h, n = spec["h"], spec["n"]
    a = np.array(v, dtype=float)
    if a.ndim == 0:
        return np.full((n, h), float(a))
    if a.shape == (h,):
        return np.tile(a, (n, 1))
    if a.shape == (n, 1):
        return np.tile(a, (1, h))
    assert a.shape == (n, h), (a.shape, n, h)
    return a


def build(spec):
    import hadar as hd

    study = hd.Study(horizon=spec["h"], nb_scn=spec["n"])
    for net, nodes in spec["nets"].items():
        sel = study.network(net)
        for nd, e in nodes.items():
            sel = sel.node(nd)
            for name, cost, qty in e["cons"]:
                sel = sel.consumption(name=name, cost=cost, quantity=qty)
            for name, cost, qty in e["prod"]:
                sel = sel.production(name=name, cost=cost, quantity=qty)
            for s in e["stor"]:
                sel = sel.storage(**s)
        for nd, e in nodes.items():
            for dest, cost, qty in e["link"]:
                sel = sel.link(src=nd, dest=dest, cost=cost, quantity=qty)
    for name, c in spec.get("conv", {}).items():
        for (net, nd), ratio in c["src"]:
            study.network(net).node(nd).to_converter(name=name, ratio=ratio)
        study.network(c["dest"][0]).converter(
            name=name, to_network=c["dest"][0], to_node=c["dest"][1], cost=c["cost"], max=c["max"])
    return study


def solve(study):
    import hadar as hd
    from mc.core import watchdog

    with watchdog(300, "LPOptimizer().solve"):
        return hd.LPOptimizer().solve(study)


# -- replay of an answer through the model's transition relation ------------------
TOL = 1e-5


def close(a, b, scale, tol=TOL):
    return abs(a - b) <= tol * max(1.0, scale)


def arr(spec, a, where):
    a = np.asarray(a, dtype=float)
    if a.shape != (spec["n"], spec["h"]):
        raise StructureError("%s has shape %s instead of (nb_scn, horizon)=(%d, %d)" % (where, a.shape, spec["n"], spec["h"]))
    return a


class StructureError(Exception):
    pass


def _named(where, got, want):
    if list(got) != list(want):
        raise StructureError("%s: result has %s but study has %s" % (where, list(got), list(want)))


def extract(spec, res):
    """Result -> plain arrays; checks the answer mirrors the study."""
    out = dict(nets={}, conv={})
    _named("networks", sorted(res.networks), sorted(spec["nets"]))
    for net, nodes in spec["nets"].items():
        _named("nodes of %s" % net, sorted(res.networks[net].nodes), sorted(nodes))
        out["nets"][net] = {}
        for nd, e in nodes.items():
            r = res.networks[net].nodes[nd]
            w = "%s/%s" % (net, nd)
            _named("consumptions of " + w, [c.name for c in r.consumptions], [c[0] for c in e["cons"]])
            _named("productions of " + w, [c.name for c in r.productions], [c[0] for c in e["prod"]])
            _named("storages of " + w, [c.name for c in r.storages], [c["name"] for c in e["stor"]])
            _named("links of " + w, [c.dest for c in r.links], [c[0] for c in e["link"]])
            out["nets"][net][nd] = dict(
                cons=[arr(spec, c.quantity, "consumption %s of %s" % (c.name, w)) for c in r.consumptions],
                prod=[arr(spec, c.quantity, "production %s of %s" % (c.name, w)) for c in r.productions],
                link=[arr(spec, c.quantity, "link %s of %s" % (c.dest, w)) for c in r.links],
                stor=[dict(level=arr(spec, c.capacity, "capacity of %s on %s" % (c.name, w)),
                           fin=arr(spec, c.flow_in, "flow_in of %s on %s" % (c.name, w)),
                           fout=arr(spec, c.flow_out, "flow_out of %s on %s" % (c.name, w))) for c in r.storages])
    _named("converters", sorted(res.converters), sorted(spec.get("conv", {})))
    for name, c in spec.get("conv", {}).items():
        r = res.converters[name]
        _named("sources of converter " + name, sorted(r.flow_src), sorted(s for s, _ in c["src"]))
        out["conv"][name] = dict(dest=arr(spec, r.flow_dest, "flow_dest of " + name),
                                 src={s: arr(spec, r.flow_src[s], "flow_src of " + name) for s, _ in c["src"]})
    return out


def _bad(mask):
    i = np.argwhere(mask)
    return tuple(int(x) for x in i[0]) if len(i) else None


def issues_balance(spec, x):
    """Node balance and element bounds -> list of messages (first problem of each kind)."""
    out = []

    def bound(v, top, what):
        sc = np.maximum(1.0, np.abs(top))
        b = _bad(~((v >= -TOL * sc) & (v <= top + TOL * sc)))
        if b:
            out.append("%s = %r outside [0, %r] at (scn, t)=%s" % (what, v[b], top[b], b))

    conv = spec.get("conv", {})
    for net, nodes in spec["nets"].items():
        for nd, e in nodes.items():
            r = x["nets"][net][nd]
            w = "%s/%s" % (net, nd)
            net_in = np.zeros((spec["n"], spec["h"]))
            scale = np.ones((spec["n"], spec["h"]))
            for (name, cost, qty), v in zip(e["cons"], r["cons"]):
                bound(v, mat(spec, qty), "given of consumption %s on %s" % (name, w))
                net_in -= v
                scale = np.maximum(scale, np.abs(v))
            for (name, cost, qty), v in zip(e["prod"], r["prod"]):
                bound(v, mat(spec, qty), "used of production %s on %s" % (name, w))
                net_in += v
                scale = np.maximum(scale, np.abs(v))
            for (dest, cost, qty), v in zip(e["link"], r["link"]):
                bound(v, mat(spec, qty), "used of link %s->%s in %s" % (nd, dest, net))
                net_in -= v
                scale = np.maximum(scale, np.abs(v))
            for other, oe in nodes.items():
                for (dest, cost, qty), v in zip(oe["link"], x["nets"][net][other]["link"]):
                    if dest == nd:
                        net_in += v
            for s, v in zip(e["stor"], r["stor"]):
                net_in += v["fout"] - v["fin"]
                scale = np.maximum(scale, np.maximum(np.abs(v["fout"]), np.abs(v["fin"])))
            for name, c in conv.items():
                for s, _ in c["src"]:
                    if s == (net, nd):
                        net_in -= x["conv"][name]["src"][s]
                        scale = np.maximum(scale, np.abs(x["conv"][name]["src"][s]))
                if c["dest"] == (net, nd):
                    net_in += x["conv"][name]["dest"]
            b = _bad(~(np.abs(net_in) <= TOL * scale))
            if b:
                out.append("balance of node %s is %r (should be 0) at (scn, t)=%s" % (w, net_in[b], b))
    return out


def issues_storage(spec, x):
    out = []

    def bound(v, top, what):
        sc = np.maximum(1.0, np.abs(top))
        b = _bad(~((v >= -TOL * sc) & (v <= top + TOL * sc)))
        if b:
            out.append("%s = %r outside [0, %r] at (scn, t)=%s" % (what, v[b], top[b], b))

    for net, nodes in spec["nets"].items():
        for nd, e in nodes.items():
            for s, v in zip(e["stor"], x["nets"][net][nd]["stor"]):
                w = "storage %s on %s/%s" % (s["name"], net, nd)
                cap = mat(spec, s["capacity"])
                bound(v["level"], cap, "level of " + w)
                bound(v["fin"], mat(spec, s["flow_in"]), "flow_in of " + w)
                bound(v["fout"], mat(spec, s["flow_out"]), "flow_out of " + w)
                eff = mat(spec, s["eff"])
                prev = np.concatenate([np.full((spec["n"], 1), float(s["init_capacity"])), v["level"][:, :-1]], axis=1)
                exp = prev + eff * v["fin"] - v["fout"]
                b = _bad(~(np.abs(v["level"] - exp) <= TOL * np.maximum(1.0, np.maximum(np.abs(cap), np.abs(exp)))))
                if b:
                    out.append("level of %s is %r but previous level %r + eff %r * in %r - out %r = %r at (scn, t)=%s"
                               % (w, v["level"][b], prev[b], eff[b], v["fin"][b], v["fout"][b], exp[b], b))
    return out


def issues_converter(spec, x):
    out = []
    for name, c in spec.get("conv", {}).items():
        v = x["conv"][name]
        top = mat(spec, c["max"])
        b = _bad(~((v["dest"] >= -TOL) & (v["dest"] <= top + TOL * np.maximum(1, top))))
        if b:
            out.append("output of converter %s = %r outside [0, %r] at (scn, t)=%s" % (name, v["dest"][b], top[b], b))
        for s, ratio in c["src"]:
            r = mat(spec, ratio)
            got = v["src"][s] * r
            b = _bad(~(np.abs(got - v["dest"]) <= TOL * np.maximum(1, np.abs(v["dest"]))))
            if b:
                out.append("converter %s: source %s flow %r * ratio %r != output %r at (scn, t)=%s"
                           % (name, s, v["src"][s][b], r[b], v["dest"][b], b))
            b = _bad(~(v["src"][s] >= -TOL))
            if b:
                out.append("converter %s: source %s flow %r < 0 at %s" % (name, s, v["src"][s][b], b))
    return out


def cost_of(spec, x):
    """(nb_scn, horizon) cost of a dispatch by the documented objective."""
    tot = np.zeros((spec["n"], spec["h"]))
    for net, nodes in spec["nets"].items():
        for nd, e in nodes.items():
            r = x["nets"][net][nd]
            for (name, cost, qty), v in zip(e["cons"], r["cons"]):
                tot += mat(spec, cost) * (mat(spec, qty) - v)
            for (name, cost, qty), v in zip(e["prod"], r["prod"]):
                tot += mat(spec, cost) * v
            for (dest, cost, qty), v in zip(e["link"], r["link"]):
                tot += mat(spec, cost) * v
            for s, v in zip(e["stor"], r["stor"]):
                tot += mat(spec, s["cost"]) * v["level"]
    for name, c in spec.get("conv", {}).items():
        tot += mat(spec, c["cost"]) * x["conv"][name]["dest"]
    return tot


# -- the same study under other names ----------------------------------------------
NAMES = dict(
    prefixes=["a", "aa", "aaa", "ab", "ba", "aab", "b", "bb", "abc", "aba", "baa", "bab", "cab", "cc", "ca", "ac"],
    patterns=[".", "a.", ".*", "a+", "(", "[a]", "^a", "a$", "|", "a|b", "*", "\\", "a\\.", "?", "{1}", ")"],
    cases=["node", "Node", "NODE", "nODE", "noDe", "nodE", "nOde", "NOde", "NodE", "noDE", "NOdE", "NODe", "nODe", "nOdE", "NoDE", "NoDe"],
    spaces=["a", " a", "a ", " a ", "a a", "a  a", " ", "  ", "\ta", "a\t", "\n", "a\n", "a b", "b a", "b ", " b"],
    digits=["1", "01", "10", "1.0", "-1", "0", "00", "1e0", "+1", "2", "02", "11", "0.5", "0x1", "1_0", "٣"],
    words=["t", "scn", "name", "node", "network", "dest", "cost", "default", "used", "value", "None", "nan", "True", "index", "level_0", "flow"],
    accents=["é", "e\u0301", "e", "É", "ß", "ss", "ſ", "s", "ı", "i", "İ", "ﬁ", "fi", "µ", "μ", "\u200b"],
    signs=["/", "%s", "%d", "%", "{}", "{0}", "a/b", "a,b", ",", ";", "'", '"', "=", "->", "a=b", "&"],
    joiners=["a", "a:b", "b", "b:c", "c", "a:b:c", "a-b", "b-c", "a_b", "b_c", "a.b", "b.c", "a b", "b c", "a/b", "b/c"],
    colons=["a", "a::b", "::", ":", "b", "a:", ":a", "b::c", "c", ":::", "::a", "a::", "[\"a", "[\"a\", \"b\"]", "[\"", "a::b::c"],
    emptynode=["default", "", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"],
    empty=["", "a", "b", "c", "default", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"])


def renamed(spec, scheme, shift=0):
    """same study, networks, nodes, elements and converters renamed one to one by order of appearance"""
    words = None if callable(scheme) else NAMES[scheme]
    table = {}

    def f(x):
        if callable(scheme):
            return scheme(x)
        if x not in table:
            table[x] = words[(len(table) + shift) % len(words)]
            assert len(set(table.values())) == len(table), (scheme, x)
        return table[x]

    nets = {}
    for net, nodes in spec["nets"].items():
        nn = f(net)
        nets[nn] = {f(nd): dict(cons=[(f(a), c, q) for a, c, q in e["cons"]], prod=[(f(a), c, q) for a, c, q in e["prod"]],
                                stor=[dict(s, name=f(s["name"])) for s in e["stor"]], link=[(f(d), c, q) for d, c, q in e["link"]])
                    for nd, e in nodes.items()}
    conv = {f(name): dict(c, src=[((f(s[0]), f(s[1])), r) for s, r in c["src"]], dest=(f(c["dest"][0]), f(c["dest"][1])))
            for name, c in spec.get("conv", {}).items()}
    return dict(spec, nets=nets, conv=conv)


SEPARATORS = ("", ":", "::", "-", "_", ".", " ", "/", ",", "|", ";", "=", "->", "\t", "\n", "\x00")


def joined(sep, n=2, h=3):
    """names which read the same once put together: network a, node b-c and network a-b, node c; node a, element b-c ..."""
    v = [0]

    def cells(mod, base=0):
        v[0] += 7
        return (np.arange(n * h).reshape(n, h) * 3 + v[0]) % mod + base + 0.0

    ab, bc, abc = "a" + sep + "b", "b" + sep + "c", "a" + sep + "b" + sep + "c"
    nets = {}
    for net in ("a", ab, "b", abc):
        nets[net] = {nd: node(cons=[(x, 500 + cells(40), cells(3)) for x in ("a", ab, "b", bc, "c")],
                              prod=[(x, 2 + cells(37) / 3, cells(4)) for x in ("c", bc, ab, "a")],
                              stor=[stor(x, cells(2, 2), cells(3), cells(3), cells(5) / 50, int(v[0] % 3), 1) for x in ("c", bc)],
                              link=[(x, 0.5 + cells(7) / 9, cells(3)) for x in ("a", bc, "c", ab) if x != nd])
                     for nd in ("a", bc, "c", ab, "b")}
    conv = {}
    for i, cv in enumerate(("a", ab, "b")):
        src = [(("a", bc), 1 + cells(3) / 4), ((ab, "c"), 1 + cells(5) / 4), (("a", "b"), 0.5 + cells(2)), ((ab, ab), 1)]
        conv[cv] = dict(src=src[i:], dest=(("b", "c"), (abc, "a"), ("b", ab))[i], cost=cells(9) / 8, max=cells(3))
    return dict(h=h, n=n, nets=nets, conv=conv)
