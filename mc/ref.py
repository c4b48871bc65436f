"""Explicit-state reference model of the adequacy problem.

State: time step and level of every storage, on the lattice of multiples of
`unit`.  Transition: one dispatch of the step (all link flows, converter
outputs, storage inputs and outputs, productions and shed loads on the
lattice), cost = documented objective.  Every admissible lattice dispatch is
enumerated; best() is the cheapest path over the whole horizon, None when no
lattice path exists.

Each lattice dispatch is admissible for the study, hence an optimal answer of
the solver can never cost more than best().  When the data are integer and no
storage loses energy and every ratio is 1 the polyhedron is integral: then
best() is exactly the optimum.
"""
import itertools

import numpy as np

from mc.spec import mat

INF = float("inf")


class Stats:
    states = 0
    transitions = 0


def _units(v, unit):
    k = v / unit
    r = int(round(k))
    return r if abs(k - r) < 1e-9 else int(np.floor(k + 1e-9))


def _exact_units(v, unit):
    k = v / unit
    r = int(round(k))
    assert abs(k - r) < 1e-9, "value %r is not on the lattice of %r" % (v, unit)
    return r


def node_table(offers, size, step):
    """offers: [(max units, unit cost)] -> T[need] cheapest way to inject exactly `need` units.

    Enumeration of all allocations: min-plus convolution.
    """
    T = np.full(size + 1, INF)
    T[0] = 0.0
    for top, c in offers:
        new = np.full(size + 1, INF)
        for q in range(0, top + 1, step):
            if q > size:
                break
            cand = np.full(size + 1, INF)
            cand[q:] = T[: size + 1 - q] + q * c
            new = np.minimum(new, cand)
        T = new
    return T


class Model:
    def __init__(self, spec, unit=1.0, flow_step=1, conv_step=1):
        """unit: lattice unit; flow_step: flows are multiples of flow_step units."""
        self.spec, self.unit, self.fs, self.cs = spec, unit, flow_step, conv_step
        self.nodes = [(net, nd) for net, nodes in spec["nets"].items() for nd in nodes]
        self.idx = {k: i for i, k in enumerate(self.nodes)}
        self.links, self.stors = [], []
        for net, nodes in spec["nets"].items():
            for nd, e in nodes.items():
                for dest, cost, qty in e["link"]:
                    self.links.append((self.idx[(net, nd)], self.idx[(net, dest)], mat(spec, cost), mat(spec, qty)))
                for s in e["stor"]:
                    self.stors.append(dict(node=self.idx[(net, nd)], cap=mat(spec, s["capacity"]),
                                           fin=mat(spec, s["flow_in"]), fout=mat(spec, s["flow_out"]),
                                           cost=mat(spec, s["cost"]), init=float(s["init_capacity"]),
                                           eff=mat(spec, s["eff"])))
        self.convs = []
        for name, c in spec.get("conv", {}).items():
            self.convs.append(dict(dest=self.idx[tuple(c["dest"])], cost=mat(spec, c["cost"]), max=mat(spec, c["max"]),
                                   src=[(self.idx[tuple(s)], mat(spec, r)) for s, r in c["src"]]))
        self.cons = [[(mat(spec, c), mat(spec, q)) for _, c, q in spec["nets"][net][nd]["cons"]] for net, nd in self.nodes]
        self.prod = [[(mat(spec, c), mat(spec, q)) for _, c, q in spec["nets"][net][nd]["prod"]] for net, nd in self.nodes]

    def _controls(self, s, t):
        """All combinations of (link flows, converter outputs, storage in/out): matrices (K, nodes) of
        net withdrawal in units, (K,) cost, (K, stor) level change in units."""
        u = self.unit
        axes = []
        for a, b, cost, qty in self.links:
            opts = []
            for q in range(0, _units(qty[s, t], u) + 1, self.fs):
                w = np.zeros(len(self.nodes))
                w[a] += q
                w[b] -= q
                opts.append((w, q * u * cost[s, t], None))
            axes.append(opts)
        for c in self.convs:
            opts = []
            for q in range(0, _units(c["max"][s, t], u) + 1, self.cs):
                w = np.zeros(len(self.nodes))
                w[c["dest"]] -= q
                ok = True
                for a, r in c["src"]:
                    k = q / r[s, t]
                    if abs(k - round(k)) > 1e-9:
                        ok = False
                        break
                    w[a] += round(k)
                if ok:
                    opts.append((w, q * u * c["cost"][s, t], None))
            axes.append(opts)
        for i, st in enumerate(self.stors):
            opts = []
            for q in range(0, _units(st["fin"][s, t], u) + 1, self.fs):
                d = q * st["eff"][s, t]
                if abs(d - round(d)) > 1e-9:
                    continue
                for o in range(0, _units(st["fout"][s, t], u) + 1, self.fs):
                    w = np.zeros(len(self.nodes))
                    w[st["node"]] += q - o
                    opts.append((w, 0.0, (i, int(round(d)) - o)))
            axes.append(opts)
        # progressive product with merging of equal (withdrawal, level change): keep the cheapest
        acc = {(tuple([0] * len(self.nodes)), tuple([0] * len(self.stors))): 0.0}
        for opts in axes:
            new = {}
            for (w, d), c in acc.items():
                for ow, oc, od in opts:
                    nw = tuple(int(x) for x in np.add(w, ow)) if False else tuple(int(a + b) for a, b in zip(w, ow))
                    if od is None:
                        nd = d
                    else:
                        nd = d[: od[0]] + (od[1],) + d[od[0] + 1:]
                    k = (nw, nd)
                    v = c + oc
                    if v < new.get(k, INF):
                        new[k] = v
                    Stats.transitions += 1
            acc = new
        return acc

    def best(self, s):
        u = self.unit
        levels = {tuple(_exact_units(st["init"], u) for st in self.stors): 0.0}
        for t in range(self.spec["h"]):
            ctrl = self._controls(s, t)
            tables, loads = [], []
            for i in range(len(self.nodes)):
                load = sum(_exact_units(q[s, t], u) for _, q in self.cons[i])
                offers = [(_exact_units(q[s, t], u), c[s, t] * u) for c, q in self.cons[i]]
                offers += [(_units(q[s, t], u), c[s, t] * u) for c, q in self.prod[i]]
                size = sum(o[0] for o in offers)
                tables.append(node_table(offers, size, 1))
                loads.append(load)
            # cheapest cost for each level change
            by_change = {}
            for (w, d), c in ctrl.items():
                tot = c
                for i, wi in enumerate(w):
                    need = loads[i] + wi
                    if need < 0 or need >= len(tables[i]):
                        tot = INF
                        break
                    tot += tables[i][need]
                if tot < by_change.get(d, INF):
                    by_change[d] = tot
            new = {}
            caps = [_units(st["cap"][s, t], u) for st in self.stors]
            for lv, c0 in levels.items():
                for d, c in by_change.items():
                    Stats.transitions += 1
                    nl = tuple(a + b for a, b in zip(lv, d))
                    if any(x < 0 or x > k for x, k in zip(nl, caps)):
                        continue
                    v = c0 + c + sum(x * u * st["cost"][s, t] for x, st in zip(nl, self.stors))
                    if v < new.get(nl, INF):
                        new[nl] = v
            levels = new
            Stats.states += len(levels)
            if not levels:
                return None
        return min(levels.values())


def grid_best(spec, link_top):
    """Same minimum for studies without storage nor converter and integer data, vectorised over all
    (scn, t) cells at once: every cell is an independent one-step problem. link_top: largest link capacity."""
    m = Model(spec)
    assert not m.stors and not m.convs
    n, h = spec["n"], spec["h"]
    N = n * h
    combos = np.array(list(itertools.product(*[range(link_top + 1)] * len(m.links))), dtype=int).reshape((link_top + 1) ** len(m.links), len(m.links))
    K = len(combos)
    caps = np.stack([q.reshape(N) for _, _, _, q in m.links], axis=1) if m.links else np.zeros((N, 0))
    lc = np.stack([c.reshape(N) for _, _, c, _ in m.links], axis=1) if m.links else np.zeros((N, 0))
    # per node tables by cell
    size = 0
    for i in range(len(m.nodes)):
        tot = sum(q for _, q in m.cons[i] + m.prod[i]) if (m.cons[i] + m.prod[i]) else np.zeros((n, h))
        size = max(size, int(np.max(tot)))
    tabs, loads = [], []
    for i in range(len(m.nodes)):
        T = np.full((N, size + 1), INF)
        T[:, 0] = 0.0
        for c, q in m.cons[i] + m.prod[i]:
            c, q = c.reshape(N), q.reshape(N).astype(int)
            new = np.full_like(T, INF)
            for k in range(0, int(q.max()) + 1):
                ok = q >= k
                cand = np.full_like(T, INF)
                cand[:, k:] = T[:, : size + 1 - k] + (k * c)[:, None]
                cand[~ok] = INF
                new = np.minimum(new, cand)
            T = new
        tabs.append(T)
        loads.append(sum((q for _, q in m.cons[i]), np.zeros((n, h))).reshape(N).astype(int))
    W = np.zeros((K, len(m.nodes)), dtype=int)
    for j, (a, b, _, _) in enumerate(m.links):
        W[:, a] += combos[:, j]
        W[:, b] -= combos[:, j]
    best = np.full(N, INF)
    Stats.states += N
    Stats.transitions += N * K
    chunk = max(1, int(4e6 // max(1, K)))
    for s in range(0, N, chunk):
        e = min(N, s + chunk)
        cost = combos @ lc[s:e].T if m.links else np.zeros((K, e - s))  # (K, cells)
        cost = cost.astype(float)
        if m.links:
            over = (combos[:, None, :] > caps[None, s:e, :]).any(axis=2)
            cost[over] = INF
        for i in range(len(m.nodes)):
            need = W[:, i][:, None] + loads[i][None, s:e]
            bad = (need < 0) | (need > size)
            nd = np.clip(need, 0, size)
            c = tabs[i][np.arange(s, e)[None, :], nd]
            c = np.where(bad, INF, c)
            cost = cost + c
        best[s:e] = cost.min(axis=0)
    return best.reshape(n, h)
