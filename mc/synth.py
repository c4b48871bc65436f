"""Synthetic studies and answers: every cell holds a different number."""
import itertools

import numpy as np

from mc.spec import node, stor


class Counter:
    def __init__(self, start=1):
        self.v = start

    def cells(self, n, h):
        a = np.arange(self.v, self.v + n * h, dtype=float).reshape(n, h)
        self.v += n * h
        return a


def subset_specs(n=2, h=3):
    """all subsets of element kinds on a node x second node/networks/converters"""
    for kinds in itertools.product((0, 1, 2), repeat=3):
        for links in (0, 1):
            for conv in (0, 1, 2):
                k = Counter()
                a = node(cons=[("c%d" % i, k.cells(n, h), k.cells(n, h)) for i in range(kinds[0])],
                         prod=[("p%d" % i, k.cells(n, h), k.cells(n, h)) for i in range(kinds[1])],
                         stor=[stor("s%d" % i, k.cells(n, h) + 1000, k.cells(n, h), k.cells(n, h), k.cells(n, h), i, k.cells(n, h) / 1e4) for i in range(kinds[2])],
                         link=[("b", k.cells(n, h), k.cells(n, h))][:links])
                b = node(cons=[("c0", k.cells(n, h), k.cells(n, h))])
                nets = {"e": {"a": a, "b": b}}
                cv = {}
                if conv:
                    nets["g"] = {"a": node(prod=[("p0", k.cells(n, h), k.cells(n, h))], stor=[stor("s0", 9, 9, 9, 1, 2, 0.5)][:conv - 1])}
                    cv["v"] = dict(src=[(("g", "a"), k.cells(n, h)), (("e", "a"), k.cells(n, h))][:conv], dest=("e", "b"), cost=k.cells(n, h), max=k.cells(n, h))
                if conv == 2:
                    cv["w"] = dict(src=[(("e", "b"), k.cells(n, h))], dest=("g", "a"), cost=k.cells(n, h), max=k.cells(n, h))
                yield dict(h=h, n=n, nets=nets, conv=cv)


def result_of(sp, start=100000):
    """a Result with the structure of the study and a different number in every cell (not an optimum)"""
    from hadar.optimizer.domain.output import (OutputConsumption, OutputConverter, OutputLink, OutputNetwork, OutputNode,
                                               OutputProduction, OutputStorage, Result)

    k = Counter(start)
    n, h = sp["n"], sp["h"]
    nets = {}
    for net, nodes in sp["nets"].items():
        d = {}
        for nd, e in nodes.items():
            d[nd] = OutputNode(
                consumptions=[OutputConsumption(name=c[0], quantity=k.cells(n, h)) for c in e["cons"]],
                productions=[OutputProduction(name=c[0], quantity=k.cells(n, h)) for c in e["prod"]],
                storages=[OutputStorage(name=c["name"], capacity=k.cells(n, h), flow_in=k.cells(n, h), flow_out=k.cells(n, h)) for c in e["stor"]],
                links=[OutputLink(dest=c[0], quantity=k.cells(n, h)) for c in e["link"]])
        nets[net] = OutputNetwork(nodes=d)
    conv = {name: OutputConverter(name=name, flow_src={s: k.cells(n, h) for s, _ in c["src"]}, flow_dest=k.cells(n, h)) for name, c in sp.get("conv", {}).items()}
    return Result(networks=nets, converters=conv)
