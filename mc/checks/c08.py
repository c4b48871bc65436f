import itertools

from mc import core

TITLE = "A study holds exactly what the fluent calls said, wherever the chain went"
LEVEL = "model_checking"
RULE = ("every sequence of fluent calls up to the depth bound over two interleaved studies (network, node, consumption, production, storage, "
        "link, converter, to_converter, reuse of an earlier selector, switch of study, repeated and dangling calls), replayed on the real "
        "builder and on a reference model (nested dicts + cursor); the whole content and order of both studies is compared after every "
        "history; deeper levels by breadth-first search on the model state; each call with every subset of optional parameters left out and by position. states: distinct model states; transitions: calls; traces: histories replayed.")
ASSUMPTIONS = ["only calls a level offers are made", "values are constants of the call, broadcasting is decided by C10"]

H, N = 2, 1

# one symbol per call: (label, levels where it is offered)
NODE, NET, STUDY = "node", "net", "study"


class Refused(Exception):
    pass


def tup(v):
    return tuple(tuple(float(v) for _ in range(H)) for _ in range(N))


class Model:
    """reference: plain dicts and a cursor"""

    def __init__(self):
        self.nets, self.conv = {}, {}
        self.cur = None
        self.saved = []

    def level(self):
        return STUDY if self.cur is None else (NET if len(self.cur) == 1 else NODE)

    def node(self):
        return self.nets[self.cur[0]][self.cur[1]]

    def apply(self, op):
        k = op[0]
        if k == "network":
            self.nets.setdefault(op[1], {})
            self.cur = (op[1],)
        elif k == "node":
            self.nets[self.cur[0]].setdefault(op[1], dict(cons=[], prod=[], stor=[], link=[]))
            self.cur = (self.cur[0], op[1])
        elif k in ("consumption", "production"):
            lst = self.node()["cons" if k == "consumption" else "prod"]
            if op[1] in [x[0] for x in lst]:
                raise Refused
            lst.append((op[1], tup(op[2]), tup(op[3])))
        elif k == "storage":
            lst = self.node()["stor"]
            if op[1] in [x[0] for x in lst]:
                raise Refused
            a = op[2]
            lst.append((op[1], tup(a[0]), tup(a[1]), tup(a[2]), tup(a[3]), float(a[4]), tup(a[5])))
        elif k == "link":
            nodes = self.nets[self.cur[0]]
            if op[1] not in nodes or op[2] not in nodes or op[2] in [x[0] for x in nodes[op[1]]["link"]]:
                raise Refused
            nodes[op[1]]["link"].append((op[2], tup(op[3]), tup(op[4])))
            self.cur = (self.cur[0],)
        elif k == "to_converter":
            c = self.conv.get(op[1])
            if c and self.cur in c["src"]:
                raise Refused
            c = self.conv.setdefault(op[1], dict(name=op[1], src={}, dest=None, cost=None, max=None))
            c["src"][self.cur] = tup(op[2])
        elif k == "converter":
            c = self.conv.get(op[1])
            if (c and c["dest"]) or op[2] not in self.nets or op[3] not in self.nets[op[2]]:
                raise Refused
            c = self.conv.setdefault(op[1], dict(name=op[1], src={}, dest=None, cost=None, max=None))
            c.update(dest=(op[2], op[3]), cost=tup(op[4]), max=tup(op[5]))
            self.cur = (self.cur[0],)

    def content(self):
        return dict(h=H, n=N, nets=self.nets, conv=self.conv)


def alphabet():
    A = []
    for n in ("e", "g"):
        A.append(("network", n))
    for n in ("a", "b"):
        A.append(("node", n))
    A.append(("consumption", "x", 2, 3))
    A.append(("consumption", "y", 4, 5))
    A.append(("production", "x", 6, 7))
    A.append(("storage", "x", (8, 9, 10, 11, 1, 0.5)))
    A.append(("link", "a", "b", 12, 13))
    A.append(("link", "b", "a", 14, 15))
    A.append(("to_converter", "cv", 16))
    A.append(("converter", "cv", "e", "a", 17, 18))
    A.append(("back", 1))
    A.append(("other",))
    return A


def offered(m, op):
    lv = m.level()
    k = op[0]
    if k == "network":
        return True
    if k in ("node", "link", "converter"):
        return lv != STUDY
    if k in ("consumption", "production", "storage", "to_converter"):
        return lv == NODE
    if k == "back":
        return len(m.saved) >= 1
    return True


class Play:
    """one history on the real builder"""

    def __init__(self):
        import hadar as hd

        self.st = [hd.Study(horizon=H, nb_scn=N), hd.Study(horizon=H, nb_scn=N)]
        self.cur = list(self.st)
        self.saved = [[], []]
        self.i = 0

    def step(self, op, refused):
        k, i = op[0], self.i
        if k == "other":
            self.i = 1 - i
            return
        if k == "back":
            s = self.saved[i]
            self.cur[i], s[-1] = s[-1], self.cur[i]
            return
        c = self.cur[i]
        kw = {"network": lambda: c.network(op[1]), "node": lambda: c.node(op[1]),
              "consumption": lambda: c.consumption(name=op[1], cost=op[2], quantity=op[3]),
              "production": lambda: c.production(name=op[1], cost=op[2], quantity=op[3]),
              "storage": lambda: c.storage(name=op[1], capacity=op[2][0], flow_in=op[2][1], flow_out=op[2][2], cost=op[2][3], init_capacity=op[2][4], eff=op[2][5]),
              "link": lambda: c.link(src=op[1], dest=op[2], cost=op[3], quantity=op[4]),
              "to_converter": lambda: c.to_converter(name=op[1], ratio=op[2]),
              "converter": lambda: c.converter(name=op[1], to_network=op[2], to_node=op[3], cost=op[4], max=op[5])}[k]
        if refused:
            try:
                kw()
            except ValueError:
                return
            raise core.Violation("call %s should be refused with ValueError" % (op,), {})
        new = kw()
        if new is None:
            raise core.Violation("call %s returned nothing to chain on" % (op,), {})
        if k in ("network", "node") and c is not self.st[i]:
            self.saved[i].append(c)
        self.cur[i] = new

    def check_build(self):
        for i in (0, 1):
            if self.cur[i] is not self.st[i]:
                b = self.cur[i].build()
                if b is not self.st[i]:
                    raise core.Violation("build() returned another study", {})


class Pair:
    def __init__(self):
        self.m = [Model(), Model()]
        self.i = 0

    def step(self, op):
        """-> refused"""
        m = self.m[self.i]
        if op[0] == "other":
            self.i = 1 - self.i
            return False
        if op[0] == "back":
            m.cur, m.saved[-1] = m.saved[-1], m.cur
            return False
        old = m.cur
        try:
            m.apply(op)
        except Refused:
            m.cur = old
            return True
        if op[0] in ("network", "node") and old is not None:
            m.saved.append(old)
        return False

    def key(self):
        return repr((self.i, [(m.nets, m.conv, m.cur, m.saved[-1:]) for m in self.m]))


def replay(ctx, hist):
    from mc import dump

    p, r = Pair(), Play()
    for op in hist:
        refused = p.step(op)
        try:
            r.step(op, refused)
        except core.Violation as e:
            raise core.Violation("%s in history %s" % (e.what, hist), {"history": hist})
        except Exception as e:
            raise core.Violation("%s: %s on call %s of history %s" % (type(e).__name__, e, op, hist), {"history": hist})
    r.check_build()
    for i in (0, 1):
        d = dump.diff(dump.study(r.st[i]), p.m[i].content())
        ctx.check(d is None, "study %d after %s: %s" % (i, hist, d), history=hist)
    ctx.add("traces")
    ctx.add("transitions", len(hist))
    return p


def enabled(p, A, first_other=False):
    for op in A:
        if offered(p.m[p.i], op):
            yield op


def defaults(ctx):
    """parameters left out, given by position or by name; default network"""
    import hadar as hd
    from mc import dump

    pars = dict(storage=[("name", "x"), ("capacity", 8), ("flow_in", 9), ("flow_out", 10), ("cost", 11), ("init_capacity", 1), ("eff", 0.5)],
                consumption=[("name", "x"), ("cost", 2), ("quantity", 3)], production=[("name", "x"), ("cost", 2), ("quantity", 3)],
                link=[("src", "a"), ("dest", "b"), ("cost", 2), ("quantity", 3)], to_converter=[("name", "cv"), ("ratio", 4)],
                converter=[("name", "cv"), ("to_network", "default"), ("to_node", "b"), ("max", 5), ("cost", 6)])
    std = dict(storage=dict(cost=0, init_capacity=0, eff=0.99), to_converter=dict(ratio=1), converter=dict(cost=0))
    for op, ps in pars.items():
        opt = list(std.get(op, {}))
        for left in itertools.chain.from_iterable(itertools.combinations(opt, k) for k in range(len(opt) + 1)):
            given = [(k, v) for k, v in ps if k not in left]
            whole = {**dict(ps), **{k: std[op][k] for k in left}}
            prefix = [k for k, _ in ps][: len(given)] == [k for k, _ in given]
            for npos in range((len(given) if prefix else 0) + 1):
                for level in ("node", "network") if op in ("link", "converter") else ("node",):
                    for first in ("default", "other"):
                        st = hd.Study(horizon=H, nb_scn=N)
                        if first == "other":
                            st.network("other").node("a")
                        at = st.network().node("b").network().node("a") if first == "default" else st.network("other").network().node("b").node("a")
                        if level == "network":
                            at = st.network()
                        getattr(at, op)(*[v for _, v in given[:npos]], **dict(given[npos:]))
                        m = Model()
                        for o in ([("network", "other"), ("node", "a")] if first == "other" else []) + [("network", "default"), ("node", "b"), ("node", "a")]:
                            m.apply(o)
                        w = whole
                        m.apply({"storage": lambda: ("storage", w["name"], tuple(w[k] for k in ("capacity", "flow_in", "flow_out", "cost", "init_capacity", "eff"))),
                                 "consumption": lambda: ("consumption", w["name"], w["cost"], w["quantity"]), "production": lambda: ("production", w["name"], w["cost"], w["quantity"]),
                                 "link": lambda: ("link", w["src"], w["dest"], w["cost"], w["quantity"]), "to_converter": lambda: ("to_converter", w["name"], w["ratio"]),
                                 "converter": lambda: ("converter", w["name"], w["to_network"], w["to_node"], w["cost"], w["max"])}[op]())
                        d = dump.diff(dump.study(st), m.content())
                        ctx.check(d is None, "%s on %s level with %s left out and %d parameters by position: %s" % (op, level, left or "nothing", npos, d))
                        ctx.add("traces")
                        ctx.add("transitions", 4)
                        ctx.distinct.add((op, left, npos, level, first))
    # every value is kept as given, zero included
    sign = dict(cost=True, ratio=True, max=True)
    for op, ps in pars.items():
        for key, v0 in ps:
            if isinstance(v0, str):
                continue
            for v in (0, 0.0, 1, 0.5, 1e-9, 1.0) + (() if key == "eff" else (1e12, 7)) + ((-3, -0.25) if key in sign else ()):
                w = {**dict(ps), key: v}
                st = hd.Study(horizon=H, nb_scn=N)
                getattr(st.network().node("b").node("a"), op)(**w)
                m = Model()
                for o in [("network", "default"), ("node", "b"), ("node", "a")]:
                    m.apply(o)
                m.apply({"storage": lambda: ("storage", w["name"], tuple(w[k] for k in ("capacity", "flow_in", "flow_out", "cost", "init_capacity", "eff"))),
                         "consumption": lambda: ("consumption", w["name"], w["cost"], w["quantity"]), "production": lambda: ("production", w["name"], w["cost"], w["quantity"]),
                         "link": lambda: ("link", w["src"], w["dest"], w["cost"], w["quantity"]), "to_converter": lambda: ("to_converter", w["name"], w["ratio"]),
                         "converter": lambda: ("converter", w["name"], w["to_network"], w["to_node"], w["cost"], w["max"])}[op]())
                d = dump.diff(dump.study(st), m.content())
                ctx.check(d is None, "%s with %s=%r: %s" % (op, key, v, d))
                ctx.add("traces")
                ctx.add("transitions", 4)
                ctx.distinct.add((op, key, v))
    ctx.check(hd.Study(horizon=3).nb_scn == 1 and hd.Study(horizon=3).horizon == 3, "sizes of a new study")
    ctx.check(hd.Study(3, 2).nb_scn == 2 and hd.Study(3, 2).horizon == 3, "sizes of a new study given by position")
    ctx.check(hd.Study(horizon=3).version == hd.__version__, "version of a new study is %r instead of %r" % (hd.Study(horizon=3).version, hd.__version__))


def run(ctx):
    A = alphabet()
    defaults(ctx)

    # phase 1: every history up to depth d (each maximal history replays all of its calls)
    d = ctx.pick(6, 7)
    roots = []

    def grow(hist, k, out):
        p = Pair()
        for op in hist:
            p.step(op)
        if k == 0:
            out.append(hist)
            return
        for op in enabled(p, A):
            grow(hist + [op], k - 1, out)

    grow([], 3, roots)

    def sub(c, root):
        out = []
        grow(root, d - 3, out)
        for h in out:
            p = replay(c, h)
            c.distinct.add(hash(p.key()))
            if c.over():
                return
        if out:
            c.sample(out[-1])

    core.fan_out(ctx, roots, sub)

    # phase 2: breadth first on the model state, deeper, from a set of grown states
    seen, frontier = set(), [[("network", "e"), ("node", "a"), ("node", "b")], [("network", "g"), ("node", "b"), ("network", "e"), ("node", "a")]]
    depth = ctx.pick(5, 6)
    for _ in range(depth):
        nxt = []
        for h in frontier:
            p = Pair()
            for op in h:
                p.step(op)
            for op in enabled(p, A):
                q = h + [op]
                pp = Pair()
                for o in q:
                    pp.step(o)
                k = hash(pp.key())
                if k not in seen:
                    seen.add(k)
                    nxt.append(q)
        chunks = [nxt[i::64] for i in range(64)]

        def many(c, ch):
            for h in ch:
                replay(c, h)
                if c.over():
                    return

        core.fan_out(ctx, [c for c in chunks if c], many)
        frontier = nxt
    # phase 3: names which resemble each other
    from mc import spec

    def named(c, t):
        scheme, shift = t
        w = [spec.NAMES[scheme][(shift + i) % len(spec.NAMES[scheme])] for i in range(3)]
        B = [("network", w[0]), ("network", w[1]), ("node", w[1]), ("node", w[2]), ("consumption", w[0], 2, 3), ("consumption", w[1], 4, 5), ("production", w[2], 6, 7),
             ("storage", w[1], (8, 9, 10, 11, 1, 0.5)), ("link", w[1], w[2], 12, 13), ("link", w[2], w[0], 14, 15), ("to_converter", w[0], 16), ("to_converter", w[1], 2), ("converter", w[1], w[0], w[1], 17, 18)]
        base = [("network", w[0]), ("node", w[1]), ("node", w[2]), ("consumption", w[2], 1, 1), ("network", w[2]), ("node", w[0]), ("node", w[1])]
        for tail in itertools.product(B, repeat=ctx.pick(2, 3)):
            h, p = list(base), Pair()
            for op in base:
                p.step(op)
            for op in tail:
                if not offered(p.m[p.i], op):
                    break
                h.append(op)
                p.step(op)
            if len(h) == len(base) + len(tail):
                q = replay(c, h)
                c.distinct.add(hash(q.key()))

    core.fan_out(ctx, [(k, i) for k in spec.NAMES for i in range(0, len(spec.NAMES[k]), ctx.pick(3, 1))], named)
    ctx.distinct |= seen
    ctx.add("states", len(ctx.distinct))
    ctx.notes["depth_all_histories"] = d
    ctx.notes["depth_bfs"] = depth + 4
