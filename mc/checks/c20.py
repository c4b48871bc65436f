import itertools

from mc import core

TITLE = "A pipeline accepted at link time runs; one that could not is refused"
LEVEL = "model_checking"
RULE = ("every sequence of stages up to the depth bound over an alphabet of 15 stages (built-in and custom, free and restricted plugs), stage "
        "objects shared by all pipelines of the exploration, assembled in every way (list, chained +, every split prefix pipeline + stages): "
        "accepted or refused as the plug algebra of the reference model says; accepted pipelines run on frames with every subset of columns: "
        "refused before any stage runs if a needed column is missing, else every stage runs and the columns announced are present; operands "
        "and stages are never altered. Then all sequences to depth 3 of Rename, Drop, ToShuffler and Clip over names of ten schemes (prefixes, cases, patterns...), plugs of up to 6 columns against every subset of columns offered by a frame or a stage, chains of up to 25 stages broken at each rank. states: plug states of the model; transitions: links; traces: pipelines assembled or run.")
ASSUMPTIONS = ["renames towards an existing column are not explored"]


def stages():
    """[(label, make, inputs|None when free, outputs, reference transformer)]"""
    import hadar as hd
    from hadar.workflow.pipeline import FreePlug, RestrictedPlug
    from mc import flow as F

    class Twice(hd.FocusStage):
        """b -> c"""

        def __init__(self):
            hd.FocusStage.__init__(self, RestrictedPlug(inputs=["b"], outputs=["c"]))

        def _process_scenarios(self, n_scn, scenario):
            scenario["c"] = scenario["b"] * 2
            return scenario.drop("b", axis=1)

    class Extra(hd.Stage):
        """adds column d to every scenario, needs nothing"""

        def __init__(self):
            hd.Stage.__init__(self, RestrictedPlug(outputs=["d"]))

        def _process_timeline(self, tl):
            for s in tl.columns.get_level_values(0).unique():
                tl[(s, "d")] = 7.0
            return tl

    class Both(hd.Stage):
        """needs quantity and b, gives both back"""

        def __init__(self):
            hd.Stage.__init__(self, RestrictedPlug(inputs=["quantity", "b"], outputs=["quantity", "b"]))

        def _process_timeline(self, tl):
            return tl + 1

    class Negate(hd.Stage):
        def __init__(self):
            hd.Stage.__init__(self, FreePlug())

        def _process_timeline(self, tl):
            return -tl

    def twice(c):
        out = {}
        for (s, n), v in c.items():
            if n == "b":
                out[(s, "c")] = tuple(2 * x for x in v)
            elif not (n == "c" and (s, "b") in c):
                out[(s, n)] = v
        return out

    def extra(c):
        out = dict(c)
        for s in F.scenarios(c):
            n = len(next(v for (z, _), v in c.items() if z == s))
            out[(s, "d")] = (7.0,) * n
        return out

    return [
        ("clip", lambda: hd.Clip(lower=0, upper=50), None, [], F.clip(0, 50)),
        ("repeat", lambda: hd.RepeatScenario(2), None, [], F.repeat(2)),
        ("negate", Negate, None, [], lambda c: {k: tuple(-x for x in v) for k, v in c.items()}),
        ("q->b", lambda: hd.Rename(quantity="b"), ["quantity"], ["b"], F.rename(quantity="b")),
        ("b->q", lambda: hd.Rename(b="quantity"), ["b"], ["quantity"], F.rename(b="quantity")),
        ("swap", lambda: hd.Rename(quantity="b", b="quantity"), ["quantity", "b"], ["b", "quantity"], F.rename(quantity="b", b="quantity")),
        ("drop q", lambda: hd.Drop("quantity"), ["quantity"], [], F.drop(["quantity"])),
        ("drop b,c", lambda: hd.Drop(["b", "c"]), ["b", "c"], [], F.drop(["b", "c"])),
        ("shuffler q", lambda: hd.ToShuffler("quantity"), ["quantity"], ["to_shuffler"], F.rename(quantity="to_shuffler")),
        ("shuffler c", lambda: hd.ToShuffler("c"), ["c"], ["to_shuffler"], F.rename(c="to_shuffler")),
        ("fault", lambda: hd.Fault(loss=0, occur_freq=0.5, downtime_min=1, downtime_max=3, seed=4), ["quantity"], ["quantity"], lambda c: dict(c)),
        ("twice", Twice, ["b"], ["c"], twice),
        ("extra", Extra, [], ["d"], extra),
        ("turn", lambda: hd.Rename(quantity="b", b="c", c="quantity"), ["quantity", "b", "c"], ["b", "c", "quantity"], F.rename(quantity="b", b="c", c="quantity")),
        ("both", Both, ["quantity", "b"], ["quantity", "b"], lambda c: {k: tuple(x + 1 for x in v) for k, v in c.items()})]


def link(plug, st):
    """model of the algebra: plug None = free | (inputs, outputs); -> new plug or None when refused"""
    if st[2] is None:
        return plug
    if plug == "free":
        return (frozenset(st[2]), frozenset(st[3]))
    if not set(st[2]) <= plug[1]:
        return None
    return (plug[0], (plug[1] - set(st[2])) | set(st[3]))


def run(ctx):
    import numpy as np
    import hadar as hd
    from hadar.workflow.pipeline import Pipeline
    from mc import flow as F

    A = stages()
    obj = [a[1]() for a in A]  # shared by every pipeline

    def show(seq):
        return " + ".join(A[i][0] for i in seq)

    def plug_of(p):
        return (type(p.plug).__name__, tuple(sorted(p.plug.inputs)), tuple(sorted(p.plug.outputs)))

    before = [plug_of(o) for o in obj]

    def model(seq):
        plug = "free"
        for k, i in enumerate(seq):
            plug = link(plug, A[i])
            if plug is None:
                return None, k
        return plug, None

    def chain(seq):
        p = obj[seq[0]]
        for i in seq[1:]:
            p = p + obj[i]
        return p

    def ways(seq):
        yield "list", lambda: Pipeline([obj[i] for i in seq])
        yield "chain", lambda: chain(seq)
        for k in range(1, len(seq)):
            if k >= 2:
                def split(k=k):
                    pre = Pipeline([obj[i] for i in seq[:k]])
                    was = (plug_of(pre), list(pre.stages))
                    try:
                        p = pre
                        for i in seq[k:]:
                            p = p + obj[i]
                    finally:
                        if (plug_of(pre), list(pre.stages)) != was:
                            raise core.Violation("adding a stage altered the pipeline it was added to: %s" % show(seq), {})
                    return p

                yield "split-%d" % k, split

    index = [10, 20, 30]
    NAMES = ("quantity", "b", "c")

    def frames():
        for mask in range(1, 8):
            ns = [n for i, n in enumerate(NAMES) if mask >> i & 1]
            for sc in ([0], [0, 1]):
                k = itertools.count(1)
                cols = [((s, n), tuple(float(next(k) * 9 - 20) for _ in index)) for s in sc for n in ns]
                yield ns, cols

    fr = list(frames())

    def one(c, root):
        deep = ctx.pick(4, 5)
        for L in range(len(root), deep + 1):
            for tail in itertools.product(range(len(A)), repeat=L - len(root)):
                seq = root + tail
                # below the run depth every way is tried; deeper only the list and the chain, without runs
                if model(seq[:-1])[0] is None:
                    continue  # its refused prefix was explored already
                plug, bad = model(seq)
                c.distinct.add(repr(plug))
                if len(seq) == 1:
                    todo = [("list", lambda: Pipeline([obj[seq[0]]]))]
                else:
                    todo = list(ways(seq))
                    if L == deep:
                        todo = todo[:2]
                built = None
                for how, make in todo:
                    try:
                        p = make()
                    except ValueError:
                        c.check(plug is None, "%s is refused (%s) although every stage gets its columns" % (show(seq), how))
                    else:
                        c.check(plug is not None, "%s is accepted (%s) although stage %r cannot get its columns" % (show(seq), how, A[seq[-1]][0]))
                        c.check(list(p.stages) == [obj[i] for i in seq], "stages of %s (%s) are %s" % (show(seq), how, p.stages))
                        want = ("FreePlug", (), ()) if plug == "free" else ("RestrictedPlug", tuple(sorted(plug[0])), tuple(sorted(plug[1])))
                        got = plug_of(p)
                        c.check((set(got[1]), set(got[2])) == (set(want[1]), set(want[2])), "plug of %s (%s) is %s instead of %s" % (show(seq), how, got, want))
                        try:
                            p.assert_to_shuffler()
                            ok = True
                        except ValueError:
                            ok = False
                        c.check(ok == ("to_shuffler" in want[2]), "assert_to_shuffler of %s says %s" % (show(seq), ok))
                        built = p
                    c.add("transitions", len(seq))
                    c.add("traces")
                if built is None or len(seq) > ctx.pick(3, 4):
                    continue
                for ns, cols in fr:
                    runs(c, seq, built, ns, cols)
        c.check([plug_of(o) for o in obj] == before, "linking or running altered the plug of a stage")
        c.sample(show(seq), cap=3)

    def runs(c, seq, p, ns, cols):
        plug, _ = model(seq)
        need = set() if plug == "free" else set(plug[0])
        df = F.frame(cols, index)
        keep = df.copy(deep=True)
        if not need <= set(ns):
            try:
                p(df)
            except ValueError:
                pass
            else:
                c.fail("%s runs on columns %s although it needs %s" % (show(seq), ns, sorted(need)))
            c.add("traces")
            return
        ref = dict(cols)
        try:
            for i in seq:
                ref = A[i][4](ref)
        except F.Refused:
            return  # rename collision: outside the property
        if not ref:
            return  # nothing left: values of an empty frame are not judged
        try:
            out = p(df)
        except Exception as e:
            c.fail("%s was accepted for columns %s but fails: %s: %s" % (show(seq), ns, type(e).__name__, e))
        d = F.differ(out, ref, index)
        c.check(d is None, "%s on columns %s: %s" % (show(seq), ns, d))
        c.check(keep.equals(df), "%s altered its input" % show(seq))
        if plug != "free":
            c.check(plug[1] <= F.names(ref), "%s announces %s but gives %s" % (show(seq), sorted(plug[1]), sorted(F.names(ref))))
        c.add("traces")

    core.fan_out(ctx, [(i, j) for i in range(len(A)) for j in range(len(A)) if model((i,))[0] is not None], one)
    for i in range(len(A)):
        p = Pipeline([obj[i]])
        for ns, cols in fr:
            runs(ctx, (i,), p, ns, cols)
    # names which resemble each other: links and needs are decided by whole names
    from mc import spec

    def named(c, t):
        scheme, shift = t
        w = spec.NAMES[scheme]
        w = [w[(shift + i) % len(w)] for i in range(3)]
        B = [("clip", lambda: hd.Clip(upper=1000), None, [], F.clip(None, 1000))]
        for x, y in itertools.permutations(w, 2):
            B.append(("%r->%r" % (x, y), lambda x=x, y=y: hd.Rename(**{x: y}), [x], [y], F.rename(**{x: y})))
        for x in w:
            B.append(("drop %r" % x, lambda x=x: hd.Drop(x), [x], [], F.drop([x])))
            B.append(("shuffler %r" % x, lambda x=x: hd.ToShuffler(x), [x], ["to_shuffler"], F.rename(**{x: "to_shuffler"})))
        o = [b[1]() for b in B]
        for L in (1, 2, 3):
            for seq in itertools.product(range(len(B)), repeat=L):
                plug = "free"
                for i in seq[:-1]:
                    plug = link(plug, B[i])
                    if plug is None:
                        break
                if plug is None:
                    continue
                plug = link(plug, B[seq[-1]])
                label = " + ".join(B[i][0] for i in seq)
                try:
                    p = Pipeline([o[i] for i in seq])
                except ValueError:
                    c.check(plug is None, "%s is refused although every stage gets its columns" % label)
                    continue
                c.check(plug is not None, "%s is accepted although its last stage cannot get its columns" % label)
                c.add("transitions", L)
                c.add("traces")
                c.distinct.add((scheme, repr(plug)))
                if L == 3 and not ctx.thorough:
                    continue
                for mask in range(1, 8):
                    ns = [n for i, n in enumerate(w) if mask >> i & 1]
                    cols = [((s, n), tuple(float(10 * j + 100 * s + t) for t in range(3))) for s in (0, 1) for j, n in enumerate(ns)]
                    need = set() if plug == "free" else set(plug[0])
                    df = F.frame(cols, index)
                    if not need <= set(ns):
                        try:
                            p(df)
                        except ValueError:
                            pass
                        else:
                            c.fail("%s runs on columns %s although it needs %s" % (label, ns, sorted(need)))
                    else:
                        ref = dict(cols)
                        try:
                            for i in seq:
                                ref = B[i][4](ref)
                        except F.Refused:
                            continue
                        if ref:
                            d = F.differ(p(df), ref, index)
                            c.check(d is None, "%s on columns %s: %s" % (label, ns, d))
                    c.add("traces")

    core.fan_out(ctx, [(s, i) for s in spec.NAMES for i in range(0, len(spec.NAMES[s]), ctx.pick(5, 1))], named)
    # plugs of many columns: every subset of the columns is offered, by a frame and by a stage
    from hadar.workflow.pipeline import RestrictedPlug

    class Plain(hd.Stage):
        def __init__(self, inputs, outputs):
            hd.Stage.__init__(self, RestrictedPlug(inputs=list(inputs), outputs=list(outputs)))

        def _process_timeline(self, tl):
            return tl

    def wide(c, k):
        cols = ["c%d" % i for i in range(6)]
        need = cols[:k]
        for more in ([], ["d0", "d1"], ["d%d" % i for i in range(9)]):
            for mask in range(64):
                has = [n for i, n in enumerate(cols) if mask >> i & 1] + more
                ok = set(need) <= set(has)
                for first in (has, has[::-1]):
                    st = Plain(need, need)
                    if first:
                        df = F.frame([((0, n), (1.0, 2.0, 3.0)) for n in first], index)
                        try:
                            st(df)
                        except ValueError:
                            c.check(not ok, "a stage which needs %s refuses columns %s" % (need, first))
                        else:
                            c.check(ok, "a stage which needs %s runs on columns %s" % (need, first))
                    try:
                        p = Plain(first, first) + st
                    except ValueError:
                        c.check(not ok, "a stage which needs %s refuses to follow one which gives %s" % (need, first))
                    else:
                        c.check(ok, "a stage which needs %s follows one which gives %s" % (need, first))
                        c.check(set(p.plug.outputs) == set(first), "announced columns are %s instead of %s" % (sorted(p.plug.outputs), sorted(first)))
                    c.add("transitions")
                    c.add("traces")

    core.fan_out(ctx, range(7), wide)

    # long chains: twelve stages, each fed by the one before, broken at each rank
    class Step(hd.Stage):
        def __init__(self, k, need, log):
            from hadar.workflow.pipeline import RestrictedPlug
            hd.Stage.__init__(self, RestrictedPlug(inputs=need, outputs=["c%d" % (k + 1)]))
            self.k, self.log = k, log

        def _process_timeline(self, tl):
            self.log.append(self.k)
            for s in tl.columns.get_level_values(0).unique():
                tl[(s, "c%d" % (self.k + 1))] = tl[(s, "c%d" % self.k)] * 2 + self.k
            return tl.drop("c%d" % self.k, axis=1, level=1)

    def assemble(stages_, how):
        if how == "list":
            return Pipeline(stages_)
        if how == "two lists":
            p = Pipeline(stages_[:len(stages_) // 2])
            for s in stages_[len(stages_) // 2:]:
                p = p + s
            return p
        p = stages_[0] + stages_[1]
        for s in stages_[2:]:
            p = p + s
        return p

    def long(c, t):
        n, broken, free, how = t
        log = []
        chain = [Step(k, ["c%d" % k] + (["nothing"] if k == broken else []), log) for k in range(n)]
        for at in free:
            chain.insert(at, hd.Clip())
        try:
            p = assemble(chain, how)
        except ValueError:
            c.check(0 < broken < n, "a chain of %d stages is refused (%s)" % (n, how))
        else:
            c.check(not 0 < broken < n, "a chain of %d stages, where the one of rank %d can not be fed, is accepted (%s)" % (n, broken, how))
            for names in (["c0"], ["c0", "nothing", "x"], ["x"], ["c1", "nothing"]):
                ok = "c0" in names and (broken != 0 or "nothing" in names)
                del log[:]
                df = F.frame([((s, m), (1.0 + s, 2.0, 3.0)) for s in (0, 1) for m in names], index)
                try:
                    out = p(df)
                except ValueError:
                    c.check(not ok and not log, "a chain of %d stages refuses columns %s after running %s" % (n, names, log))
                else:
                    c.check(ok, "a chain of %d stages which needs %s runs on columns %s" % (n, p.plug.inputs, names))
                    c.check(log == list(range(n)), "a chain of %d stages runs %s (%s)" % (n, log, how))
                    v = (1.0, 2.0, 3.0)
                    for k in range(n):
                        v = tuple(2 * x + k for x in v)
                    c.check(set(p.plug.outputs) == {"c%d" % n} and tuple(out[(0, "c%d" % n)]) == v, "a chain of %d stages gives %s (%s)" % (n, out.to_dict(), how))
                c.add("traces")
        c.add("transitions", n)
        c.distinct.add(repr(t))

    core.fan_out(ctx, [(n, b, f, how) for n in (2, 3, 9, 12, 25) for b in list(range(n + 1)) for f in ((), (0, 1, 5), (2,) * 9) for how in ("list", "sum", "two lists")], long)

    # twelve columns needed, each of them missing in turn
    for k in range(13):
        need = ["c%d" % i for i in range(12)]
        for order in (need, need[::-1]):
            has = [n for n in order if n != "c%d" % k] + ["x"]
            st = Plain(need, need)
            for what, f in (("frame", lambda: st(F.frame([((0, n), (1.0, 2.0, 3.0)) for n in has], index))), ("stage", lambda: Plain(has, has) + st), ("pipeline", lambda: Pipeline([Plain(has, has), hd.Clip(), st])), ("drop", lambda: Plain(has, has) + hd.Drop(need)),
                            ("rename", lambda: Plain(has, has) + hd.Rename(**{n: n + "z" for n in order})), ("frame of drop", lambda: hd.Drop(need)(F.frame([((0, n), (1.0, 2.0, 3.0)) for n in has], index)))):
                try:
                    f()
                except ValueError:
                    ctx.check(k < 12, "%s with all of twelve columns is refused" % what)
                else:
                    ctx.check(k == 12, "%s with eleven of twelve columns needed is accepted" % what)
                ctx.add("traces")
    # anything which is not a stage is refused
    for bad in (Pipeline([obj[0]]), None, 3):
        for left in (obj[0], Pipeline([obj[0]])):
            try:
                left + bad
            except ValueError:
                continue
            ctx.fail("%s can be added" % (bad,))
    ctx.add("states", len(ctx.distinct))
