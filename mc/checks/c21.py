import itertools

from mc import core

TITLE = "Stages transform every scenario alike and leave the caller's data alone"
LEVEL = "exploration"
RULE = ("every built-in stage with its parameter grid and custom stages x every frame: columns flat or by scenario, scenario labels contiguous, "
        "shifted or unordered, columns grouped or interleaved, with or without extra columns, time index plain, offset, dates or text, integer or "
        "float; alone, in pipelines of two and repeated on the same frame; and column names of ten schemes (prefixes, cases, spaces, patterns, digits...); output columns, values and time index against the reference stage, input "
        "frame bit for bit unaltered. Non-trivial: distinct (stage, frame).")
ASSUMPTIONS = ["values are numbers", "renames towards an existing column are not explored"]


def stage_list(thorough):
    import hadar as hd
    from hadar.workflow.pipeline import FreePlug, RestrictedPlug
    from mc import flow as F

    class Shift(hd.FocusStage):
        """quantity += 100 * position-free scenario label; other columns pass"""

        def __init__(self):
            hd.FocusStage.__init__(self, RestrictedPlug(inputs=["quantity"], outputs=["quantity"]))
            self.seen = []

        def _process_scenarios(self, n_scn, scenario):
            self.seen.append((n_scn, list(scenario.columns)))
            scenario["quantity"] = scenario["quantity"] + 100 * n_scn
            return scenario

    class Wide(hd.FocusStage):
        """gives more columns than it receives, in an order of its own"""

        def __init__(self):
            hd.FocusStage.__init__(self, RestrictedPlug(inputs=["quantity"], outputs=["low", "high"]))

        def _process_scenarios(self, n_scn, scenario):
            import pandas as pd

            q = scenario["quantity"]
            return pd.DataFrame({"high": q + 1, "low": q - 1}, index=scenario.index)

    class InPlace(hd.Stage):
        """a custom stage which spoils what it receives"""

        def __init__(self):
            hd.Stage.__init__(self, FreePlug())

        def _process_timeline(self, tl):
            tl.iloc[:, :] = tl.values * 3
            return tl

    out = []
    for lo, hi in itertools.product((None, -5, 0, 3.5), (None, 0, 4, 3.5)):
        if lo is not None and hi is not None and lo > hi:
            continue
        out.append(("Clip(%s, %s)" % (lo, hi), lambda lo=lo, hi=hi: hd.Clip(lower=lo, upper=hi), [], F.clip(lo, hi)))
    for n in (1, 2, 3, 5, 12) if thorough else (1, 2, 3, 12):
        out.append(("RepeatScenario(%d)" % n, lambda n=n: hd.RepeatScenario(n), [], F.repeat(n)))
    for kw in (dict(quantity="z"), dict(b="y"), dict(quantity="b", b="quantity"), dict(quantity="z", b="y")):
        out.append(("Rename(%s)" % kw, lambda kw=kw: hd.Rename(**kw), list(kw), F.rename(**kw)))
    many = ["c%d" % i for i in range(9)] + ["b", "quantity"]
    out.append(("Rename of eleven", lambda: hd.Rename(**{n: n + "x" for n in many}), many, F.rename(**{n: n + "x" for n in many})))
    out.append(("Drop of eleven", lambda: hd.Drop(many), many, F.drop(many)))
    for n in ("quantity", "b"):
        out.append(("ToShuffler(%s)" % n, lambda n=n: hd.ToShuffler(n), [n], F.rename(**{n: "to_shuffler"})))
        out.append(("Drop(%s)" % n, lambda n=n: hd.Drop(n), [n], F.drop([n])))
        out.append(("Drop([%s])" % n, lambda n=n: hd.Drop([n]), [n], F.drop([n])))
    out.append(("Drop(2)", lambda: hd.Drop(["b", "quantity"]), ["b", "quantity"], F.drop(["quantity", "b"])))
    out.append(("Fault(never)", lambda: hd.Fault(loss=9, occur_freq=0, downtime_min=1, downtime_max=2), ["quantity"], lambda c: dict(c)))
    out.append(("custom shift", Shift, ["quantity"], lambda c: {k: (tuple(x + 100 * k[0] for x in v) if k[1] == "quantity" else v) for k, v in c.items()}))
    out.append(("custom wide", Wide, ["quantity"], lambda c: {(s, n): tuple(x + d for x in c[(s, "quantity")]) for s in F.scenarios(c) for n, d in (("low", -1), ("high", 1))}))
    out.append(("custom in place", InPlace, [], lambda c: {k: tuple(3 * x for x in v) for k, v in c.items()}))
    return out


def frames(thorough):
    import pandas as pd

    indexes = [("range", [0, 1, 2]), ("offset", [7, 9, 4]), ("dates", list(pd.date_range("2021-03-27", periods=3, freq="D"))), ("text", ["x", "a", "m"]), ("one", [5])]
    names = [["quantity"], ["b", "quantity"], ["quantity", "b"], ["quantity", "other", "b"], ["quantity", 0, "b"], [0, "b", "", "quantity"]]
    scns = [("flat", [0]), ("one", [0]), ("two", [0, 1]), ("shifted", [5, 6]), ("unordered", [3, 0, 1]), ("text", ["y", "x"])]
    # a dozen scenarios and columns, a longer horizon
    for ns in (["quantity", "b"] + ["c%d" % i for i in range(10)], ["c%d" % i for i in range(10)] + ["b", "quantity"]):
        for sl, sc in (("dozen", list(range(12))), ("dozen falling", list(range(12, 0, -1))), ("one", [0]), ("flat", [0])):
            idx = list(range(20)) if len(sc) == 1 else [4, 2]
            keys = [(s, n) for s in sc for n in ns]
            k = itertools.count(0)
            cols = [(key, tuple(float((next(k) * 5) % 17 - 8) for _ in idx)) for key in keys]
            yield "large, columns %s, scenarios %s" % (ns, sl), ns, cols, idx, float, sl == "flat"
    for (il, idx), ns, (sl, sc) in itertools.product(indexes, names, scns):
        for inter in ((False, True) if len(sc) > 1 and len(ns) > 1 else (False,)):
            for dtype in (float, int):
                if not thorough and ((dtype is int and il not in ("range", "dates")) or (il != "range" and (0 in ns or sl == "text"))):
                    continue
                keys = [(s, n) for n in ns for s in sc] if inter else [(s, n) for s in sc for n in ns]
                k = itertools.count(0)
                cols = [(key, tuple(float((next(k) * 5) % 17 - 8) for _ in idx)) for key in keys]
                yield "%s index, columns %s, scenarios %s%s, %s" % (il, ns, sl, " interleaved" if inter else "", dtype.__name__), ns, cols, idx, dtype, sl == "flat"


def run(ctx):
    import hadar as hd
    from mc import flow as F

    S = stage_list(ctx.thorough)
    fr = list(frames(ctx.thorough))

    def untouched(df, keep):
        return df.equals(keep) and list(df.columns) == list(keep.columns) and list(df.index) == list(keep.index) and list(df.dtypes) == list(keep.dtypes) and type(df.columns) is type(keep.columns)

    def one(c, i):
        label, make, need, ref = S[i]
        st = make()
        for fl, ns, cols, idx, dtype, flat in fr:
            if label == "custom shift" and "scenarios text" in fl:
                continue
            df = F.frame(cols, idx, dtype, flat)
            keep = df.copy(deep=True)
            if not set(need) <= set(ns):
                try:
                    st(df)
                except ValueError:
                    pass
                else:
                    c.fail("%s runs on a frame without %s (%s)" % (label, need, fl))
                c.check(untouched(df, keep), "%s altered the frame it refused (%s)" % (label, fl))
                c.add("evaluations")
                continue
            try:
                want = ref(dict(cols))
            except F.Refused:
                continue
            for again in range(2):  # same stage, same frame, twice
                out = st(df)
                if want or out.shape[1]:
                    d = F.differ(out, want, idx)
                    c.check(d is None, "%s on %s%s: %s" % (label, fl, " (again)" if again else "", d))
                c.check(untouched(df, keep), "%s altered its input (%s)" % (label, fl))
                c.add("evaluations")
            if label == "custom shift":
                # each scenario seen once per run, alone
                want_seen = [(s, [n for (z, n), _ in cols if z == s]) for s in F.scenarios(dict(cols))] * 2
                c.check(sorted(map(repr, st.seen)) == sorted(map(repr, want_seen)), "FocusStage showed %s instead of %s" % (st.seen, want_seen))
                st.seen = []
            # result belongs to the caller
            if out.shape[1]:
                out.iloc[:, :] = 0
                c.check(untouched(df, keep), "the answer of %s is tied to its input (%s)" % (label, fl))
            c.distinct.add((label, fl))
        c.sample(dict(stage=label, frame=fl), cap=3)

    core.fan_out(ctx, list(range(len(S))), one)

    # compositions: a pipeline is its stages one after the other, on each frame
    def two(c, t):
        i, j = t
        a, b = S[i], S[j]
        try:
            p = a[1]() + b[1]()
        except ValueError:
            return
        for fl, ns, cols, idx, dtype, flat in fr[::ctx.pick(7, 1)]:
            if "scenarios text" in fl and "custom shift" in (a[0], b[0]):
                continue
            if not set(a[2]) <= set(ns):
                continue
            df = F.frame(cols, idx, dtype, flat)
            keep = df.copy(deep=True)
            try:
                p.assert_computable(hd.Stage.standardize_column(df))
            except ValueError:
                continue
            try:
                want = b[3](a[3](dict(cols)))
            except F.Refused:
                continue
            except KeyError:
                continue
            if not want:
                continue
            d = F.differ(p(df), want, idx)
            c.check(d is None, "%s + %s on %s: %s" % (a[0], b[0], fl, d))
            c.check(untouched(df, keep), "%s + %s altered its input (%s)" % (a[0], b[0], fl))
            c.add("evaluations")
            c.distinct.add((a[0], b[0], fl))

    core.fan_out(ctx, list(itertools.product(range(len(S)), repeat=2)), two)

    # column names which resemble each other: prefixes, cases, spaces, digits, patterns, words of the library...
    from mc import spec

    def named(c, t):
        scheme, shift = t
        words = spec.NAMES[scheme]
        words = [words[(shift + i) % len(words)] for i in range(4)]
        idx = [3, 1, 2]
        k = itertools.count(0)
        cols = [((s, n), tuple(float((next(k) * 5) % 17 - 8) for _ in idx)) for s in (4, 0) for n in words]
        df = F.frame(cols, idx)
        keep = df.copy(deep=True)
        todo = [("Clip", lambda: hd.Clip(lower=-3, upper=4), F.clip(-3, 4)), ("RepeatScenario", lambda: hd.RepeatScenario(2), F.repeat(2))]
        for n in words:
            todo.append(("ToShuffler(%r)" % n, lambda n=n: hd.ToShuffler(n), F.rename(**{n: "to_shuffler"})))
            todo.append(("Drop(%r)" % n, lambda n=n: hd.Drop(n), F.drop([n])))
            todo.append(("Rename(%r)" % n, lambda n=n: hd.Rename(**{n: "new one"}), F.rename(**{n: "new one"})))
        for n, m in itertools.permutations(words, 2):
            todo.append(("Drop(%r, %r)" % (n, m), lambda n=n, m=m: hd.Drop([n, m]), F.drop([n, m])))
            todo.append(("Rename(%r, %r)" % (n, m), lambda n=n, m=m: hd.Rename(**{n: m, m: n}), F.rename(**{n: m, m: n})))
        for label, make, ref in todo:
            want = ref(dict(cols))
            d = F.differ(make()(df), want, idx)
            c.check(d is None, "%s on columns %s: %s" % (label, words, d))
            c.check(untouched(df, keep), "%s altered its input (columns %s)" % (label, words))
            c.add("evaluations")
            # the column asked is missing, the others are there
            if label.startswith(("ToShuffler", "Drop", "Rename")):
                gone = next(n for n in words if make().plug.inputs and n in make().plug.inputs)
                part = F.frame([(kk, v) for kk, v in cols if kk[1] != gone], idx)
                try:
                    make()(part)
                except ValueError:
                    pass
                else:
                    c.fail("%s runs on columns %s, without %r" % (label, [n for n in words if n != gone], gone))
                c.add("evaluations")
        c.distinct.add((scheme, shift))

    core.fan_out(ctx, [(s, i) for s in spec.NAMES for i in range(0, len(spec.NAMES[s]), ctx.pick(2, 1))], named)
