"""Reference of workflow stages on plain dicts: {(scenario, name): list of values} + time index."""
import numpy as np


class Refused(Exception):
    pass


def frame(cols, index, dtype=float, flat=False):
    """cols: [((scn, name), values)] -> DataFrame"""
    import pandas as pd

    data = np.array([v for _, v in cols], dtype=dtype).T.reshape(len(index), len(cols))
    if flat:
        return pd.DataFrame(data, index=index, columns=[n for (_, n), _ in cols])
    return pd.DataFrame(data, index=index, columns=pd.MultiIndex.from_tuples([k for k, _ in cols]))


def read(df):
    """DataFrame -> ({(scn, name): tuple}, index)"""
    import pandas as pd

    if not isinstance(df, pd.DataFrame):
        raise ValueError("not a DataFrame: %r" % (df,))
    cols = {}
    for i, k in enumerate(df.columns):
        k = tuple(int(z) if isinstance(z, (int, np.integer)) else z for z in k) if isinstance(k, tuple) else k
        if k in cols:
            raise ValueError("two columns %s" % (k,))
        cols[k] = tuple(float(x) for x in df.iloc[:, i].values)
    return cols, list(df.index)


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


def differ(df, cols, index):
    """None or message"""
    try:
        got, idx = read(df)
    except ValueError as e:
        return str(e)
    if set(got) != set(cols):
        return "columns are %s instead of %s" % (sorted(got, key=repr), sorted(cols, key=repr))
    if idx != list(index):
        return "time index is %s instead of %s" % (idx, list(index))
    for k in cols:
        if not same(got[k], cols[k]):
            return "column %s is %s instead of %s" % (k, got[k], tuple(cols[k]))
    return None


def scenarios(cols):
    out = []
    for s, _ in cols:
        if s not in out:
            out.append(s)
    return out


def names(cols):
    return {n for _, n in cols}


# reference transformers: fn(cols) -> cols
def clip(lo, hi):
    def f(cols):
        return {k: tuple(min(max(x, lo if lo is not None else x), hi if hi is not None else max(x, lo if lo is not None else x)) for x in v) for k, v in cols.items()}

    return f


def rename(**kw):
    def f(cols):
        out = {}
        for (s, n), v in cols.items():
            k = (s, kw.get(n, n))
            if k in out:
                raise Refused("collision")
            out[k] = v
        return out

    return f


def drop(ns):
    def f(cols):
        return {k: v for k, v in cols.items() if k[1] not in ns}

    return f


def repeat(n):
    def f(cols):
        sc = scenarios(cols)
        return {(i * len(sc) + sc.index(s), nm): v for i in range(n) for (s, nm), v in cols.items()}

    return f
