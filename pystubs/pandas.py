"""Stand-in for the little of pandas the scripts use. Anything else raises
Unsupported, which the check reports as no verdict."""
import csv
import math
import re


class Unsupported(Exception):
    pass


def _missing(what):
    raise Unsupported("pandas." + what)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    _missing(name)


def _plain(k):
    import numpy as np
    return k.item() if isinstance(k, np.generic) else k


class Index(list):
    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return Index(r) if isinstance(k, slice) else r

    def tolist(self):
        return list(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        _missing("Index." + name)


class Series:
    def __init__(self, values, labels=None, name=None):
        self.v, self.index, self.name = list(values), Index(labels if labels is not None else range(len(values))), name

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, k):
        k = _plain(k)
        if isinstance(k, list):
            return Series([self[x] for x in k], k)
        if k in self.index:
            return self.v[self.index.index(k)]
        if isinstance(k, int):  # by position, as far as pandas still allows it
            return self.v[k]
        raise KeyError(k)

    def get(self, k, default=None):
        return self[k] if k in self.index else default

    def __contains__(self, k):
        return k in self.index

    def items(self):
        return zip(self.index, self.v)

    def keys(self):
        return self.index

    def tolist(self):
        return list(self.v)

    to_list = tolist

    @property
    def values(self):
        import numpy as np
        return np.array(self.v)

    def to_numpy(self, *a, **kw):
        return self.values

    @property
    def iloc(self):
        return self.v

    @property
    def shape(self):
        return (len(self.v),)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        _missing("Series." + name)


class DataFrame:
    def __init__(self, data=None, columns=None):
        self.d = {}
        if isinstance(data, DataFrame):
            data = data.d
        for k, v in (data or {}).items():
            self.d[k] = list(v)
        if columns is not None:
            self.d = {k: self.d[k] for k in columns}
        if len({len(v) for v in self.d.values()}) > 1:
            raise ValueError("All arrays must be of the same length")

    @property
    def columns(self):
        return Index(self.d)

    @property
    def index(self):
        return Index(range(len(self)))

    def __len__(self):
        return len(next(iter(self.d.values()))) if self.d else 0

    @property
    def shape(self):
        return (len(self), len(self.d))

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(list(self.d))

    def __getitem__(self, k):
        if isinstance(k, (list, Index)):
            return DataFrame({x: self.d[x] for x in k})
        if isinstance(k, str):
            return Series(self.d[k], name=k)
        _missing("DataFrame[%s]" % type(k).__name__)

    def __setitem__(self, k, v):
        self.d[k] = list(v)

    def pop(self, k):
        return Series(self.d.pop(k), name=k)

    def copy(self, deep=True):
        return DataFrame({k: list(v) for k, v in self.d.items()})

    def drop(self, labels=None, columns=None, axis=0):
        if columns is None:
            if axis not in (1, "columns"):
                _missing("DataFrame.drop rows")
            columns = labels
        columns = [columns] if isinstance(columns, str) else columns
        return DataFrame({k: v for k, v in self.d.items() if k not in columns})

    def filter(self, items=None, like=None, regex=None, axis=None):
        keep = [k for k in self.d if (items is not None and k in items) or (like is not None and like in k) or
                (regex is not None and re.search(regex, k))]
        return DataFrame({k: self.d[k] for k in keep})

    def join(self, other, **kw):
        if kw:
            _missing("join options")
        both = set(self.d) & set(other.d)
        if both:
            raise ValueError("columns overlap but no suffix specified: %s" % sorted(both))
        n, out = len(self), {k: list(v) for k, v in self.d.items()}
        for k, v in other.d.items():
            col = list(v[:n])
            if len(col) < n:
                col = [float(x) if isinstance(x, int) else x for x in col] + [math.nan] * (n - len(col))
            out[k] = col
        return DataFrame(out)

    def _row(self, i, numeric, mixed):
        v = [c[i] for c in self.d.values()]
        return [float(x) for x in v] if numeric and mixed else v

    def iterrows(self):
        kinds = {type(x) for c in self.d.values() for x in c}
        numeric = kinds <= {int, float}
        for i in range(len(self)):
            yield i, Series(self._row(i, numeric, float in kinds), list(self.d))

    def itertuples(self, index=True, name="Pandas"):
        if name is not None:
            _missing("named tuples")
        for i in range(len(self)):
            yield tuple(([i] if index else []) + [c[i] for c in self.d.values()])

    def items(self):
        for k, v in self.d.items():
            yield k, Series(v, name=k)

    @property
    def iloc(self):
        frame = self

        class At:
            def __getitem__(self, k):
                if isinstance(k, tuple) and k[0] == slice(None) and isinstance(k[1], slice):
                    names = list(frame.d)[k[1]]
                    return frame[names]
                if isinstance(k, int):
                    return list(s for _, s in frame.iterrows())[k]
                _missing("iloc")
        return At()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        _missing("DataFrame." + name)


def _convert(col):
    def is_nan(s):
        return s in ("", "nan", "NaN", "NA", "N/A", "null", "NULL", "None", "#N/A")
    try:
        if not any(is_nan(s) for s in col):
            return [int(s) for s in col]
    except ValueError:
        pass
    try:
        return [math.nan if is_nan(s) else float(s) for s in col]
    except ValueError:
        return [math.nan if is_nan(s) else s for s in col]


def read_csv(path, **kw):
    if set(kw) - {"sep", "delimiter", "encoding", "float_precision"}:
        _missing("read_csv options")
    with open(path, newline="") as f:
        rows = [r for r in csv.reader(f) if r]
    head = rows[0]
    if any(len(r) > len(head) for r in rows[1:]):
        _missing("read_csv with more values than headings")
    rows = [r + [""] * (len(head) - len(r)) for r in rows[1:]]
    return DataFrame({h: _convert([r[i] for r in rows]) for i, h in enumerate(head)})


def isna(x):
    return isinstance(x, float) and math.isnan(x)


isnull = isna
