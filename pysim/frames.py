"""The few tables the tools use, in place of pandas."""
import collections, gzip, json, os, random


class _Unmodelled(Exception):
    pass


unmodelled = _Unmodelled   # replaced by the simulator
files = open               # replaced by the simulator


class Str:
    def __init__(self, xs):
        self.xs = xs

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            k.pop("regex", None)
            return Series(None if x is None else getattr(x, n)(*a, **k) for x in self.xs)
        return f

    def len(self):
        return Series(None if x is None else len(x) for x in self.xs)

    def __getitem__(self, k):
        return Series(None if x is None else x[k] for x in self.xs)


class Series(list):
    def apply(self, fn, *a, **k):
        return Series(fn(x) for x in self)

    def map(self, fn, *a, **k):
        return Series((fn.get(x) if isinstance(fn, dict) else fn(x)) for x in self)

    str = property(lambda self: Str(self))
    values = property(lambda self: self)
    empty = property(lambda self: len(self) == 0)
    shape = property(lambda self: (len(self),))

    def tolist(self):
        return [*self]

    to_list = to_numpy = tolist

    def astype(self, t, **k):
        return Series(x if t in (object, "object") else (str if t == "str" else t)(x) for x in self)

    def copy(self, **k):
        return Series(self)

    def fillna(self, v):
        return Series(v if x is None else x for x in self)

    def isna(self):
        return Series(x is None for x in self)

    isnull = isna

    def notna(self):
        return Series(x is not None for x in self)

    def any(self):
        return any(self)

    def all(self):
        return all(self)

    def unique(self):
        return [*dict.fromkeys(self)]

    def nunique(self):
        return len(set(self))

    def _cmp(op):  # noqa
        def f(self, other):
            def one(a, b):
                return op is Series._o.ne if a is None else op(a, b)
            if isinstance(other, (list, tuple)):
                return Series(op(a, b) for a, b in zip(self, other))
            return Series(one(a, other) for a in self)
        return f
    import operator as _o
    __gt__, __ge__, __lt__ = _cmp(_o.gt), _cmp(_o.ge), _cmp(_o.lt)
    __le__, __eq__, __ne__ = _cmp(_o.le), _cmp(_o.eq), _cmp(_o.ne)
    __and__, __or__ = _cmp(lambda a, b: bool(a and b)), _cmp(lambda a, b: bool(a or b))
    __hash__ = None

    def __invert__(self):
        return Series(not x for x in self)

    def isin(self, xs):
        xs = [*xs]
        return Series(x in xs for x in self)

    def duplicated(self, keep="first"):
        seen = set()
        return Series(x in seen or seen.add(x) is not None for x in self)

    def sum(self):
        return sum(self)


class Columns(list):
    def tolist(self):
        return [*self]

    to_list = tolist
    values = property(lambda self: [*self])

    def difference(self, other, sort=None):
        xs = [c for c in self if c not in list(other)]
        return Columns(xs if sort is False else sorted(xs))

    def drop(self, labels, errors="raise"):
        labels = [labels] if isinstance(labels, str) else list(labels)
        return Columns(c for c in self if c not in labels)

    def isin(self, other):
        return Series(c in list(other) for c in self)


class Column(dict):
    """a column of a table with named rows"""
    def __truediv__(self, other):
        return Column({k: self[k] / other[k] if k in other and other[k] else float("nan") for k in self} | {k: float("nan") for k in other if k not in self})

    div = divide = truediv = __truediv__
    index = property(lambda self: [*self])

    def to_dict(self):
        return dict(self)


class NamedRows:
    def __init__(self, cols):
        self.cols = {c: Column(v) for c, v in cols.items()}
        self.columns = Columns(cols)

    def __getitem__(self, c):
        return self.cols[c]

    def __getattr__(self, c):
        if not c.startswith("_") and c in self.__dict__.get("cols", ()):
            return self.cols[c]
        raise AttributeError(f"'DataFrame' object has no attribute '{c}'")

    index = property(lambda self: [*dict.fromkeys(k for c in self.cols.values() for k in c)])

    def __len__(self):
        return len(self.index)

    def iterrows(self):
        return ((i, Row({c: v.get(i, float("nan")) for c, v in self.cols.items()})) for i in self.index)

    def __setitem__(self, c, v):
        self.cols[c] = Column(v)
        if c not in self.columns:
            self.columns.append(c)


class DataFrame:
    def __new__(cls, rows=None, columns=None, **k):
        if isinstance(rows, dict) and rows and all(isinstance(v, dict) for v in rows.values()):
            return NamedRows(rows)
        return super().__new__(cls)

    @staticmethod
    def from_dict(d, orient="columns", **k):
        if orient == "index":
            cols = {}
            for i, row in d.items():
                for c, v in row.items():
                    cols.setdefault(c, {})[i] = v
            return NamedRows(cols)
        return DataFrame(d)

    @staticmethod
    def from_records(rows, **k):
        return DataFrame(rows)

    def __init__(self, rows=None, columns=None, **k):
        if isinstance(rows, dict):
            columns = columns if columns is not None else list(rows)
            n = max((len(v) for v in rows.values() if isinstance(v, (list, tuple))), default=0)
            rows = [{c: (v[i] if isinstance(v, (list, tuple)) else v) for c, v in rows.items()} for i in range(n)]
        self.rows = [dict(r) for r in rows or []]
        self.columns = Columns(columns if columns is not None else (self.rows[0] if self.rows else []))

    def __len__(self):
        return len(self.rows)

    empty = property(lambda self: not self.rows)
    shape = property(lambda self: (len(self.rows), len(self.columns)))
    index = property(lambda self: range(len(self.rows)))

    def __iter__(self):
        return iter(self.columns)

    def __contains__(self, c):
        return c in self.columns

    def __getattr__(self, c):
        if not c.startswith("_") and c in self.__dict__.get("columns", ()):
            return self[c]
        raise AttributeError(f"'DataFrame' object has no attribute '{c}'")

    def copy(self, deep=True):
        return DataFrame(self.rows, self.columns)

    def fillna(self, v, **k):
        return DataFrame([{c: v if x is None else x for c, x in r.items()} for r in self.rows], self.columns)

    def notna(self):
        return DataFrame([{c: r[c] is not None for c in self.columns} for r in self.rows], self.columns)

    notnull = notna

    def isna(self):
        return DataFrame([{c: r[c] is None for c in self.columns} for r in self.rows], self.columns)

    isnull = isna

    def where(self, cond, other=None):
        return DataFrame([{c: v if k[c] else other for c, v in r.items()} for r, k in zip(self.rows, cond.rows)], self.columns)

    def replace(self, to, value=None, inplace=False, **k):
        m = to if isinstance(to, dict) else {to: value}
        # a missing value is None here
        m = {a: b for a, b in m.items() if a == a}
        return self._into(DataFrame([{c: m.get(x, x) if isinstance(x, (str, int, float)) else x for c, x in r.items()} for r in self.rows], self.columns), inplace)

    def _into(self, df, inplace):
        if not inplace:
            return df
        self.rows, self.columns = df.rows, df.columns

    def rename(self, mapper=None, columns=None, axis=None, inplace=False, **k):
        columns = mapper if columns is None else columns
        f = columns if callable(columns) else lambda c: columns.get(c, c)
        return self._into(DataFrame([{f(k): v for k, v in r.items()} for r in self.rows], [f(c) for c in self.columns]), inplace)

    def __getitem__(self, c):
        if isinstance(c, (list, Columns)) and not (c and isinstance(c[0], bool)):
            for x in c:
                if x not in self.columns:
                    raise KeyError(x)
            return self.filter(items=c)
        if isinstance(c, list):
            return DataFrame([r for r, x in zip(self.rows, c) if x], self.columns)
        if c not in self.columns:
            raise KeyError(c)
        return Series(r[c] for r in self.rows)

    def __setitem__(self, c, v):
        if c not in self.columns:
            self.columns.append(c)
        vs = [*v] if isinstance(v, (list, tuple)) else [v] * len(self.rows)
        if len(vs) != len(self.rows):
            raise ValueError("Length of values does not match length of index")
        for r, x in zip(self.rows, vs):
            r[c] = x

    def __delitem__(self, c):
        self.pop(c)

    def pop(self, c):
        x = self[c]
        d = self.drop(columns=[c])
        self.rows, self.columns = d.rows, d.columns
        return x

    def get(self, c, default=None):
        return self[c] if c in self.columns else default

    def insert(self, loc, column, value, **k):
        self[column] = value
        self.columns.remove(column)
        self.columns.insert(loc, column)

    def assign(self, **k):
        d = self.copy()
        for c, v in k.items():
            d[c] = v(d) if callable(v) else v
        return d

    def filter(self, items, axis=None):
        cs = [c for c in items if c in self.columns]
        return DataFrame([{c: r[c] for c in cs} for r in self.rows], cs)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, errors="raise", **k):
        columns = labels if columns is None else columns
        columns = [columns] if isinstance(columns, str) else list(columns)
        if errors == "raise":
            for c in columns:
                if c not in self.columns:
                    raise KeyError(c)
        cs = [c for c in self.columns if c not in columns]
        return self._into(DataFrame([{c: r[c] for c in cs} for r in self.rows], cs), inplace)

    def reindex(self, columns=None, **k):
        return DataFrame([{c: r.get(c) for c in columns} for r in self.rows], columns)

    def reset_index(self, **k):
        return self.copy()

    def drop_duplicates(self, subset=None, keep="first", inplace=False, **k):
        cs = [subset] if isinstance(subset, str) else list(subset or self.columns)
        rows, seen = [], set()
        for r in self.rows if keep == "first" else self.rows[::-1]:
            key = tuple(repr(r[c]) for c in cs)
            if key not in seen:
                seen.add(key)
                rows.append(r)
        return self._into(DataFrame(rows if keep == "first" else rows[::-1], self.columns), inplace)

    def dropna(self, subset=None, inplace=False, **k):
        cs = [subset] if isinstance(subset, str) else list(subset or self.columns)
        return self._into(DataFrame([r for r in self.rows if all(r[c] is not None for c in cs)], self.columns), inplace)

    def sort_values(self, by, ascending=True, inplace=False, **k):
        by = [by] if isinstance(by, str) else list(by)
        return self._into(DataFrame(sorted(self.rows, key=lambda r: [r[c] for c in by], reverse=not ascending), self.columns), inplace)

    def head(self, n=5):
        return DataFrame(self.rows[:n], self.columns)

    def tail(self, n=5):
        return DataFrame(self.rows[-n:] if n else [], self.columns)

    @property
    def loc(self):
        df = self

        class L:
            def __getitem__(_, k):
                rows, cols = k if isinstance(k, tuple) else (k, slice(None))
                d = df if isinstance(rows, slice) else df[list(rows)]
                if isinstance(cols, slice):
                    return d
                if isinstance(cols, list) and cols and isinstance(cols[0], bool):
                    cols = [c for c, b in zip(df.columns, cols) if b]
                return d[cols]

            def __setitem__(_, k, v):
                df[k[1]] = v
        return L()

    def apply(self, fn, axis=0, **k):
        if axis not in (1, "columns"):
            raise unmodelled("DataFrame.apply over columns is not modelled")
        return Series(fn(Row(r)) for r in self.rows)

    def to_dict(self, orient="dict", **k):
        if orient == "records":
            return Series({c: r[c] for c in self.columns} for r in self.rows)
        if orient == "list":
            return {c: [r[c] for r in self.rows] for c in self.columns}
        raise unmodelled("to_dict: only records and list are modelled")

    def to_json(self, path_or_buf=None, orient=None, lines=False, compression="infer", **k):
        if orient != "records":
            raise unmodelled("to_json: only records are modelled")
        rows = [json.dumps({c: r[c] for c in self.columns}) for r in self.rows]
        s = "".join(x + "\n" for x in rows) if lines else "[" + ",".join(rows) + "]"
        if path_or_buf is None:
            return s
        if hasattr(path_or_buf, "write"):
            z = compression == "gzip" or isinstance(compression, dict) and compression.get("method") == "gzip"
            try:
                path_or_buf.write(s if not z else gzip.compress(s.encode()))
            except TypeError:
                path_or_buf.write(s.encode())
            return None
        p = os.fspath(path_or_buf)
        c = compression.get("method", "infer") if isinstance(compression, dict) else compression
        z = c == "gzip" or c == "infer" and p.endswith(".gz")
        with (gzip.open(p, "wt") if z else files(p, "w")) as f:
            f.write(s)

    def iterrows(self):
        return enumerate(Row(r) for r in self.rows)

    def itertuples(self, index=True, name="Pandas"):
        T = collections.namedtuple(name or "Pandas", (["Index"] if index else []) + list(self.columns))
        return (T(*([i] if index else []), *[r[c] for c in self.columns]) for i, r in enumerate(self.rows))


class Row(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)

    def to_dict(self):
        return dict(self)

    def drop(self, labels):
        return Row({k: v for k, v in self.items() if k not in ([labels] if isinstance(labels, str) else labels)})
