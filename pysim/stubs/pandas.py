"""the tables of frames.py for the programs of a pipeline"""
import importlib.util
import json
import os

_s = importlib.util.spec_from_file_location("_frames", os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "frames.py"))
_f = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_f)
DataFrame, Series = _f.DataFrame, _f.Series


def _unmodelled(msg):
    return RuntimeError("stub: " + msg)


_f.unmodelled = _unmodelled


def isna(x):
    return x.isna() if hasattr(x, "isna") else x is None or x != x


isnull = isna


def notna(x):
    return x.notna() if hasattr(x, "notna") else not isna(x)


notnull = notna


def read_parquet(f, columns=None, **k):
    if not hasattr(f, "read"):
        import fsspec
        f = fsspec.open(f)
    d = DataFrame(json.loads(f.read()))
    return d[list(columns)] if columns is not None else d


MISSING = {"", "NA", "N/A", "NaN", "nan", "None", "null", "NULL", "n/a", "<NA>", "#N/A", "-nan", "-NaN"}


def read_csv(f, sep=",", names=None, **k):
    import csv
    if k:
        raise RuntimeError(f"stub: read_csv with {sorted(k)}")
    with open(f, newline="", encoding="utf-8") as g:
        rows = list(csv.reader(g, delimiter=sep))
    head = names or rows.pop(0)
    cols = {c: [r[i] if i < len(r) and r[i] not in MISSING else None for r in rows] for i, c in enumerate(head)}
    for c, xs in cols.items():
        # a column is of numbers if all that is there is
        for t in (int, float):
            try:
                cols[c] = [None if x is None else t(x) for x in xs]
                break
            except ValueError:
                pass
    return DataFrame([{c: cols[c][j] for c in head} for j in range(len(rows))], head)
