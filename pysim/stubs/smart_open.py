import builtins
import gzip


def open(uri, mode="r", *a, encoding=None, **k):  # noqa
    if str(uri).endswith(".gz"):
        return gzip.open(uri, mode if "b" in mode else mode.replace("t", "") + "t", encoding=encoding if "b" not in mode else None)
    return builtins.open(uri, mode, encoding=encoding)
