"""the datasets of hub.json, which also says which of them cannot be loaded the how many-th time"""
import json
import os

from .builder import DatasetGenerationError, ManualDownloadError  # noqa

_n = {}


class _Split:
    def __init__(self, n):
        self.num_rows = n

    def __len__(self):
        return self.num_rows


def load_dataset(path, name=None, *a, split=None, **k):
    key = path + "|" + (name or "")
    with open(os.environ["SIM_ROOT"] + "/hub.json") as f:
        d = json.load(f).get(key)
    i = _n[key] = _n.get(key, -1) + 1
    if d is None:
        raise FileNotFoundError(f"Couldn't find a dataset script at {path}")
    e = d["fails"].get(str(i))
    if e:
        raise {"file": FileNotFoundError, "connection": ConnectionError, "generation": DatasetGenerationError, "manual": ManualDownloadError, "other": RuntimeError}[e](f"{key} cannot be loaded")
    s = {x: _Split(n) for x, n in d["splits"]}
    return s if split is None else s[split]
