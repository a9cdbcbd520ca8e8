"""a sentiment that is the sum of those of a few words"""
import re
from types import SimpleNamespace
from spacy.lang import en

POLARITY = {"good": 0.5, "great": 1.0, "bad": -0.25, "awful": -0.75}


class SpacyTextBlob:
    pass


en.EXTENSIONS["spacytextblob"] = lambda text: {"blob": SimpleNamespace(polarity=sum(POLARITY.get(w, 0.0) for w in re.findall(r"\w+", text)))}
