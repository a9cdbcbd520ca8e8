import re


def words(s, tailor=None):
    yield from re.findall(r"\w+|\s|[^\w\s]", s)
