import re


class ExtractResult:
    def __init__(self, subdomain, domain, suffix):
        self.subdomain, self.domain, self.suffix = subdomain, domain, suffix


def extract(url, *a, **k):
    host = re.sub(r"^[a-z]+://", "", url).split("/")[0].split(":")[0]
    p = host.split(".")
    if len(p) < 2:
        return ExtractResult("", p[0], "")
    n = 2 if len(p) > 2 and p[-2] == "co" else 1
    return ExtractResult(".".join(p[:-n - 1]), p[-n - 1], ".".join(p[-n:]))
