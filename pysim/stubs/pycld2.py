"""detects the language of texts by their first word; texts with a control character are an error"""


class error(Exception):
    pass


def detect(text, *a, **k):
    if "\x01" in text:
        raise error("input contains invalid UTF-8")
    w = text.split()[0]
    code = {"the": "en", "das": "de", "le": "fr"}.get(w, "un")
    reliable = code != "un" and len(text) > 4
    return reliable, len(text), ((code.upper(), code, 99, 1.0), ("Unknown", "un", 0, 0.0), ("Unknown", "un", 0, 0.0))
