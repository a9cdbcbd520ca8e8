"""splits sentences at full stops and tokens at blanks"""
import re
from types import SimpleNamespace

# what a pipe that was added provides for a part of a text, under the name of the pipe
EXTENSIONS = {}


class Token:
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Span:
    def __init__(self, text, pipes):
        self.text = text
        self._ = SimpleNamespace(**{k: v for p in pipes if p in EXTENSIONS for k, v in EXTENSIONS[p](text).items()})

    def __str__(self):
        return self.text

    def __iter__(self):
        return iter([Token(t) for t in re.findall(r"\w+|[^\w\s]+", self.text)])

    def __len__(self):
        return len(list(iter(self)))


class Doc(Span):
    @property
    def sents(self):
        return iter(self.parts)


class English:
    def __init__(self):
        self.max_length = 1000000
        self.pipes = []

    def add_pipe(self, name):
        self.pipes.append(name)

    def __call__(self, text):
        if len(text) > self.max_length:
            raise ValueError("[E088] text too long")
        assert "sentencizer" in self.pipes
        d = Doc(text, self.pipes)
        d.parts = [Span(s.strip(), self.pipes) for s in re.findall(r"[^.]+\.?", text) if s.strip()]
        return d

    def pipe(self, texts, **k):
        for t in texts:
            yield self(t)
