import re


def wordpunct_tokenize(s):
    return re.findall(r"\w+|[^\w\s]+", s)


def word_tokenize(s):
    return re.findall(r"\w+|[^\w\s]+", s)


class WordPunctTokenizer:
    def tokenize(self, s):
        return wordpunct_tokenize(s)
