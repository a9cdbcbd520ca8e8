from nltk.tokenize import wordpunct_tokenize, word_tokenize  # noqa
