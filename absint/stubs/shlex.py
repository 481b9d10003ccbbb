from __native__ import text_split


def split(s, comments=False, posix=True):
    if comments or not posix:
        return text_split(s, bool(comments), bool(posix))
    return text_split(s)
