from __native__ import text_fn


def dedent(text):
    return text_fn('dedent', text)
