"""C09: see harness/vocab.py and spec/Vocab.tla."""
from harness import vocab


def check(ctx):
    vocab.check_c09(ctx)
