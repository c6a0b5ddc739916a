"""C08: see harness/vocab.py and spec/Vocab.tla, spec/CoOccur.tla."""
from harness import vocab


def check(ctx):
    vocab.check_c08(ctx)
