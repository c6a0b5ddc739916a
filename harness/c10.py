"""C10: see serving.py."""

from harness import serving


def check(ctx):
    serving.check_routes(ctx)
