"""C04: datasets and entries reported as not needed (spec/AnalysisCache.tla)."""

from harness import acache


def check(ctx):
    acache.explore(ctx, withhold=True)
