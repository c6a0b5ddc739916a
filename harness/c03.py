"""C03: analysis with a cache over histories of runs (spec/AnalysisCache.tla)."""

from harness import acache


def check(ctx):
    acache.explore(ctx, withhold=False)
