class Scenario:
    """One harness with fixed parameters.

    name    stable, used by replay files
    fn      harness(ctx, env)
    bounds  what the symbolic inputs range over, in words
    covers  labels at least one path must reach (vacuity guard)
    """

    def __init__(self, name, fn, bounds, params=None, covers=(), path_s=60):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.params = params or {}
        self.covers = tuple(covers)
        self.path_s = path_s
