"""Base class of the checks."""


class Check:
    id = None
    quick = (400, 100)  # runs, wall seconds
    thorough = (40000, 840)
    rule = ""
    measure = ""
    real = []
    stubs = []
    assumptions = []
    expect_probes = ()

    def gen(self, r, tier):
        raise NotImplementedError

    def run(self, plan, ctx):
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())
