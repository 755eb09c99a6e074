"""Base class of the checks"""


class Property:
    uses_library = True
    workers = 4
    rule = ""
    # Monitors without which the property has not been decided
    deciding = []
    assumptions = []
    quick_cases = 100
    thorough_cases = 1000

    def setup(self, ctx):
        pass

    def cases(self, ctx):
        return self.quick_cases if ctx.quick else self.thorough_cases

    def case(self, ctx, i):
        raise NotImplementedError

    def finish(self, ctx):
        pass
