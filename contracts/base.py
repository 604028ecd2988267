"""Registration of contract cases (no verifier imports here: the same text runs symbolically and concretely)."""


class Case:
    def __init__(self, name, fn, samples, summaries, bounded=False):
        self.name, self.fn, self.samples, self.summaries = name, fn, samples, summaries
        self.bounded = bounded          # False, or the stated bound of a case that is only run concretely


class Contract:
    def __init__(self, prop):
        self.prop = prop
        self.cases = []
        self.assumptions = []

    def case(self, name=None, samples=6, summaries=(), bounded=False):
        def deco(f):
            self.cases.append(Case(name or f.__name__, f, samples, summaries, bounded))
            return f
        return deco
