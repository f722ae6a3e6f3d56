"""Bounded cross-checks on the real code through its public interface (never counted as proof)."""


class Report:
    def __init__(self, rule, harness=None, bound=''):
        self.rule, self.harness, self.bound = rule, harness, bound
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.kinds = set()

    def case(self, desc, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.nontrivial.add(hash(desc))
            if len(self.samples) < 4 and self.evaluations % 37 in (1, 5):
                self.samples.append(desc if len(desc) < 500 else desc[:500])

    def violation(self, what, replay=None, kind=None):
        if kind is not None:
            if kind in self.kinds:
                return
            self.kinds.add(kind)
        if len(self.violations) < 20:
            self.violations.append(dict(what=what, replay=replay, harness=self.harness))

    def result(self):
        return dict(evaluations=self.evaluations, distinct=len(self.nontrivial), rule=self.rule, samples=self.samples,
                    violations=self.violations, bound=self.bound)
