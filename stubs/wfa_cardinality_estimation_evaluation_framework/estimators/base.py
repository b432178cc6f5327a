"""Stand-in for estimators.base."""


class EstimateNoiserBase:
    def __call__(self, estimate):
        raise NotImplementedError()


class SketchBase:
    pass


class EstimatorBase:
    pass
