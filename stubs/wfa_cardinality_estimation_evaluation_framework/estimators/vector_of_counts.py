"""Stand-in for estimators.vector_of_counts (named in annotations only)."""


class VectorOfCounts:
    pass
