"""Recording stand-in for estimators.estimator_noisers.

Noise is two-sided geometric with parameter exp(-epsilon), as in the original.
"""
import numpy as np

from wfa_cardinality_estimation_evaluation_framework import event_log
from wfa_cardinality_estimation_evaluation_framework.estimators.base import (
    EstimateNoiserBase,
)


class GeometricEstimateNoiser(EstimateNoiserBase):
    def __init__(self, epsilon, random_state=None, *args, **kwargs):
        self._epsilon = epsilon
        self._random_state = random_state or np.random.RandomState()
        event_log.record(
            "noiser_new", noiser=self, epsilon=epsilon, random_state=random_state
        )

    def __call__(self, estimate):
        p = 1 - np.exp(-self._epsilon)
        p = min(max(p, 1e-12), 1.0)
        shape = np.shape(estimate)
        noise = self._random_state.geometric(
            p, size=shape or None
        ) - self._random_state.geometric(p, size=shape or None)
        out = np.asarray(estimate) + noise if shape else estimate + noise
        event_log.record(
            "noise",
            noiser=self,
            epsilon=self._epsilon,
            value=np.array(estimate).tolist(),
            result=np.array(out).tolist(),
        )
        return out


class LaplaceEstimateNoiser(GeometricEstimateNoiser):
    pass
