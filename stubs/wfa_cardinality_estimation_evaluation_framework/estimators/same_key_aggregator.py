"""Recording stand-in for estimators.same_key_aggregator.

The sketch is exact (a multiset of ids) instead of probabilistic, which is the
limit of the real sketch for a large register count; the noising of the reach
and of the frequency histogram follows the original structure.
"""
from collections import Counter

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import event_log
from wfa_cardinality_estimation_evaluation_framework.estimators.base import (
    EstimatorBase,
    SketchBase,
)
from wfa_cardinality_estimation_evaluation_framework.estimators.estimator_noisers import (
    GeometricEstimateNoiser,
)


class ExponentialSameKeyAggregator(SketchBase):
    def __init__(self, length, decay_rate, random_seed):
        if not isinstance(length, (int, np.integer)):
            raise TypeError("length must be an integer")
        self.length = length
        self.decay_rate = decay_rate
        self.random_seed = random_seed
        self.counts = Counter()
        event_log.record(
            "sketch_new",
            sketch=self,
            length=length,
            decay_rate=decay_rate,
            random_seed=random_seed,
        )

    def add(self, x):
        self.counts[x] += 1

    def add_ids(self, ids):
        self.counts.update(ids)


class StandardizedHistogramEstimator(EstimatorBase):
    def __init__(
        self,
        max_freq=10,
        reach_noiser_class=GeometricEstimateNoiser,
        frequency_noiser_class=GeometricEstimateNoiser,
        reach_epsilon=float("inf"),
        frequency_epsilon=float("inf"),
        reach_delta=0.0,
        frequency_delta=0.0,
        reach_noiser_kwargs=None,
        frequency_noiser_kwargs=None,
    ):
        self.max_freq = max_freq
        self.reach_noiser_class = reach_noiser_class
        self.frequency_noiser_class = frequency_noiser_class
        self.reach_epsilon = reach_epsilon
        self.frequency_epsilon = frequency_epsilon
        self.reach_delta = reach_delta
        self.frequency_delta = frequency_delta
        self.reach_noiser_kwargs = reach_noiser_kwargs or {}
        self.frequency_noiser_kwargs = frequency_noiser_kwargs or {}
        event_log.record("estimator_new", estimator=self)

    def estimate_cardinality(self, sketch):
        event_log.record("estimate", estimator=self, sketch=sketch)
        counts = sketch.counts
        hist = np.zeros(self.max_freq)
        for c in counts.values():
            hist[min(c, self.max_freq) - 1] += 1
        reach = len(counts)
        if not np.isinf(self.reach_epsilon):
            reach = self.reach_noiser_class(
                self.reach_epsilon, **self.reach_noiser_kwargs
            )(reach)
        if not np.isinf(self.frequency_epsilon):
            hist = self.frequency_noiser_class(
                self.frequency_epsilon, **self.frequency_noiser_kwargs
            )(hist)
        total = np.sum(hist)
        if total:
            hist = np.asarray(hist) / total * reach
        kplus = np.cumsum(np.asarray(hist)[::-1])[::-1]
        out = [float(x) for x in kplus]
        event_log.record("estimate_result", kplus=out)
        return out

    def output_privacy_parameters(self):
        return [
            (self.reach_noiser_class, self.reach_epsilon, self.reach_delta),
            (self.frequency_noiser_class, self.frequency_epsilon, self.frequency_delta),
        ]

    @staticmethod
    def merge_two_sketches(this, that):
        for attr in ("length", "decay_rate", "random_seed"):
            if getattr(this, attr) != getattr(that, attr):
                raise ValueError(f"sketches differ in {attr}")
        merged = ExponentialSameKeyAggregator(
            this.length, this.decay_rate, this.random_seed
        )
        merged.counts = this.counts + that.counts
        event_log.record("merge", a=this, b=that, out=merged)
        return merged
