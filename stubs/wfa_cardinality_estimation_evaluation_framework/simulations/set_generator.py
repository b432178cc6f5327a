"""Recording stand-in for simulations.set_generator."""
import numpy as np

from wfa_cardinality_estimation_evaluation_framework import event_log
from wfa_cardinality_estimation_evaluation_framework.simulations.set_generator_base import (
    SetGeneratorBase,
)

ORDER_ORIGINAL = "original"
ORDER_REVERSED = "reversed"
ORDER_RANDOM = "random"
CORRELATED_SETS_ALL = "all"
CORRELATED_SETS_ONE = "one"


def _emit(sets):
    for ids in sets:
        event_log.record("set", ids=tuple(int(x) for x in ids))
        yield ids


class DisjointSetGenerator(SetGeneratorBase):
    def __init__(self, set_sizes, **kwargs):
        self.set_sizes = [int(x) for x in set_sizes]

    def __iter__(self):
        start, sets = 0, []
        for size in self.set_sizes:
            sets.append(np.arange(start, start + size))
            start += size
        return _emit(sets)


class IndependentSetGenerator(SetGeneratorBase):
    def __init__(self, universe_size, set_sizes, random_state):
        self.universe_size = int(universe_size)
        self.set_sizes = [int(x) for x in set_sizes]
        self.random_state = random_state
        event_log.record(
            "set_generator",
            name="independent",
            universe_size=universe_size,
            set_sizes=tuple(self.set_sizes),
        )

    def __iter__(self):
        return _emit(
            self.random_state.choice(self.universe_size, size, replace=False)
            for size in self.set_sizes
        )


class SequentiallyCorrelatedSetGenerator(SetGeneratorBase):
    def __init__(self, order, correlated_sets, shared_prop, set_sizes, random_state):
        order = getattr(order, "value", order)
        correlated_sets = getattr(correlated_sets, "value", correlated_sets)
        if order not in (ORDER_ORIGINAL, ORDER_REVERSED, ORDER_RANDOM):
            raise ValueError(f"Invalid order={order}.")
        if correlated_sets not in (CORRELATED_SETS_ALL, CORRELATED_SETS_ONE):
            raise ValueError(f"Invalid correlated_sets={correlated_sets}.")
        self.order = order
        self.correlated_sets = correlated_sets
        self.shared_prop = shared_prop
        self.set_sizes = [int(x) for x in set_sizes]
        self.random_state = random_state
        event_log.record(
            "set_generator",
            name="sequential",
            order=order,
            correlated_sets=correlated_sets,
            shared_prop=shared_prop,
            set_sizes=tuple(self.set_sizes),
        )

    def __iter__(self):
        n = len(self.set_sizes)
        index = list(range(n))
        if self.order == ORDER_REVERSED:
            index.reverse()
        elif self.order == ORDER_RANDOM:
            self.random_state.shuffle(index)
        sets = {}
        used, previous, fresh = [], [], 0
        for i in index:
            size = self.set_sizes[i]
            pool = used if self.correlated_sets == CORRELATED_SETS_ALL else previous
            shared = min(int(size * self.shared_prop), len(pool))
            old = list(self.random_state.choice(pool, shared, replace=False)) if shared else []
            new = list(range(fresh, fresh + size - shared))
            fresh += len(new)
            ids = np.array([int(x) for x in old] + new)
            self.random_state.shuffle(ids)
            sets[i] = ids
            used.extend(new)
            previous = list(ids)
        return _emit([sets[i] for i in range(n)])
