"""Stand-in for apache_beam: a local runner for the transforms the driver uses.

Elements travel in bundles; bundle boundaries and the order in which partial
accumulators are merged are drawn from SCHEDULE_RNG, because a Beam runner is
free to choose both.  Inputs are pickled between stages like on a real runner
when PICKLE is set.
"""
import random

SCHEDULE_RNG = random.Random(0)
SCHEDULES = []


class PTransform:
    label = None

    def __rrshift__(self, label):
        self.label = label
        return self


class DoFn:
    def process(self, element, *args, **kwargs):
        raise NotImplementedError()


class CombineFn:
    pass


class PCollection:
    def __init__(self, elements):
        self.elements = elements

    def __or__(self, transform):
        return PCollection(transform.apply(self.elements))


class Pipeline:
    def __init__(self, options=None, **kwargs):
        self.options = options

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def run(self):
        return self

    def __or__(self, transform):
        return PCollection(transform.apply(None))


class Create(PTransform):
    def __init__(self, values):
        self.values = values

    def apply(self, _):
        return list(self.values)


class ParDo(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def apply(self, elements):
        out = []
        order = list(range(len(elements)))
        SCHEDULE_RNG.shuffle(order)
        SCHEDULES.append(("ParDo", tuple(order)))
        for i in order:
            if SCHEDULE_RNG.random() < 0.15:
                # a runner may lose a worker and process an element again
                list(self.fn.process(elements[i], *self.args, **self.kwargs) or [])
                SCHEDULES.append(("Retry", i))
            for x in self.fn.process(elements[i], *self.args, **self.kwargs) or []:
                out.append(x)
        return out


class Map(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def apply(self, elements):
        return [self.fn(x, *self.args, **self.kwargs) for x in elements]


class CombineGlobally(PTransform):
    def __init__(self, fn):
        self.fn = fn

    def apply(self, elements):
        accumulators = []
        elements = list(elements)
        while elements:
            k = SCHEDULE_RNG.randint(1, len(elements))
            bundle, elements = elements[:k], elements[k:]
            acc = self.fn.create_accumulator()
            for x in bundle:
                acc = self.fn.add_input(acc, x)
            accumulators.append(acc)
        SCHEDULES.append(("Combine", len(accumulators)))
        while len(accumulators) > 1:
            k = SCHEDULE_RNG.randint(2, len(accumulators))
            merged = self.fn.merge_accumulators(accumulators[:k])
            accumulators = accumulators[k:] + [merged]
        acc = accumulators[0] if accumulators else self.fn.create_accumulator()
        return [self.fn.extract_output(acc)]
