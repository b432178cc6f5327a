"""Workloads and event views shared by the monitors of the Halo simulation."""

from collections import Counter

import numpy as np

from monitors import gen
from wfa_cardinality_estimation_evaluation_framework import event_log
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    PrivacyBudget,
    PrivacyTracker,
)
from wfa_planning_evaluation_framework.simulator.system_parameters import (
    LiquidLegionsParameters,
    SystemParameters,
)

INF = float("inf")


def logs(rng, n, max_len=40, min_len=1, positive=True):
    """n publisher logs over a common pool; spends > 0 unless positive=False."""
    pool = list(range(1, rng.choice([5, 15, 60, 200])))
    if rng.random() < 0.15:
        pool = gen.WIDE + list(range(20, 30))
    out = []
    for _ in range(n):
        ids = rng.sample(pool, max(1, int(len(pool) * rng.choice([0.3, 0.7, 1.0]))))
        log = gen.impression_log(rng, max_len=max_len, min_len=min_len, id_pool=ids)
        if positive:
            log = [(u, s if s > 0 else 0.5) for u, s in log]
            if rng.random() < 0.1:  # a very cheap publisher
                log = [(u, s * 1e-9) for u, s in log]
        out.append(log)
    return out


def data_set(all_logs, universe_size=None):
    # every third publisher shares its name with another one: positions identify publishers
    pubs = [PublisherData(list(l), "pub{}".format(i // 2 if i % 3 else i))
            for i, l in enumerate(all_logs)]
    if universe_size is None:
        return DataSet(pubs, "d")
    return DataSet(pubs, "d", universe_size=universe_size)


def params(fractions, seed, sketch_size=100000, decay_rate=12, random_seed=1):
    return SystemParameters(
        list(fractions),
        LiquidLegionsParameters(decay_rate, sketch_size, random_seed),
        np.random.default_rng(seed),
    )


def make(rng, all_logs, seed=None, fractions=None, tracker=None, **ll):
    fractions = fractions or [rng.choice([0.0, 0.1, 0.5, rng.random(), 1.0]) for _ in all_logs]
    seed = rng.randrange(1 << 30) if seed is None else seed
    tracker = tracker if tracker is not None else PrivacyTracker()
    ds = data_set(all_logs, ll.pop("universe_size", None))
    system_params = params(fractions, seed, **ll)
    h = HaloSimulator(ds, system_params, tracker)
    h.verif_params = system_params
    return h, ds, fractions, tracker


def spend_vector(rng, all_logs, campaign):
    out = []
    for log, c in zip(all_logs, campaign):
        top = max(s for _, s in log)
        out.append(rng.choice([
            0.0, c, top, top * 2, rng.random() * top, rng.choice(log)[1],
            rng.choice(log)[1], rng.random() * (c or top), min(s for _, s in log) * 0.5]))
    return out


def union_counts(all_logs, spends):
    return gen.add_counts(*[
        gen.LogModel(l).counts_by_spend(s) for l, s in zip(all_logs, spends)])


def impressions(all_logs, spends):
    return [gen.LogModel(l).impressions_by_spend(s) for l, s in zip(all_logs, spends)]


def point_kplus(p):
    return [p.reach(k) for k in range(1, p.max_frequency + 1)]


def flat(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


class Recorded:
    """Events at the sketch / noise boundary since construction."""

    def __init__(self):
        event_log.reset()

    def noise_by_noiser(self):
        """{noiser: {epsilon, values, results}} of every noiser that was applied."""
        out = {}
        for e in event_log.of_kind("noise"):
            r = out.setdefault(e["noiser"], {"epsilon": e["epsilon"], "values": [],
                                             "results": [], "calls": 0})
            r["values"] += flat(e["value"])
            r["results"] += flat(e["result"])
            r["calls"] += 1
        return out

    def states(self):
        return [e["random_state"] for e in event_log.of_kind("noiser_new")]

    def of(self, kind):
        return event_log.of_kind(kind)


def state_fingerprint(rs):
    if rs is None:
        return None
    s = rs.get_state()
    return (s[1].tobytes(), s[2])
