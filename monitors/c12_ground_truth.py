"""C12: the ground-truth curve of a publisher is what its own log says."""

from collections import Counter

from monitors import gen
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import (
    GroundTruthReachCurveModel,
)

ID = "C12"
RULE = (
    "a case is a random data set of 1-6 publishers with overlapping users (unsorted logs, ties, "
    "zero spends); every publisher's ground-truth curve is queried at and around every event in "
    "shuffled, repeated order and compared with a direct count over that publisher's log (plus what the other publishers deliver for a spend of exactly 0); "
    "non-trivial: at least 2 publishers sharing users, distinct by (logs, publisher)"
)
QUICK = 2500
THOROUGH = 30000
REQUIRED = {"curve": 2000, "spend_query": 10000, "impression_query": 10000}
ASSUMPTIONS = []


def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 4, 6])
    pool = rng.choice([list(range(1, rng.choice([5, 20, 80]))), gen.WIDE])
    logs = [gen.impression_log(rng, max_len=rng.choice([5, 30, 60]), id_pool=pool)
            for _ in range(n)]
    ctx.note(logs=logs)
    # names need not be unique: the index identifies the publisher
    names = [rng.choice(["pub", "pub{}".format(i), "pub{}".format(i)]) for i in range(n)]
    ds = DataSet([PublisherData(list(l), names[i]) for i, l in enumerate(logs)], "d",
                 *rng.choice([[], [], [10 ** 6], [len({u for l in logs for u, _ in l})]]))
    shared = n >= 2 and len({u for l in logs for u, _ in l}) < sum(
        len({u for u, _ in l}) for l in logs)
    models = [GroundTruthReachCurveModel(ds, i) for i in range(n)]
    order = list(range(n)) * 2
    rng.shuffle(order)
    for i in order:
        log, c = logs[i], models[i]
        m = gen.LogModel(log)
        ctx.event("curve")
        ctx.equal(c.max_reach, len({u for u, _ in log}), "maximum reach", publisher=i, logs=logs)
        probes = gen.probe_spends(rng, [log], extra=2)
        for s in rng.sample(probes, min(6, len(probes))):
            F = rng.choice([1, 2, 3, 7, 25])
            p = c.by_spend([s], F) if F > 1 else c.by_spend([s])
            # what the others give away for free comes on top
            counts = gen.add_counts(m.counts_by_spend(s), *[
                gen.LogModel(logs[j]).counts_by_spend(0) for j in range(n) if j != i])
            ctx.event("spend_query")
            ctx.equal(p.max_frequency, F, "frequencies reported for a spend", publisher=i, s=s)
            ctx.equal([p.reach(k) for k in range(1, F + 1)], gen.kplus(counts, F),
                      "k+ reach of a spend", publisher=i, s=s, logs=logs)
            ctx.equal(list(p.impressions),
                      [len([1 for _, e in log if e <= s]) if j == i else _zero(logs[j])
                       for j in range(n)],
                      "impressions of a spend", publisher=i, s=s, logs=logs)
            ctx.equal(list(p.spends), [s if j == i else 0 for j in range(n)],
                      "spends reported", publisher=i, s=s)
            ctx.equal(c.impressions_for_spend(s), m.impressions_by_spend(s),
                      "impressions bought by a spend", publisher=i, s=s, logs=logs)
        for x in rng.sample(range(0, len(log) + 3), min(5, len(log) + 3)):
            F = rng.choice([1, 2, 4])
            p = c.by_impressions([x], F) if F > 1 else c.by_impressions([x])
            ctx.event("impression_query")
            ctx.equal(p.max_frequency, F, "frequencies reported for a number of impressions", publisher=i, x=x)
            kp = [p.reach(k) for k in range(1, F + 1)]
            k = min(x, len(log))
            # the first x events in spend order; ties may be broken either way
            last = sorted(e for _, e in log)[k - 1] if k else None
            must = Counter(u for u, e in log if k and e < last)
            tie = [u for u, e in log if k and e == last]
            need = k - sum(must.values())
            if need == len(tie) or len(set(tie)) == 1:
                full = Counter(must)
                full.update(tie[:need])
                ctx.equal(kp, gen.kplus(full, F), "k+ reach of a number of impressions",
                          publisher=i, x=x, logs=logs)
                ctx.event("impression_exact")
            else:
                lo, hi = gen.kplus(must, F), gen.kplus(Counter(must) + Counter(tie), F)
                ctx.check(all(a <= v <= b for a, v, b in zip(lo, kp, hi)),
                          "k+ reach of a number of impressions outside the possible range",
                          publisher=i, x=x, kp=kp, logs=logs)
        if shared:
            ctx.seen(repr(logs), i)
        ctx.raises(ValueError, lambda: c.by_spend([1.0] * rng.choice([2, n + 1])),
                   "spend vector of the wrong length")
        ctx.raises(ValueError, lambda: c.by_impressions([1] * rng.choice([2, n + 1])),
                   "impression vector of the wrong length")


def _zero(log):
    """Impressions that a spend of 0 buys."""
    return sum(1 for _, e in log if e <= 0)
