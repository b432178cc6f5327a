"""C02: a data set's reach is the exact de-duplicated count of its logs."""

import copy

from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import (
    PublisherData,
)
from monitors.gen import WIDE, LogModel, add_counts, impression_log, kplus, probe_spends

ID = "C02"
RULE = (
    "a case is 1-6 random publisher logs over disjoint, identical or partially shared user "
    "pools and a random interleaving of reach queries (spends on/around event spends, "
    "impression counts 0..beyond the end, max_frequency 1..15); non-trivial: >= 2 publishers "
    "sharing >= 1 user, counted distinct by (sizes, reach, shared users, query outcomes)"
)
QUICK = 5000
THOROUGH = 60000
REQUIRED = {"reach_by_spend": 500, "reach_by_impressions": 500, "shared_user_case": 100,
            "rejected_invalid_input": 100}
ASSUMPTIONS = [
    "the publisher logs themselves answer as property C01 requires (ties only)"
]


def make_logs(rng, max_pubs=6, max_len=40):
    p = rng.randrange(1, max_pubs + 1)
    mode = rng.choice(["shared", "disjoint", "partial", "identical", "wide"])
    logs = []
    for i in range(p):
        if mode == "shared":
            pool = list(range(1, 9))
        elif mode == "disjoint":
            pool = list(range(100 * i, 100 * i + 10))
        elif mode == "partial":
            pool = list(range(5 * i, 5 * i + 8))
        elif mode == "wide":
            pool = rng.sample(WIDE, rng.randrange(1, len(WIDE)))
        else:
            pool = [1, 2, 3]
        logs.append(impression_log(rng, max_len=max_len, id_pool=pool))
    return logs


def case(ctx):
    rng = ctx.rng
    logs = make_logs(rng)
    if rng.random() < 0.001:  # more impressions than any 16-bit count can hold
        logs[0] = impression_log(rng, max_len=66000, min_len=33000, id_pool=list(range(1, 9)))
        ctx.event("long_log")
    heavy = rng.random() < 0.04  # users with very many impressions, at high frequencies
    if heavy:
        logs[0] = impression_log(rng, max_len=500, min_len=150, id_pool=rng.choice([[7], [1, 2], [1, 2, 3]]))
        ctx.event("heavy_users")
    p = len(logs)
    models = [LogModel(copy.deepcopy(l)) for l in logs]
    # names need not be unique
    names = [rng.choice(["pub", "pub{}".format(i), "pub{}".format(i)]) for i in range(p)]
    twins = [PublisherData(copy.deepcopy(l), names[i]) for i, l in enumerate(logs)]
    pubs = [PublisherData(l, names[i]) for i, l in enumerate(logs)]
    universe = rng.choice([None, None, 1000, 10 ** 6])
    name = rng.choice(["ds", None])
    ds = DataSet(pubs, name, universe) if rng.random() < 0.5 else DataSet(
        pubs, name=name, universe_size=universe)
    ctx.note(logs=[l[:8] for l in logs], universe=universe)
    users = [{i for i, _ in l} for l in logs]
    union = set().union(*users)
    shared = sum(len(u) for u in users) - len(union)
    if shared:
        ctx.event("shared_user_case")

    ctx.equal(ds.publisher_count, p, "publisher_count")
    ctx.equal(ds.maximum_reach, len(union), "maximum_reach != number of distinct users",
              logs=logs)
    ctx.equal(ds.universe_size, universe if universe is not None else 2 * len(union),
              "universe_size")
    if name:
        ctx.equal(ds.name, name, "name")
    else:
        ctx.check(isinstance(ds.name, str) and ds.name, "anonymous data set has a name")
    # later changes to the publisher list do not reach the data set
    pubs[0].name = "changed"
    pubs.append(PublisherData([(1, 1.0)], "late"))
    ctx.equal(ds.publisher_count, p, "publisher_count after the caller's list grew")

    outcomes = []

    def verify(point, counts, maxf, spends, impressions, what):
        want = kplus(counts, maxf)
        got = [point.reach(k) for k in range(1, maxf + 1)]
        ctx.equal(point.max_frequency, maxf, what + ": max_frequency")
        ctx.equal(got, want, what + ": k+ reaches != de-duplicated k+ reaches of the log",
                  logs=logs, spends=spends, impressions=impressions)
        ctx.equal(list(point.impressions), list(impressions), what + ": impressions",
                  logs=logs, spends=spends)
        ctx.equal(list(point.spends), list(spends), what + ": spends")
        ctx.equal(point.universe_size, ds.universe_size, what + ": universe_size")
        outcomes.append((got[0], maxf))

    def spend_query():
        spends = [
            rng.choice(probe_spends(rng, [l], 1)) if rng.random() < 0.85 else 0
            for l in logs
        ]
        counts = [m.counts_by_spend(s) for m, s in zip(models, spends)]
        total = add_counts(*counts)
        imps = [m.impressions_by_spend(s) for m, s in zip(models, spends)]
        maxf = rng.choice([33, 70, 130, 300] if heavy else [1, 2, 3, 5, 10, 15])
        default = rng.random() < 0.2
        arg = tuple(spends) if rng.random() < 0.3 else list(spends)
        keep = list(arg)
        point = ds.reach_by_spend(arg) if default else ds.reach_by_spend(arg, maxf)
        ctx.equal(list(arg), keep, "query modified its argument")
        verify(point, total, 10 if default else maxf, spends, imps, "reach_by_spend")
        ctx.equal(list(ds.impressions_by_spend(arg)), imps, "impressions_by_spend")
        singles = [
            ds.reach_by_spend([s if j == i else -1.0 for j, s in enumerate(spends)], 1).reach()
            for i in range(p)
        ]
        ctx.check(max(singles) <= point.reach() <= sum(singles),
                  "union reach outside [max, sum] of single-publisher reaches",
                  logs=logs, spends=spends)
        more = [s + rng.choice([0, 0, abs(s) * 0.3 + 0.1]) for s in spends]
        bigger = ds.reach_by_spend(more, maxf)
        for k in range(1, maxf + 1):
            if not default:
                ctx.check(bigger.reach(k) >= point.reach(k),
                          "reach decreased when spend increased", logs=logs,
                          spends=spends, more=more, k=k)
        ctx.event("reach_by_spend")

    def impression_query():
        imps = [
            rng.choice([0, 1, len(l), len(l) + 5, rng.randrange(0, len(l) + 1)])
            for l in logs
        ]
        counts = []
        for t, m, n in zip(twins, models, imps):
            c = dict(t.user_counts_by_impressions(n))
            ctx.check(m.prefix_ok(n, c), "publisher log is not read in spend order")
            counts.append(c)
        total = add_counts(*counts)
        maxf = rng.choice([33, 70, 130, 300] if heavy else [1, 2, 3, 5, 10, 15])
        default = rng.random() < 0.2
        spends = [m.spend_by_impressions(n) for m, n in zip(models, imps)]
        arg = tuple(imps) if rng.random() < 0.3 else list(imps)
        point = ds.reach_by_impressions(arg) if default else ds.reach_by_impressions(arg, maxf)
        verify(point, total, 10 if default else maxf, spends, imps, "reach_by_impressions")
        ctx.equal(list(ds.spend_by_impressions(arg)), spends, "spend_by_impressions")
        ctx.event("reach_by_impressions")

    def bad_query():
        bad = [1.0] * rng.choice([p + 1, p + 3, p - 1])
        ctx.raises(ValueError, lambda: ds.reach_by_spend(bad),
                   "spend vector of wrong length", length=len(bad), publishers=p)
        badi = [1] * rng.choice([p + 1, p - 1])
        ctx.raises(ValueError, lambda: ds.reach_by_impressions(badi),
                   "impression vector of wrong length", length=len(badi), publishers=p)

    qs = [spend_query] * 6 + [impression_query] * 6 + [bad_query]
    rng.shuffle(qs)
    for q in qs:
        q()
    full = ds.reach_by_spend([max(s for _, s in l) for l in logs], 3)
    ctx.equal(full.reach(), ds.maximum_reach, "full spend does not reach everybody")
    if p > 1 and shared:
        ctx.seen(tuple(len(l) for l in logs), len(union), shared, tuple(sorted(outcomes)))
