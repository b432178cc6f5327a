"""C01: a publisher log answers every query as its spend-ordered prefix."""

import copy

from wfa_planning_evaluation_framework.data_generators.publisher_data import (
    PublisherData,
)
from wfa_planning_evaluation_framework.data_generators.impression_generator import (
    ImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.pricing_generator import (
    PricingGenerator,
)
from monitors.gen import LogModel, impression_log, probe_spends

ID = "C01"
RULE = (
    "a case is a random (id, spend) log (unsorted/sorted/reversed; ties, near-ties, "
    "repeated users, negative and huge ids) and a random interleaving of queries on the "
    "PublisherData built from it; non-trivial: the log has >= 2 events, counted distinct "
    "by (#events, #users, #distinct spends, order class, queries asked)"
)
QUICK = 10000
THOROUGH = 150000
REQUIRED = {"query_impressions_by_spend": 500, "query_counts_by_impressions": 500,
            "log_unsorted": 100, "log_with_ties": 100}
ASSUMPTIONS = ["ties in spend may be broken in any fixed order"]


class _Ids(ImpressionGenerator):
    def __init__(self, ids):
        self._ids = ids

    def __call__(self):
        return list(self._ids)


class _Price(PricingGenerator):
    def __init__(self, spends):
        self._spends = spends

    def __call__(self, ids):
        return list(zip(ids, self._spends))


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.002:  # more events than any 16-bit count can hold
        size = rng.choice([33000, 66000])
        log = impression_log(rng, max_len=size, min_len=size - 50)
        if rng.random() < 0.5:  # and as many users
            log = [(i, x) for i, (_, x) in enumerate(log)]
        ctx.event("long_log")
    else:
        log = impression_log(rng, max_len=rng.choice([1, 3, 10, 60, 200]))
    pristine = copy.deepcopy(log)
    m = LogModel(pristine)
    name = rng.choice([None, "pub", "a b", "x_1"])
    if rng.random() < 0.2:
        pub = PublisherData.generate_publisher_data(
            _Ids([i for i, _ in log]), _Price([s for _, s in log]), name
        )
        ctx.event("built_by_generators")
    else:
        pub = PublisherData(log, name)
    ctx.note(log=pristine[:20], name=name)
    ctx.equal(log, pristine, "constructor modified the caller's log")
    log.append((999999, 1e30))  # the object must not share state with the caller
    log[0] = (888888, -5.0)

    spends = [s for _, s in pristine]
    is_sorted = spends == sorted(spends)
    if not is_sorted:
        ctx.event("log_unsorted")
    if len(set(spends)) < len(spends):
        ctx.event("log_with_ties")
    if name:
        ctx.equal(pub.name, name, "name")
    else:
        ctx.check(isinstance(pub.name, str) and pub.name != "", "anonymous log has a name")
        pub.name = "renamed"
        ctx.equal(pub.name, "renamed", "name after renaming")

    def totals():
        ctx.equal(pub.max_impressions, len(pristine), "max_impressions")
        ctx.equal(pub.max_spend, max(spends), "max_spend")
        ctx.equal(pub.max_reach, len({i for i, _ in pristine}), "max_reach")
        ctx.event("query_totals")

    def by_spend(s):
        got = pub.impressions_by_spend(s)
        ctx.equal(got, m.impressions_by_spend(s),
                  "impressions_by_spend != number of events costing at most the spend",
                  spend=s, log=pristine)
        counts = pub.user_counts_by_spend(s)
        ctx.equal(dict(counts), m.counts_by_spend(s),
                  "user_counts_by_spend != per-user events costing at most the spend",
                  spend=s, log=pristine)
        counts[12345] = 1  # a returned dictionary must not alias state
        ctx.event("query_impressions_by_spend")
        # the log prefix of that many impressions holds the same users
        ctx.equal(dict(pub.user_counts_by_impressions(got)), m.counts_by_spend(s),
                  "users of the first impressions_by_spend(s) impressions differ from "
                  "users reached by spend s", spend=s, log=pristine)

    def by_impressions(n):
        got = pub.spend_by_impressions(n)
        ctx.equal(got, m.spend_by_impressions(n), "spend_by_impressions",
                  impressions=n, log=pristine)
        answer = pub.user_counts_by_impressions(n)
        c = dict(answer)
        answer[54321] = 7  # a returned dictionary must not alias state
        ctx.check(m.prefix_ok(n, c),
                  "user_counts_by_impressions is not the first n events in spend order",
                  impressions=n, counts=c, log=pristine)
        ctx.equal(dict(pub.user_counts_by_impressions(n)), c,
                  "same query answered differently")
        nxt = pub.user_counts_by_impressions(n + 1)
        ctx.check(all(nxt.get(i, 0) >= v for i, v in c.items()),
                  "one more impression lost a user contact", impressions=n, log=pristine)
        if n > 0:
            # paying what n impressions cost delivers at least n impressions
            ctx.check(pub.impressions_by_spend(got) >= min(n, len(pristine)),
                      "spend_by_impressions(n) does not buy n impressions",
                      impressions=n, log=pristine)
        ctx.event("query_counts_by_impressions")

    qs = [(totals,)] + [(by_spend, s) for s in probe_spends(rng, [pristine])]
    ns = [0, 1, len(pristine), len(pristine) + 1, 10 * len(pristine) + 7]
    ns += [rng.randrange(0, len(pristine) + 1) for _ in range(5)]
    qs += [(by_impressions, n) for n in ns]
    rng.shuffle(qs)
    for q in qs:
        q[0](*q[1:])
    totals()
    if len(pristine) >= 2:
        ctx.seen(len(pristine), len({i for i, _ in pristine}), len(set(spends)),
                 is_sorted, tuple(sorted(set(ns))))
