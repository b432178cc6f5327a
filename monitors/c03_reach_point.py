"""C03: ReachPoint algebra."""

import copy

from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from monitors.gen import kplus

ID = "C03"
RULE = (
    "a case is a random user-count dictionary or k+ vector (ints and floats, length 1..15), "
    "random impressions/spends/universe; every accessor and conversion is compared with a "
    "direct count; non-trivial: max_frequency >= 2 and a non-zero reach, counted distinct by "
    "(max_frequency, k+ vector)"
)
QUICK = 10000
THOROUGH = 150000
REQUIRED = {"point": 1000, "rejected_invalid_input": 1000, "conversion": 1000}
ASSUMPTIONS = []


def case(ctx):
    rng = ctx.rng
    F = rng.choice([1, 1, 2, 3, 5, 10, 15, rng.choice([40, 150, 300])])
    # ---- conversions from user counts --------------------------------------
    counts = {
        i: rng.choice([1, 1, 2, 3, rng.randrange(1, 20), F, F + 1])
        for i in range(rng.choice([0, 1, 5, 30]))
    }
    want_kplus = kplus(counts, F)
    want_freq = [
        sum(1 for c in counts.values() if (c == k if k < F else c >= F))
        for k in range(1, F + 1)
    ]
    before = dict(counts)
    freqs = ReachPoint.user_counts_to_frequencies(counts, F)
    ctx.equal(list(freqs), want_freq, "user_counts_to_frequencies", counts=counts, F=F)
    ctx.equal(list(ReachPoint.user_counts_to_kplus_reaches(counts, F)), want_kplus,
              "user_counts_to_kplus_reaches", counts=counts, F=F)
    keep = list(freqs)
    conv = ReachPoint.frequencies_to_kplus_reaches(freqs)
    ctx.equal(list(conv), want_kplus, "frequencies_to_kplus_reaches", freqs=keep)
    ctx.equal(list(freqs), keep, "frequencies_to_kplus_reaches modified its argument")
    ctx.equal(counts, before, "conversion modified the user counts")
    ctx.event("conversion")

    # ---- a point -----------------------------------------------------------
    if rng.random() < 0.5:
        ks = want_kplus
    else:
        vals = [rng.random() * 1000 if rng.random() < 0.5 else rng.randrange(0, 1000)
                for _ in range(F)]
        ks = sorted(vals, reverse=True)
    p = rng.choice([1, 2, 5])
    imps = [rng.randrange(0, 5000) for _ in range(p)]
    spends = rng.choice([None, [rng.random() * 10 for _ in range(p)], [0.0] * p,
                         tuple(rng.randrange(0, 9) for _ in range(p))])
    universe = rng.choice([None, 2000, 10 ** 7, 0])
    arg_imps, arg_ks = list(imps), list(ks)
    arg_spends = copy.copy(spends)
    if rng.random() < 0.3:
        arg_imps, arg_ks = tuple(arg_imps), tuple(arg_ks)
    kw = {}
    if spends is not None:
        kw["spends"] = arg_spends
    if universe is not None:
        kw["universe_size"] = universe
    pt = ReachPoint(arg_imps, arg_ks, **kw)
    ctx.event("point")
    ctx.note(kplus=ks, impressions=imps, spends=spends, universe=universe)
    # the point is a value: changing the arguments afterwards changes nothing
    if isinstance(arg_ks, list):
        arg_ks[0] = -77
        arg_imps[0] = -77
    if isinstance(arg_spends, list):
        arg_spends[0] = -77
    for _ in range(2):  # twice: reading must not change it
        ctx.equal(pt.max_frequency, F, "max_frequency")
        ctx.equal(list(pt.impressions), imps, "impressions")
        if spends is None:
            ctx.check(pt.spends is None, "spends of a point without spends")
        else:
            ctx.equal(list(pt.spends), list(spends), "spends")
        for k in range(1, F + 1):
            ctx.equal(pt.reach(k), ks[k - 1], "reach(k)", k=k, kplus=ks)
        ctx.equal(pt.reach(), ks[0], "reach()")
        exact = [ks[i] - ks[i + 1] for i in range(F - 1)]
        for k in range(1, F):
            ctx.equal(pt.frequency(k), exact[k - 1], "frequency(k) != reach(k)-reach(k+1)",
                      k=k, kplus=ks)
        ctx.equal(list(pt.frequencies), exact, "frequencies", kplus=ks)
        withk = list(pt.frequencies_with_kplus_bucket)
        ctx.equal(withk, exact + [ks[-1]], "frequencies_with_kplus_bucket", kplus=ks)
        ctx.close(sum(withk), ks[0], "frequencies_with_kplus_bucket must sum to the reach",
                  kplus=ks)
        if universe is None:
            ctx.raises(ValueError, lambda: pt.universe_size, "universe_size unknown")
            ctx.raises(ValueError, lambda: pt.zero_included_histogram,
                       "zero_included_histogram without universe")
        else:
            ctx.equal(pt.universe_size, universe, "universe_size")
            h = list(pt.zero_included_histogram)
            ctx.equal(h, [universe - ks[0]] + withk, "zero_included_histogram", kplus=ks)
            ctx.close(sum(h), universe, "zero_included_histogram must sum to the universe")
    back = ReachPoint.frequencies_to_kplus_reaches(list(pt.frequencies_with_kplus_bucket))
    ctx.close_list(back, ks, "k+ -> frequencies -> k+ is not the identity", kplus=ks)
    for k in (0, -1, F + 1, F + 7):
        ctx.raises(ValueError, lambda: pt.reach(k), "reach(k) out of range", k=k, F=F)
    for k in (0, -1, F, F + 1):
        ctx.raises(ValueError, lambda: pt.frequency(k), "frequency(k) out of range", k=k, F=F)
    bad = [1.0] * (p + rng.choice([1, 2]) if p == 1 or rng.random() < 0.5 else p - 1)
    ctx.raises(ValueError, lambda: ReachPoint(imps, ks, bad),
               "spends and impressions of different length", p=p, spends=bad)
    if F >= 2 and ks[0] > 0:
        ctx.seen(F, tuple(ks))
