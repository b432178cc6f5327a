"""C16: the Venn-diagram measurement is one consistent, non-negative diagram."""

import itertools
import math
import random

import numpy as np
from scipy import stats
from scipy.special import expi

from monitors import halo
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget

ID = "C16"
RULE = (
    "a case builds a Halo simulation over 1-39 (at most 7 active) random overlapping publisher logs and asks Venn-diagram "
    "measurements for random spend vectors (some zero) with large and small sketches, noise off, weak "
    "and strong; from the returned reach points the primitive regions are recovered by inclusion-"
    "exclusion and compared with the sampled and noised values recorded at the noise boundary and "
    "with the true regions of the logs; non-trivial: >= 2 active publishers, distinct by (logs, spends)"
)
QUICK = 900
THOROUGH = 25000
REQUIRED = {"diagram": 1000, "noiseless": 400, "noised": 400, "fully_sampled": 150,
            "partly_sampled": 300, "inactive_publisher": 300, "zero_spends": 200,
            "same_seed_rerun": 300, "rejected_invalid_input": 500, "cardinality_test": 8, "many_publishers": 100}
ASSUMPTIONS = [
    "the external noiser library is replaced by a recording stand-in",
    "every impression has a positive cumulative spend (no free impressions)",
    "distribution test of the cardinality estimate rejects at p < 1e-9 (fixed by the seed)",
]


def variance(n, m, a):
    c = a * n / m / (1 - math.exp(-a))
    v = expi(-c) - expi(-c * math.exp(-a)) - expi(-2 * c) + expi(-2 * c * math.exp(-a))
    v *= a * n ** 2 / m / (math.exp(-c) - math.exp(-c * math.exp(-a))) ** 2
    return v - n


def true_regions(logs, spends):
    region = {}
    for i, (log, s) in enumerate(zip(logs, spends)):
        if not s:
            continue
        for u in halo.gen.LogModel(log).counts_by_spend(s):
            region[u] = region.get(u, 0) | (1 << i)
    out = {}
    for r in region.values():
        out[r] = out.get(r, 0) + 1
    return out, len(region)


def diagram(ctx, logs, spends, points, universe, info):
    """Judges the subset structure; returns {mask: reach}."""
    n = len(spends)
    active = [i for i in range(n) if spends[i]]
    imps = halo.impressions(logs, spends)
    got = {}
    for p in points:
        mask = sum(1 << i for i in range(n) if p.spends[i])
        ctx.check(mask and mask not in got, "each set of publishers exactly once", mask=mask, info=info)
        ctx.equal([float(x) for x in p.spends],
                  [float(spends[i]) if mask >> i & 1 else 0.0 for i in range(n)],
                  "spends of a subset", info=info)
        ctx.equal([int(x) for x in p.impressions],
                  [imps[i] if mask >> i & 1 else 0 for i in range(n)],
                  "impressions of a subset", mask=mask, info=info)
        ctx.equal(p.max_frequency, 1, "maximum frequency")
        if universe is not None:
            ctx.equal(p.universe_size, universe, "universe size")
        got[mask] = float(p.reach())
    want = {sum(1 << i for i in c) for k in range(1, len(active) + 1)
            for c in itertools.combinations(active, k)}
    ctx.equal(set(got), want, "all non-empty sets of active publishers", info=info)
    return got, active


def regions_of(reach, active):
    """Moebius inversion: users reached by exactly the publishers of each mask."""
    full = sum(1 << i for i in active)
    # f(S) = reach(full) - reach(full \ S) = users reached only by members of S
    only = {0: 0.0}
    for m in reach:
        only[m] = reach[full] - reach.get(full & ~m, 0.0)
    reg = dict(only)
    for i in active:
        for m in sorted(reg):
            if m >> i & 1:
                reg[m] -= reg[m & ~(1 << i)]
    del reg[0]
    return reg, reach[full]


def one(ctx, h, logs, spends, budget, split, ll, universe):
    rng = ctx.rng
    rec = halo.Recorded()
    kw = {} if split == 0.5 and rng.random() < 0.5 else {"privacy_budget_split": split}
    g = (random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2])
    info = {"logs": logs, "spends": spends, "budget": list(budget), "split": split, "ll": ll}
    truth, card = true_regions(logs, spends)
    try:
        points = h.simulated_venn_diagram_reach_by_spend(list(spends), budget, **kw)
    except RuntimeError:
        # no register was hit exactly once: the configuration is refused
        ctx.event("refused_no_register")
        if card and ll[0] >= 10 ** 5:
            ctx.check(card <= 2, "refused although registers must be active", info=info)
        ctx.equal(rec.of("noise"), [], "nothing is noised in a refused measurement")
        return None
    ctx.check(g == (random.getstate(), np.random.get_state()[1].tobytes(),
                    np.random.get_state()[2]), "global randomness consumed", key="global-random")
    ctx.event("diagram")
    reach, active = diagram(ctx, logs, spends, points, universe, info)
    if len(active) < len(spends):
        ctx.event("inactive_publisher")
    noisers = list(rec.noise_by_noiser().values())
    ctx.equal(len(noisers), 2, "regions and cardinality are each noised", info=info)
    a, b = noisers
    if len(b["values"]) != 1:
        a, b = b, a
    ctx.equal((len(a["values"]), len(b["values"])), (2 ** len(active) - 1, 1),
              "one noised value per region and one cardinality", info=info)
    if len(active) == 1 and a["values"][0] != int(a["values"][0]):
        a, b = b, a  # two single values: the region sample is the whole number
    sampled, noised = a["values"], [max(0, x) for x in a["results"]]
    S = sum(sampled)
    ctx.check(1 <= S <= card, "sampled users", sampled=S, card=card, info=info)
    reg, total = regions_of(reach, active)
    tol = 1e-6 * max(1.0, total)
    ctx.check(min(reg.values()) >= -tol, "a primitive region is negative", regions=reg, info=info)
    ctx.check(min(reach.values()) >= 0, "a reach is negative", reach=reach, info=info)
    if sum(noised) > 0:
        ctx.close(total, max(0, b["results"][0]), "the diagram is scaled to the cardinality estimate",
                  rel=1e-9, abs_=1e-6, info=info)
        if total > 0:
            back = {m: v * sum(noised) / total for m, v in reg.items()}
            ctx.close_list(sorted(back.values()), sorted(noised),
                           "regions are the noised samples, scaled", rel=1e-6,
                           abs_=1e-5 * sum(noised), info=info)
            if math.isinf(budget.epsilon):
                for m, v in back.items():
                    ctx.check(v <= truth.get(m, 0) + 1e-4 * sum(noised),
                              "more users sampled than the region has", mask=m, value=v, info=info)
                if S == card:
                    ctx.event("fully_sampled")
                    for m, v in reach.items():
                        t = sum(c for r, c in truth.items() if r & m)
                        ctx.close(v / total, t / card, "share of the union reach of a set of publishers",
                                  rel=1e-9, abs_=1e-9, mask=m, info=info)
                else:
                    ctx.event("partly_sampled")
    else:
        ctx.check(max(reach.values()) == 0, "nothing sampled but a reach reported", info=info)
    ctx.event("noiseless" if math.isinf(budget.epsilon) else "noised")
    sd = math.sqrt(variance(card, ll[0], ll[1]))
    ctx.check(abs(b["values"][0] - card) <= 8 * sd + 1e-9,
              "cardinality estimate before noise is implausible", value=b["values"][0], card=card,
              sd=sd, info=info)
    if len(active) >= 2:
        ctx.seen(repr(logs), repr(spends))
    return reach, (b["values"][0] - card) / sd, S


def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7]) if rng.random() < 0.85 else rng.randrange(9, 40)
    few = n > 8  # many publishers, few of them active
    logs = halo.logs(rng, n, max_len=rng.choice([10, 40, 100]) if not few else 10, min_len=5)
    ll = (rng.choice([300, 300, 2000, 2000, 8000, 100000 if rng.random() < 0.3 else 20000]), rng.choice([12, 5]), 1)
    universe = rng.choice([None, 10 ** 6])
    seed = rng.randrange(1 << 30)
    fr = [rng.choice([0.2, 0.6, 1.0]) for _ in logs]
    mk = dict(seed=seed, fractions=fr, sketch_size=ll[0], decay_rate=ll[1], universe_size=universe)
    h, ds, fr, tracker = halo.make(rng, logs, **mk)
    ctx.note(logs=logs, fractions=fr, sketch=ll, generator_seed=seed)
    trace = []
    for _ in range(rng.randrange(1, 4)):
        spends = halo.spend_vector(rng, logs, h.campaign_spends)
        if few:
            ctx.event("many_publishers")
            keep = set(rng.sample(range(n), rng.randrange(1, 6)))
            spends = [s if i in keep else 0.0 for i, s in enumerate(spends)]
        if not any(spends):
            before = len(tracker.mechanisms)
            ctx.equal(list(h.simulated_venn_diagram_reach_by_spend(spends, PrivacyBudget(1.0, 0.1))), [],
                      "no active publisher, no reach points")
            ctx.equal(len(tracker.mechanisms), before, "nothing measured, nothing charged")
            ctx.event("zero_spends")
            continue
        budget = PrivacyBudget(rng.choice([halo.INF, halo.INF, 0.1, 1.0, 5.0]), rng.choice([0.0, 1e-5]))
        split = rng.choice([0.5, 0.5, 0.2, 0.9])
        r = one(ctx, h, logs, spends, budget, split, ll, universe)
        trace.append((spends, budget, split, r and r[0]))
    ctx.event("zero_spends")
    ctx.equal(list(h.simulated_venn_diagram_reach_by_spend([0.0] * n, PrivacyBudget(1.0, 0.1))), [],
              "no active publisher, no reach points")
    before = len(tracker.mechanisms)
    ctx.raises(ValueError, lambda: h.simulated_venn_diagram_reach_by_spend(
        [1.0] * min(n, 8) + [0.0] * (n - 8), PrivacyBudget(1.0, 0.0), max_frequency=rng.choice([0, 2, 10])),
        "frequencies other than 1 are not supported")
    ctx.equal(len(tracker.mechanisms), before, "nothing measured, nothing charged")
    if trace:
        np.random.seed(rng.randrange(1 << 30))
        h2, _, _, _ = halo.make(rng, logs, **mk)
        again = []
        for spends, budget, split, _ in trace:
            try:
                pts = h2.simulated_venn_diagram_reach_by_spend(
                    list(spends), budget, privacy_budget_split=split)
                again.append({sum(1 << i for i in range(n) if p.spends[i]): float(p.reach())
                              for p in pts})
            except RuntimeError:
                again.append(None)
        ctx.event("same_seed_rerun")
        ctx.equal(again, [t[3] for t in trace], "the same generator seed must give the same diagram")
    if ctx.index % 100 == 0:  # the spread of the cardinality estimate
        many = [[(u, i + 1.0) for i, u in enumerate(rng.sample(range(400), 150))] for _ in range(2)]
        ll2 = (400, 12, 1)
        h3, _, _, _ = halo.make(rng, many, fractions=[1.0, 1.0], sketch_size=400)
        runs = [one(ctx, h3, many, [150.0, 150.0], PrivacyBudget(halo.INF, 0.0), 0.5, ll2, None)[1:]
                for _ in range(60)]
        z = [r[0] for r in runs]
        ctx.event("cardinality_test")
        x = sum(v * v for v in z)
        p = min(stats.chi2.cdf(x, 60), stats.chi2.sf(x, 60))
        ctx.check(p > 1e-9, "spread of the cardinality estimate", key="spread", chi2=x, z=z)
        ctx.check(abs(sum(z)) / math.sqrt(60) < 6.5, "bias of the cardinality estimate", key="bias", z=z)
        # a sampled user sits alone in its register
        card = true_regions(many, [150.0, 150.0])[1]
        w = np.exp(-12 * np.arange(400) / 400.0)
        w /= w.sum()
        one_p = card * w * (1 - w) ** (card - 1)
        mean, var = one_p.sum(), (one_p * (1 - one_p)).sum()
        got = sum(r[1] for r in runs) / 60.0
        ctx.check(abs(got - mean) <= 7 * math.sqrt(2 * var / 60),
                  "number of users sampled from the sketch", key="sample-size", got=got, want=mean)
    if ctx.index % 50 == 0:  # the limit on the number of active publishers
        k = rng.choice([20, 21, 22, 25])
        many = [[(u, 1.0)] for u in range(k)]
        h4, _, _, _ = halo.make(rng, many, fractions=[1.0] * k)
        spends = [1.0] * k
        if k > 20:
            ctx.raises(ValueError, lambda: h4.simulated_venn_diagram_reach_by_spend(
                spends, PrivacyBudget(1.0, 0.0)), "more than 20 active publishers")
