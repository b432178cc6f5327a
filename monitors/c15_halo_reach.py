"""C15: what the simulated measurement system reports is the true reach plus noise."""

import random

import numpy as np

from monitors import gen, halo
from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    PrivacyBudget,
    PrivacyTracker,
)
from wfa_planning_evaluation_framework.simulator.publisher import Publisher

ID = "C15"
RULE = (
    "a case builds a Halo simulation over 1-6 random overlapping publisher logs with random campaign "
    "spend fractions and asks 3-8 true and simulated reaches (spends on, between, above event, "
    "campaign and maximum spends; with noise off, weak and strong; max_frequency 1-12) while the "
    "sketches, merges, noisers and estimates at the boundary are recorded; the answers are compared "
    "with a direct count over the logs; non-trivial: >= 2 publishers sharing users or a spend above "
    "the campaign spend, distinct by (logs, fractions, query)"
)
QUICK = 1500
THOROUGH = 40000
REQUIRED = {"true_reach": 1500, "noiseless": 1500, "noised": 2000, "above_campaign": 500,
            "same_seed_rerun": 300, "publisher_reach": 1000, "fresh_noise": 1000, "clipped_to_impressions": 100}
ASSUMPTIONS = [
    "the external sketch and noiser library is replaced by a recording stand-in with an exact sketch",
]


def simulate(ctx, h, logs, spends, budget, split, F):
    rec = halo.Recorded()
    gstate = (random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2])
    kw = {}
    if split != 0.5 or ctx.rng.random() < 0.5:
        kw["privacy_budget_split"] = split
    if F != 1 or ctx.rng.random() < 0.5:
        kw["max_frequency"] = F
    p = h.simulated_reach_by_spend(list(spends), budget, **kw)
    ctx.check(gstate == (random.getstate(), np.random.get_state()[1].tobytes(),
                         np.random.get_state()[2]),
              "a simulated measurement consumed global randomness", key="global-random")
    return p, rec


def judge(ctx, logs, campaign, spends, F, p, rec, universe, ll):
    clipped = [min(s, c) for s, c in zip(spends, campaign)]
    counts = halo.union_counts(logs, clipped)
    info = {"logs": logs, "campaign": list(campaign), "spends": spends, "F": F}
    est = rec.of("estimate")
    ctx.equal(len(est), 1, "one estimate per measurement", info=info)
    sk = est[0]["sketch"]
    ctx.equal({k: v for k, v in sk.counts.items() if v}, counts,
              "the combined sketch must hold exactly the users reached within the campaign spends",
              key="sketch", info=info)
    ctx.equal((int(sk.length), sk.decay_rate, sk.random_seed), ll, "sketch parameters", info=info)
    raw = rec.of("estimate_result")[0]["kplus"]
    imps = halo.impressions(logs, spends)
    want = []
    for x in raw:
        x = max(round(x), 0)
        want.append(min(x, want[-1]) if want else x)
    if sum(imps) <= want[0]:
        want = [max(sum(imps) - 1, 1)] + [0] * (F - 1)
        ctx.event("clipped_to_impressions")
    kp = halo.point_kplus(p)
    ctx.equal([float(x) for x in kp], [float(x) for x in want],
              "k+ reaches reported for the estimate", raw=raw, info=info)
    ctx.check(all(a >= b for a, b in zip(kp, kp[1:])) and min(kp) >= 0,
              "k+ reaches must be non-negative and non-increasing", kp=kp, info=info)
    ctx.equal([int(i) for i in p.impressions], imps, "impressions reported", info=info)
    ctx.equal([float(s) for s in p.spends], [float(s) for s in spends], "spends reported", info=info)
    ctx.equal(p.universe_size if universe is not None else None, universe, "universe size")
    return counts, imps, kp


def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3, 4, 6])
    logs = halo.logs(rng, n, max_len=rng.choice([6, 30, 80]), positive=rng.random() < 0.8)
    ll = (rng.choice([1000, 100000, 77]), rng.choice([12, 5, 1]), rng.choice([1, 7, 12345]))
    sketch_arg = float(ll[0]) if rng.random() < 0.3 else ll[0]
    universe = rng.choice([None, 10 ** 6])
    seed = rng.randrange(1 << 30)
    fr = [rng.choice([0.0, 0.1, 0.5, rng.random(), 1.0]) for _ in logs]
    mk = dict(seed=seed, fractions=fr, sketch_size=sketch_arg, decay_rate=ll[1],
              random_seed=ll[2], universe_size=universe)
    h, ds, fr, tracker = halo.make(rng, logs, **mk)
    ctx.note(logs=logs, fractions=fr, sketch=ll, generator_seed=seed)
    tops = [max(s for _, s in l) for l in logs]
    ctx.equal(h.publisher_count, n, "publisher count")
    ctx.close_list(h.max_spends, tops, "maximum spends", rel=0, abs_=0)
    ctx.close_list(h.campaign_spends, [f * t for f, t in zip(fr, tops)], "campaign spends",
                   rel=1e-12, abs_=0, logs=logs, fractions=fr)
    campaign = list(h.campaign_spends)
    users = [set(u for u, _ in l) for l in logs]
    shared = any(users[i] & users[j] for i in range(n) for j in range(i))
    trace = []
    for _ in range(rng.randrange(3, 9)):
        spends = halo.spend_vector(rng, logs, campaign)
        F = rng.choice([1, 1, 2, 3, 12])
        above = any(s > c for s, c in zip(spends, campaign))
        if above:
            ctx.event("above_campaign")
        if shared or above:
            ctx.seen(repr(logs), repr(fr), repr(spends), F)
        what = rng.choice(["true", "noiseless", "noised", "noised"])
        if what == "true":
            p = h.true_reach_by_spend(spends, F) if F > 1 else h.true_reach_by_spend(spends)
            ctx.event("true_reach")
            ctx.equal(halo.point_kplus(p), gen.kplus(halo.union_counts(logs, spends), F),
                      "true k+ reach", spends=spends, logs=logs)
            ctx.equal(list(p.impressions), halo.impressions(logs, spends), "true impressions",
                      spends=spends, logs=logs)
            ctx.equal(len(tracker.mechanisms), len(trace) * 2, "true reach must not be charged")
            continue
        split = rng.choice([0.5, 0.5, 0.1, 0.9])
        if what == "noiseless":
            budget = PrivacyBudget(halo.INF, 0.0)
        else:
            budget = PrivacyBudget(rng.choice([0.05, 0.5, 1.0, 10.0]), rng.choice([0.0, 1e-5]))
        p, rec = simulate(ctx, h, logs, spends, budget, split, F)
        trace.append((spends, budget, split, F, halo.point_kplus(p)))
        counts, imps, kp = judge(ctx, logs, campaign, spends, F, p, rec, universe, ll)
        ctx.event(what)
        if what == "noiseless":
            exact = gen.kplus(counts, F)
            if sum(imps) > exact[0]:
                ctx.equal([int(x) for x in kp], exact, "noise-free k+ reach", spends=spends,
                          campaign=campaign, logs=logs)
        else:
            st = [halo.state_fingerprint(s) for s in rec.states()]
            ctx.check(None not in st, "noise must come from the simulation's own generator")
            ctx.equal(len(rec.noise_by_noiser()), 2, "reach and frequencies are each noised once")
    # the same simulation again gives the same noise; global state is irrelevant
    if trace:
        np.random.seed(rng.randrange(1 << 30))
        random.seed(rng.random())
        h2, _, _, _ = halo.make(rng, logs, **mk)
        rerun = []
        for spends, budget, split, F, kp in trace:
            q, _ = simulate(ctx, h2, logs, spends, budget, split, F)
            rerun.append(halo.point_kplus(q))
        ctx.event("same_seed_rerun")
        ctx.equal([[float(x) for x in k] for k in rerun],
                  [[float(x) for x in t[4]] for t in trace],
                  "the same generator seed must give the same measurements")
    # fresh noise every time: six equal draws by chance have probability < 1e-10
    spends = [t * 1.0 for t in tops]
    rec = halo.Recorded()
    for _ in range(6):
        h.simulated_reach_by_spend(spends, PrivacyBudget(0.02, 0.0))
    noise = [[b - a for a, b in zip(r["values"], r["results"])]
             for r in rec.noise_by_noiser().values()]
    ctx.equal(len(noise), 12, "every measurement must be noised (reach and frequencies)")
    for part in (noise[0::2], noise[1::2]):
        ctx.check(len({v[0] for v in part}) > 1, "every measurement repeats the same noise",
                  key="repeated-noise", noise=noise)
    ctx.check(any(a[0] != b[0] for a, b in zip(noise[0::2], noise[1::2])),
              "reach and frequencies share the same noise", key="shared-noise", noise=noise)
    ctx.event("fresh_noise")
    # a single publisher on its own
    for i, log in enumerate(logs):
        pub = Publisher(ds._data[i], i, halo.params(fr, 1, *ll), PrivacyTracker())
        ctx.equal(pub.max_spend, tops[i], "publisher maximum spend")
        ctx.close(pub.campaign_spend, fr[i] * tops[i], "publisher campaign spend", rel=1e-12)
        for s in rng.sample(gen.probe_spends(rng, [log]), 3):
            F = rng.choice([1, 2, 5])
            p = pub.true_reach_by_spend(s, F)
            m = gen.LogModel(log)
            ctx.event("publisher_reach")
            ctx.equal(halo.point_kplus(p), gen.kplus(m.counts_by_spend(s), F),
                      "publisher's true reach", s=s, log=log)
            ctx.equal(list(p.impressions), [m.impressions_by_spend(s)], "publisher impressions",
                      s=s, log=log)
            ctx.equal(list(p.spends), [s], "publisher spend")
            sk = pub.liquid_legions_sketch(s)
            ctx.equal({k: v for k, v in sk.counts.items() if v},
                      m.counts_by_spend(min(s, pub.campaign_spend)), "publisher sketch",
                      s=s, log=log, campaign=pub.campaign_spend)
