"""C06: impression and pricing generators."""

import random
from collections import Counter

import numpy as np
from scipy import stats

from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import (
    FixedPriceGenerator,
)
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import (
    HeavyTailedImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import (
    HeterogeneousImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import (
    HomogeneousImpressionGenerator,
)
from wfa_planning_evaluation_framework.data_generators.publisher_data import (
    PublisherData,
)

ID = "C06"
RULE = (
    "a case builds one impression generator (homogeneous / heterogeneous / heavy-tailed, random "
    "n and parameters, some large n for the distribution test), calls it 1-3 times from seeded "
    "numpy generators under perturbed global random state, prices the impressions, and judges "
    "the emitted sequences (or calls a small generator 1200 times and judges which user takes which "
    "place); non-trivial: >= 2 users, distinct by (generator, n, parameters, "
    "emitted frequency histogram)"
)
QUICK = 1600
THOROUGH = 16000
REQUIRED = {"sequence": 500, "distribution_test": 60, "priced": 300, "order_test": 60,
            "independence_test": 200, "place_test": 60}
ASSUMPTIONS = [
    "distribution tests reject at p < 1e-9 (sequence fixed by the seed, so a rejection replays)"
]
P_MIN = 1e-9


def make(rng, kind, n, gen):
    if kind == "homogeneous":
        lam = rng.choice([0.0, 0.5, 1.0, 3.0, 9.0])
        par = {"poisson_lambda": lam}
        return HomogeneousImpressionGenerator(n, lam, gen), par
    if kind == "heterogeneous":
        sh, sc = rng.choice([(1.0, 0.5), (1.0, 4.0), (0.4, 5.0), (4.0, 0.5), (0.05, 11.0), (1, 1)])
        par = {"gamma_shape": sh, "gamma_scale": sc}
        if (sh, sc) == (1, 1) and rng.random() < 0.5:
            return HeterogeneousImpressionGenerator(n, random_generator=gen), par
        return HeterogeneousImpressionGenerator(n, sh, sc, gen), par
    s = rng.choice([2.0, 2.5, 2.8, 5.0])
    if s == 2.0 and rng.random() < 0.5:
        return HeavyTailedImpressionGenerator(n, random_generator=gen), {"zeta_s": s}
    return HeavyTailedImpressionGenerator(n, s, gen), {"zeta_s": s}


def pmf(kind, par, ks):
    ks = np.asarray(ks)
    if kind == "homogeneous":
        return stats.poisson.pmf(ks - 1, par["poisson_lambda"])
    if kind == "heterogeneous":
        return stats.nbinom.pmf(ks - 1, par["gamma_shape"], 1 / (1 + par["gamma_scale"]))
    return stats.zipf.pmf(ks, par["zeta_s"])


def distribution_test(ctx, kind, par, freqs):
    """Chi-square of per-user frequencies against the documented law."""
    n = len(freqs)
    ks = np.arange(1, 60)
    expect = n * pmf(kind, par, ks)
    c = Counter(freqs)
    obs, exp, o, e = [], [], 0, 0.0
    for k, x in zip(ks, expect):
        o += c.get(int(k), 0)
        e += x
        if e >= 8:
            obs.append(o)
            exp.append(e)
            o, e = 0, 0.0
    rest_o, rest_e = n - sum(obs), n - sum(exp)
    if rest_e >= 8:
        obs.append(rest_o)
        exp.append(rest_e)
    elif obs:
        obs[-1] += rest_o
        exp[-1] += rest_e
    if kind == "heavy":  # no cap on the tail
        for t in (10, 100, 1000):
            seen, q = sum(1 for f in freqs if f > t), float(stats.zipf.sf(t, par["zeta_s"]))
            p = 2 * min(float(stats.binom.cdf(seen, n, q)), float(stats.binom.sf(seen - 1, n, q)))
            ctx.event("tail_test")
            ctx.check(p > P_MIN, "users with very many impressions are too rare or too common",
                      params=par, more_than=t, users=seen, of=n, p=p)
    if len(obs) < 2:
        return
    chi = sum((a - b) ** 2 / b for a, b in zip(obs, exp))
    p = float(stats.chi2.sf(chi, len(obs) - 1))
    ctx.event("distribution_test")
    ctx.check(p > P_MIN, "user frequencies do not follow the documented distribution",
              kind=kind, params=par, p=p, observed=obs, expected=exp)


def order_test(ctx, seq, n, kind):
    """Impressions come in random order: id and position are uncorrelated."""
    m = len(seq)
    ids = np.array(seq, dtype=float)
    if m < 200 or ids.std() == 0:
        return
    pos = np.arange(m, dtype=float)
    r = float(np.corrcoef(ids, pos)[0, 1])
    ctx.event("order_test")
    ctx.check(abs(r) * np.sqrt(m) < 7.0, "impressions are not in random order (id trend)",
              kind=kind, r=r, m=m)
    # repeated impressions of one user are not adjacent more often than by chance
    c = Counter(seq)
    pairs = sum(v * (v - 1) for v in c.values())
    lam = pairs / m  # expected number of equal neighbours under a uniform shuffle
    adj = sum(1 for a, b in zip(seq, seq[1:]) if a == b)
    top = max(c.values())
    if top < m / 20:
        ctx.check(adj <= lam + 8 * np.sqrt(lam + 1) + 8,
                  "impressions of the same user are clustered", kind=kind, adjacent=adj,
                  expected=lam)


def white(ctx, values, what, **info):
    """No two places of an exchangeable sequence are related, at any distance."""
    x = stats.rankdata(np.asarray(values[:1 << 16], dtype=float))
    x = x - x.mean()
    m, v = len(x), float((x * x).sum())
    if m < 200 or v == 0:
        return
    f = np.fft.rfft(x, 2 * m)
    r = np.fft.irfft(f * np.conj(f))[1:m // 2] / v
    worst = int(np.argmax(np.abs(r)))
    ctx.event("independence_test")
    ctx.check(abs(float(r[worst])) * np.sqrt(m) < 9.0, what, lag=worst + 1, r=float(r[worst]),
              length=m, **info)


def many_calls(ctx):
    """Over many calls every user is equally likely at every place of the sequence."""
    rng = ctx.rng
    kind = rng.choice(["homogeneous", "heterogeneous", "heavy"])
    n = rng.choice([2, 3, 5, 8])
    g, par = make(rng, kind, n, np.random.default_rng(rng.randrange(10 ** 6)))
    calls = 1200
    first, last, second, most = Counter(), Counter(), Counter(), Counter()
    for _ in range(calls):
        s = g()
        first[s[0]] += 1
        second[s[1]] += 1
        last[s[-1]] += 1
        most[s[len(s) // 2]] += 1
    for c, place in ((first, "first"), (second, "second"), (most, "middle"), (last, "last")):
        chi = sum((c.get(i, 0) - calls / n) ** 2 / (calls / n) for i in range(n))
        ctx.check(float(stats.chi2.sf(chi, n - 1)) > P_MIN, "place is not equally likely for all users",
                  place=place, kind=kind, params=par, n=n, counts=dict(c))
    ctx.event("place_test")
    ctx.note(kind=kind, params=par, n=n, first=dict(first))
    ctx.seen("calls", kind, n, tuple(sorted(par.items())), tuple(sorted(first.items())))


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.1:
        return many_calls(ctx)
    kind = rng.choice(["homogeneous", "heterogeneous", "heavy"])
    big = rng.random() < 0.25
    n = (rng.choice([1500, 3000]) if rng.random() < 0.8 else 20000) if big else rng.choice([1, 2, 3, 10, 50])
    seed = rng.randrange(10 ** 6)
    state = rng.getstate()

    def build(gen):
        rng.setstate(state)
        g, par = make(rng, kind, n, gen)
        return g, par

    g1, par = build(np.random.default_rng(seed))
    after = rng.getstate()
    calls = rng.choice([1, 2, 3])
    gstate = np.random.get_state()
    seqs = [list(g1()) for _ in range(calls)]
    for s in seqs:
        ctx.event("sequence")
        ctx.equal(set(s), set(range(n)), "users emitted are not exactly 0..n-1",
                  kind=kind, params=par, n=n)
    ctx.check(all(np.array_equal(a, b) if hasattr(a, "shape") else a == b
                  for a, b in zip(gstate, np.random.get_state())),
              "generator consumed the global numpy random state", kind=kind)
    # same seed, other global state: same sequences
    np.random.seed(rng.randrange(2 ** 31))
    random.seed(5)
    g2, _ = build(np.random.default_rng(seed))
    rng.setstate(after)
    ctx.equal([list(g2()) for _ in range(calls)], seqs,
              "sequence is not a function of the given random generator", kind=kind, params=par)
    if big:
        freqs = [v for s in seqs for v in Counter(s).values()]
        distribution_test(ctx, kind, par, freqs)
        for s in seqs:
            c = Counter(s)
            white(ctx, [c[i] for i in range(n)], "frequencies of different users are related",
                  kind=kind, params=par, n=n)
            white(ctx, s, "impressions are not in random order", kind=kind, params=par, n=n)
        if kind != "heavy":
            order_test(ctx, seqs[0], n, kind)
    if calls > 1 and n >= 10 and len(seqs[0]) > 20:
        ctx.check(seqs[0] != seqs[1], "two calls emitted the same random sequence", kind=kind)
    # default random generator
    if rng.random() < 0.3:
        g3, _ = build(None)
        rng.setstate(after)
        ctx.equal(set(g3()), set(range(n)), "default generator: users emitted", kind=kind)
    if kind == "heavy":
        ctx.raises((AssertionError, ValueError),
                   lambda: HeavyTailedImpressionGenerator(3, rng.choice([1, 1.0, 0.5])),
                   "zeta parameter <= 1")

    # ---- pricing -----------------------------------------------------------
    ids = seqs[0][:300]
    cpi = rng.choice([0.1, 1, 0.001, 2.5, 10 ** rng.uniform(-9, 4)])
    keep = list(ids)
    priced = FixedPriceGenerator(cpi)(ids)
    ctx.equal(ids, keep, "pricing changed the impressions")
    ctx.equal([i for i, _ in priced], ids, "pricing changed, dropped or reordered ids")
    for j, (_, s) in enumerate(priced):
        ctx.close(s, (j + 1) * cpi, "total spend of the j-th impression is not j * cpi",
                  rel=1e-12, position=j)
    ctx.event("priced")
    pub = PublisherData.generate_publisher_data(lambda: list(ids), FixedPriceGenerator(cpi), "p")
    ctx.equal(pub.max_impressions, len(ids), "publisher log lost impressions")
    ctx.equal(pub.max_reach, len(set(ids)), "publisher log lost users")
    ctx.close(pub.max_spend, cpi * len(ids), "publisher log max spend", rel=1e-12)
    j = rng.randrange(1, len(ids) + 1)
    ctx.equal(dict(pub.user_counts_by_impressions(j)), dict(Counter(ids[:j])),
              "first j impressions of a priced log")
    ctx.note(kind=kind, params=par, n=n, first_ids=seqs[0][:15])
    if n >= 2:
        ctx.seen(kind, n, tuple(sorted(par.items())),
                 tuple(sorted(Counter(Counter(seqs[0]).values()).items()))[:20])
