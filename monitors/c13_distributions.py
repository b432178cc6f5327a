"""C13: predictions follow the stated probability models."""

import math

import numpy as np
from scipy import stats

from monitors import curves
from monitors.curves import (
    DiracMixtureSinglePublisherModel, GammaPoissonModel, KGPDistribution,
    KInflatedGammaPoissonModel, ReachPoint, gp_kplus, gp_thinned_pmf, kgp_pmf, nb_pmf, thin)
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
    UnivariateMixedPoissonOptimizer as Dirac,
)

ID = "C13"
RULE = (
    "a case draws distribution parameters, evaluates the model's probability functions and its "
    "reach curve with those parameters, and compares every number with an independent analytic "
    "reference (thinned negative binomial, binomial thinning of the k-inflated pmf, Poisson "
    "mixtures); non-trivial: parameters give a mass >= 1e-3 on at least two frequencies, distinct "
    "by parameters"
)
QUICK = 1200
THOROUGH = 8000
CASE_CPU_S = 200
REQUIRED = {"gamma_poisson": 100, "kinflated": 100, "dirac": 100, "exp_poisson": 100,
            "curve_gp": 30, "curve_kgp": 50, "rejected_invalid_input": 200}
ASSUMPTIONS = ["parameters keep the inventory well below the model's largest frequency (1000)"]

POINT = ReachPoint([1000], [500], [100.0], 2000)


def gamma_poisson(ctx, rng, nprng):
    ctx.event("gamma_poisson")
    m = GammaPoissonModel([POINT])
    al, be = math.exp(rng.uniform(-1.5, 2)), math.exp(rng.uniform(-2, 2))
    q = rng.choice([rng.uniform(0.01, 0.99), 0.5, 0.999])
    if rng.random() < 0.2:  # large inventories of which little is shown
        al, be, q = rng.uniform(0.3, 1.5), rng.uniform(20, 50), 10 ** rng.uniform(-3, -1)
    info = {"alpha": al, "beta": be}
    ns = sorted(rng.sample(range(1, 60), 6))
    ctx.close_list([math.exp(v) for v in m._logpmf(np.array(ns), al, be)],
                   [nb_pmf(n - 1, al, be) for n in ns], "inventory distribution", rel=1e-7,
                   abs_=1e-12, n=ns, info=info)
    Imax = rng.uniform(10, 1e6)
    ks, nn = np.arange(rng.randrange(3), rng.randrange(4, 7)), np.array(ns)
    mat = np.asarray(m._knreach(ks, nn, q * Imax, Imax, al, be))
    ctx.equal(mat.shape, (len(ks), len(nn)), "shape of the joint distribution")
    for i, k in enumerate(ks):
        for j, n in enumerate(nn):
            ctx.close(mat[i, j], math.comb(int(n), int(k)) * q ** int(k) * (1 - q) ** max(0, int(n - k))
                      * nb_pmf(int(n) - 1, al, be) if n >= k else 0.0,
                      "P(inventory n, k shown)", rel=1e-6, abs_=1e-12, k=k, n=n, q=q, info=info)
    lo, hi = rng.randrange(0, 4), rng.randrange(4, 12)
    got = m._kreach(list(range(lo, hi)), q * Imax, Imax, al, be)
    ctx.close_list(got, [gp_thinned_pmf(k, q, al, be) for k in range(lo, hi)],
                   "P(k shown)", rel=1e-6, abs_=1e-9, lo=lo, q=q, info=info)
    N = rng.uniform(10, 1e5)
    F = rng.randrange(1, 12)
    ctx.close_list(m._expected_histogram(q * Imax, Imax, N, al, be, max_freq=F),
                   [N * gp_thinned_pmf(k, q, al, be) for k in range(1, F + 1)],
                   "expected frequency histogram", rel=1e-6, abs_=1e-6 + 1e-7 * N, q=q, info=info)
    ctx.close(m._expected_impressions(N, al, be), N * (1 + al * be), "expected inventory", rel=1e-9,
              info=info)
    ctx.raises(RuntimeError, lambda: m._kreach([0, 2, 1], 1, 2, 1, 1), "non-consecutive k")
    ctx.raises(RuntimeError, lambda: m._kreach([1, 3], 1, 2, 1, 1), "non-consecutive k")
    ctx.equal(len(m._kreach([], 1, 2, 1, 1)), 0, "empty k")
    ctx.seen("gp", round(al, 6), round(be, 6))


def curve_gp(ctx, rng, nprng):
    ctx.event("curve_gp")
    c, pt, info = curves.gamma_poisson_injected(rng, nprng)
    N, al, be, imax = info["mN"], info["malpha"], info["mbeta"], info["imax"]
    for x in [0, info["I"], rng.uniform(0, imax), 2 * imax]:
        F = rng.choice([1, 3, 8])
        q = min(x, imax - 1) / imax
        p = c.by_impressions([x], max_frequency=F)
        ctx.close_list([p.reach(k) for k in range(1, F + 1)], gp_kplus(N, q, al, be, F),
                       "Gamma-Poisson curve is not N*P(k or more shown)", rel=1e-5,
                       abs_=1e-5 * N, x=x, info=info)
    ctx.close(c.max_reach, N, "maximum reach", rel=1e-12)
    ctx.seen("gpc", info["I"], tuple(info["kplus"]))


def kinflated(ctx, rng, nprng):
    ctx.event("kinflated")
    al, be = math.exp(rng.uniform(-1.5, 1.6)), math.exp(rng.uniform(-2, 2))
    n = rng.choice([0, 0, 1, 2, 3, 6])
    a = [rng.random() for _ in range(n)]
    style = rng.random()
    if n:
        t = sum(a)
        target = rng.choice([0.3, 0.9, 1.0]) if style < 0.7 else rng.choice([1.001, 1.05, rng.uniform(1.0, 1.3), rng.uniform(1.2, 4)])
        a = [x / t * target for x in a]
    keep = list(a)
    if rng.random() < 0.5:
        a = np.array(a, dtype=float)  # the caller may hold an array
    d = KGPDistribution(al, be, a)
    ctx.equal(list(a), keep, "inflation values modified")
    ref = kgp_pmf(al, be, keep)
    info = {"alpha": al, "beta": be, "a": keep}
    ctx.note(**info)
    full = [float(d.pmf(i)) for i in range(60)]
    ctx.close_list(full, ref[:60], "k-inflated pmf", rel=1e-7, abs_=1e-10, info=info)
    ctx.close(sum(np.asarray(d.pmf(np.arange(1000)))), 1.0, "total probability", rel=1e-9, info=info)
    ctx.check(min(np.asarray(d.pmf(np.arange(999)))) >= -1e-12, "negative probability", info=info)
    ctx.close(d.expected_value(), sum(i * x for i, x in enumerate(ref)), "expected value", rel=1e-6,
              info=info)
    q = rng.choice([rng.uniform(0, 1), 0.0, 1.0, 0.5])
    lo, hi = rng.randrange(0, 4), rng.randrange(4, 10)
    ctx.close_list(d.kreach(np.arange(lo, hi), q), [thin(ref, q, k) for k in range(lo, hi)],
                   "P(k shown)", rel=1e-6, abs_=1e-9, lo=lo, q=q, info=info)
    for k in (0, 1, 2, rng.randrange(3, 12)):
        ctx.close(d.kplusreach(k, q), 1 - sum(thin(ref, q, j) for j in range(k)),
                  "P(k or more shown)", rel=1e-6, abs_=1e-9, k=k, q=q, info=info)
    mat = np.asarray(d.knreach(np.array([0, 1, 3]), np.array([1, 2, 5]), q))
    for i, k in enumerate((0, 1, 3)):
        for j, m in enumerate((1, 2, 5)):
            ctx.close(mat[i, j], ref[m] * stats.binom.pmf(k, m, q), "P(inventory n, k shown)",
                      rel=1e-6, abs_=1e-10, k=k, n=m, q=q, info=info)
    ctx.raises(RuntimeError, lambda: d.kreach([0, 2, 1], 0.5), "non-consecutive k")
    ctx.equal(len(d.kreach([], 0.5)), 0, "empty k")
    ctx.seen("kgp", round(al, 6), round(be, 6), n)


def curve_kgp(ctx, rng, nprng):
    ctx.event("curve_kgp")
    c, pt, info = curves.kgp_injected(rng, nprng)
    N = info["mN"]
    ref = kgp_pmf(info["malpha"], info["mbeta"], info["a"])
    imax = N * sum(i * x for i, x in enumerate(ref))
    for x in [0, info["I"], rng.uniform(0, imax), imax, 3 * imax]:
        F = rng.choice([1, 2, 5, 9])
        q = min(1.0, x / imax)
        p = c.by_impressions([x], max_frequency=F)
        want, below = [], thin(ref, q, 0)
        for k in range(1, F + 1):
            want.append(N * (1 - below))
            below += thin(ref, q, k)
        ctx.close_list([p.reach(k) for k in range(1, F + 1)], want,
                       "k-inflated curve is not N*P(k or more shown)", rel=1e-6, abs_=1e-6 * N,
                       x=x, info=info)
    ctx.close(c.max_reach, N, "maximum reach", rel=1e-12)
    ctx.seen("kgpc", info["I"], tuple(info["kplus"]))


def exp_poisson(ctx, rng, nprng):
    """Closed forms of the exponential-Poisson bootstrap agree with each other."""
    ctx.event("exp_poisson")
    m = KInflatedGammaPoissonModel([POINT])
    N, be = rng.uniform(100, 1e5), math.exp(rng.uniform(-1.5, 2.5))
    imax = N * (1 + be)
    q = rng.uniform(0.05, 0.9)
    I = q * imax
    want = gp_kplus(N, q, 1.0, be, 1)[0]
    R = m._exponential_poisson_reach(I, N, be)
    info = {"N": N, "beta": be, "q": q}
    ctx.close(R, want, "exponential-Poisson reach", rel=1e-9, info=info)
    ctx.close(m._exponential_poisson_reach(2 * imax, N, be), N, "reach beyond the inventory", rel=1e-9)
    ctx.close(m._exponential_poisson_beta(I, N, R), be, "beta from (I, N, R)", rel=1e-5, info=info)
    if I > R + 1:
        ctx.close(m._exponential_poisson_N_from_beta(I, R, be), N, "N from (I, R, beta)", rel=1e-6,
                  info=info)
        s = rng.uniform(1.05, 3)
        n2 = m._exponential_poisson_N(I, R, s)
        b2 = s * I / R - 1  # the mean is s times the observed one
        ctx.close(n2, m._exponential_poisson_N_from_beta(I, R, b2), "N from the scaled mean", rel=1e-6,
                  info=info, s=s)
    ctx.raises(ValueError, lambda: m._exponential_poisson_N(I, R, 0.9), "scale factor below 1")
    ctx.seen("ep", round(N), round(be, 5))


def dirac(ctx, rng, nprng):
    ctx.event("dirac")
    lam = rng.choice([0.0, 0.01, 1.0, 7.5, 40.0, rng.uniform(0, 10)])
    F = rng.choice([1, 2, 3, 10])
    v = Dirac.truncated_poisson_pmf_vec(lam, F)
    want = [stats.poisson.pmf(k, lam) for k in range(F)]
    ctx.close_list(v, want + [1 - sum(want)], "truncated Poisson", rel=1e-9, abs_=1e-9, lam=lam, F=F)
    h = np.array([rng.choice([0, 1, 50, rng.randrange(1000)]) for _ in range(rng.randrange(2, 8))])
    if sum(h) == 0:
        h[0] = 3
    nc = rng.choice([5, 20, 50])
    keep = h.copy()
    o = Dirac(h, ncomponents=nc)
    comp = np.asarray(o.components)
    ctx.check(len(comp) >= 1 and np.all(np.diff(np.sort(comp)) >= 0) and comp.min() >= 0
              and comp.max() <= len(h) + 1, "components outside [0, max frequency + 1]", h=h,
              components=comp)
    ctx.check(np.array_equal(h, keep), "histogram modified")
    pmf = h / sum(h)
    for f in range(len(h)):
        want_n = round(nc * pmf[f])
        got_n = int(np.sum((comp >= f) & (comp < f + 1)))
        # the last intervals absorb rounding, so only a full deficit is wrong
        if f < len(h) - 1 and want_n and got_n == 0:
            ctx.check(len(comp) >= nc, "no component where the histogram has mass", h=h, f=f,
                      components=comp)
    mode = rng.random()
    if mode < 0.5:
        try:
            o.fit()
        except Exception:
            ctx.event("solver_failed")  # the model retries with fewer components
            return
        ws = np.asarray(o.ws)
        ctx.check(abs(ws.sum() - 1) < 1e-3 and ws.min() > -1e-3,
                  "weights are not a probability vector", ws=ws, h=h)
    else:  # given weights and components: the prediction formula alone
        o.components = [rng.uniform(0, 8) for _ in range(rng.randrange(1, 6))]
        w = [rng.random() for _ in o.components]
        o.ws = np.array(w) / sum(w)
        o.fitted = True
    for _ in range(3):
        s, F = rng.choice([0, 0.5, 1, 3.0, rng.uniform(0, 20)]), rng.choice([None, 1, 4, 12])
        top = F if F is not None else len(h) - 1
        got = o.predict(s, F) if rng.random() < 0.5 else o.predict(
            scaling_factor=s, customized_max_freq=F)
        want = np.zeros(top + 1)
        for w, c in zip(o.ws, o.components):
            want[:top] += w * stats.poisson.pmf(np.arange(top), c * s)
        want[top] = sum(o.ws) - want[:top].sum()
        ctx.close_list(got, want, "prediction is not the scaled Poisson mixture", rel=1e-7, abs_=1e-9,
                       s=s, F=F, h=h)
    for bad in (np.array([3]), np.array([]), np.array([1, -1, 3]), np.array([0, 0])):
        ctx.raises(ValueError, lambda: Dirac(bad, ncomponents=5), "invalid histogram", h=bad)
    ctx.seen("dirac", tuple(h.tolist()), nc)


def case(ctx):
    rng = ctx.rng
    nprng = np.random.default_rng(ctx.np_seed)
    f = rng.choices([gamma_poisson, curve_gp, kinflated, curve_kgp, exp_poisson, dirac],
                    weights=[5, 2, 5, 4, 5, 5])[0]
    ctx.note(part=f.__name__)
    f(ctx, rng, nprng)
