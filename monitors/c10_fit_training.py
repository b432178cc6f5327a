"""C10: a fitted curve passes through the observation it was fitted on."""

import copy

import numpy as np

from monitors import curves
from monitors.curves import (
    DiracMixtureSinglePublisherModel, GammaPoissonModel, GoergModel,
    KInflatedGammaPoissonModel, ReachPoint)

ID = "C10"
RULE = (
    "a case draws a campaign observation (simulated, or the expectation of a known Gamma-Poisson "
    "audience), fits a single-publisher model on it for real and compares the curve with the "
    "observation at every trained frequency (Goerg: with the closed form at every query), refits "
    "under another global random state and after other models, and offers invalid observations; "
    "non-trivial: reach >= 5 and impressions > reach, distinct by (model, observation)"
)
QUICK = 700
THOROUGH = 6000
CASE_CPU_S = 400
CASE_WALL_S = 500
REQUIRED = {"fit_goerg": 100, "fit_kinflated_f1": 100, "fit_kinflated": 10,
            "fit_gamma_poisson": 10, "fit_dirac": 15, "rejected_invalid_input": 1000}
ASSUMPTIONS = [
    "tolerances of the numerical fits (3% of the reach, 10% for a Gamma-Poisson fit with unknown "
    "audience) are 5-10 times the largest error measured over several hundred fits",
]


def clean_point(rng):
    """Expected observation of a Gamma-Poisson audience (rounded to persons)."""
    N = rng.choice([1000, 5000, 20000])
    al, be, q = rng.uniform(0.5, 3), rng.uniform(0.5, 3), rng.uniform(0.1, 0.5)
    F = rng.choice([3, 4, 6])
    I = round(N * q * (1 + al * be))
    kp = [round(x) for x in curves.gp_kplus(N, q, al, be, F)]
    cpi = rng.choice([0.1, 0.004, 3.0])
    return ReachPoint([I], kp, [I * cpi], 2 * N), dict(
        N=N, alpha=al, beta=be, q=q, I=I, kplus=kp, F=F)


def snapshot(p):
    return (list(p.impressions), [p.reach(k) for k in range(1, p.max_frequency + 1)],
            list(p.spends) if p.spends else None)


def compare(ctx, c, pt, info, tol1, tol):
    F = pt.max_frequency
    I = pt.impressions[0]
    got = [float(c.by_impressions([I], max_frequency=F).reach(k)) for k in range(1, F + 1)]
    want = [pt.reach(k) for k in range(1, F + 1)]
    R = max(1.0, want[0])
    ctx.check(abs(got[0] - want[0]) <= tol1 * R + 1e-6,
              "1+ reach at the observed impressions is not the observed reach",
              got=got, want=want, **info)
    for k in range(F):
        ctx.check(abs(got[k] - want[k]) <= tol * R + 1e-6,
                  "k+ reach at the observed impressions is not the observed k+ reach",
                  k=k + 1, got=got, want=want, **info)
    return got


def invalid(ctx, rng):
    """Observations no model may accept."""
    I = rng.randrange(1, 5000)
    spend = [I * 0.1]
    zero = ReachPoint([0], [0], [0.0], 100)
    multi = ReachPoint([I, I], [min(I, 50)], None, 10000)
    ok = ReachPoint([10 * I], [I], [1.0], 10000)
    over = ReachPoint([I], [I + rng.randrange(1, 50)], spend, 100000)
    equal = ReachPoint([I], [I], spend, 100000)
    for cls in (GoergModel, GammaPoissonModel, KInflatedGammaPoissonModel,
                DiracMixtureSinglePublisherModel):
        n = cls.__name__
        ctx.raises((ValueError, IndexError), lambda: cls([]), "no observation", model=n)
        ctx.raises(ValueError, lambda: cls([ok, ok]), "two observations", model=n)
        ctx.raises(ValueError, lambda: cls([zero]), "0 impressions", model=n)
        ctx.raises(ValueError, lambda: cls([over]), "more people than impressions", model=n, I=I)
    for cls in (GoergModel, GammaPoissonModel):
        ctx.raises(ValueError, lambda: cls([multi]), "two publishers", model=cls.__name__)
    ctx.raises(ValueError, lambda: GoergModel([equal]), "as many people as impressions", I=I)
    ctx.raises(ValueError, lambda: DiracMixtureSinglePublisherModel(
        [ReachPoint([10 * I], [I], [1.0])]), "unknown universe size")


def case(ctx):
    rng = ctx.rng
    nprng = np.random.default_rng(ctx.np_seed)
    invalid(ctx, rng)
    u = rng.random()
    heavy = 1.0 if not ctx.thorough else 1.5
    if u < 0.04 * heavy:
        kind = "kinflated"
    elif u < 0.09 * heavy:
        kind = "gamma_poisson"
    elif u < 0.095 * heavy:
        kind = "gamma_poisson_free" if ctx.thorough else "gamma_poisson"
    elif u < 0.17:
        kind = "dirac"
    elif u < 0.6:
        kind = "goerg"
    else:
        kind = "kinflated_f1"
    ctx.event("fit_" + kind)

    if kind in ("goerg", "kinflated_f1"):
        pt, info = curves.training_point(rng, nprng, F=1 if kind != "goerg" else None)
    else:
        pt, info = clean_point(rng)
    info["kind"] = kind
    I, R = info["I"], info["kplus"][0]
    ctx.note(**info)
    before = snapshot(pt)

    if kind == "goerg":
        make = lambda: GoergModel([pt])
        c = make()
        rho = I * R / (I - R)
        ctx.close(c.max_reach, rho, "Goerg maximum reach is not I*R/(I-R)", rel=1e-9, **info)
        for x in [0, 1, I, rng.randrange(1, 10 * I), rng.randrange(1, 2 * I) + 0.5]:
            F = rng.choice([1, 2, 5, 12])
            p = c.by_impressions([x], max_frequency=F)
            ctx.close_list([p.reach(k) for k in range(1, F + 1)],
                           [rho * (x / (x + rho)) ** k for k in range(1, F + 1)],
                           "Goerg curve is not rho*(x/(x+rho))^k", rel=1e-9, x=x, **info)
        compare(ctx, c, pt.__class__([I], [R]), info, 1e-9, 1e-9)
    elif kind == "kinflated_f1":
        # keep the mean inventory far from the model's largest frequency (1000)
        mult = rng.choice([1.0, 1.0, 2.0, 3.0])
        if rng.random() < 0.1:  # everybody reached exactly once
            pt = ReachPoint([I], [I], [I * 0.1])
            before = snapshot(pt)
        make = lambda: KInflatedGammaPoissonModel([pt], extrapolation_multiplier=mult)
        c = make()
        if rng.random() < 0.3:  # not fitted explicitly: fitted by the first query
            c.by_impressions([rng.choice([I, I // 2 + 1, 2 * I])])
            ctx.event("lazy_fit")
        else:
            c._fit()
            if mult > 1:
                x = int(mult * I * 0.98)
                a, b = c.by_impressions([x // 2]).reach(), c.by_impressions([x]).reach()
                ctx.check(b > a, "the extrapolated curve ends before the requested inventory",
                          mult=mult, **info)
                ctx.event("extrapolated")
        info["mult"] = mult
        compare(ctx, c, pt, info, 1e-4, 1e-4)
    elif kind == "kinflated":
        kmax, mult = rng.choice([0, 1, 3]), rng.choice([1.0, 1.0, 2.0])
        make = lambda: KInflatedGammaPoissonModel(
            [pt], kmax=kmax, extrapolation_multiplier=mult)
        c = make()
        c._fit()
        info.update(kmax=kmax, mult=mult)
        compare(ctx, c, pt, info, 0.03, 0.03)
        ctx.check(c.max_reach >= R - 1e-6, "audience smaller than the observed reach", **info)
    elif kind == "gamma_poisson":
        N = info["N"]
        make = lambda: GammaPoissonModel([pt], max_reach=N)
        c = make()
        c._fit()
        compare(ctx, c, pt, info, 0.02, 0.03)
        ctx.equal(c.max_reach, N, "given maximum reach not kept", **info)
        if rng.random() < 0.5:  # hardly anybody left to reach
            near = R * rng.choice([1.001, 1.004, 1.02])
            d = GammaPoissonModel([pt], max_reach=near)
            d._fit()
            ctx.equal(d.max_reach, near, "given maximum reach not kept", **info)
            ctx.event("near_max_reach")
        if rng.random() < 0.5:
            mult = rng.choice([2.0, 4.0, 8.0])
            d = GammaPoissonModel([pt], max_reach=N * 2, extrapolation_multiplier=mult)
            d._fit()
            x = mult * I * 0.95
            a, b = float(d.by_impressions([x * 0.9]).reach()), float(d.by_impressions([x]).reach())
            ctx.check(b > a, "the extrapolated curve ends before the requested inventory",
                      mult=mult, a=a, b=b, **info)
            ctx.event("extrapolated")
    elif kind == "gamma_poisson_free":
        make = None
        c = GammaPoissonModel([pt])
        c._fit()
        compare(ctx, c, pt, info, 0.03, 0.10)
        ctx.check(R - 1e-6 <= c.max_reach <= 100 * R + 1e-6, "audience out of bounds",
                  max_reach=c.max_reach, **info)
    else:
        nc = rng.choice([60, 100, 150])
        make = lambda: DiracMixtureSinglePublisherModel([pt], ncomponents=nc)
        c = make()
        info["ncomponents"] = nc
        compare(ctx, c, pt, info, 0.04, 0.04)

    ctx.equal(snapshot(pt), before, "fitting modified the observation", **info)
    # the histogram a fit works on is the one of the observation, empty buckets included
    kp = sorted((rng.randrange(rng.choice([1, 5, 500])) for _ in range(rng.choice([1, 2, 4, 10]))),
                reverse=True)
    op = ReachPoint([sum(kp) + 5], kp)
    gp = GammaPoissonModel([op], max_reach=kp[0] + 10)
    if hasattr(gp, "_histogram_with_kplus_bucket"):
        ctx.equal([float(x) for x in gp._histogram_with_kplus_bucket(op)],
                  [float(a - b) for a, b in zip(kp, kp[1:])] + [float(kp[-1])],
                  "histogram to be fitted", kplus=kp)
        ctx.event("histogram")
    # a second fit, in another global random state, gives the same curve
    if make is not None and (kind in ("goerg", "kinflated_f1") or rng.random() < 0.25):
        np.random.seed(rng.randrange(2 ** 31))
        np.random.random(rng.randrange(5))
        c1, c2 = make(), make()
        c1._fit()
        c2._fit()
        for x in (I, I // 3 + 1, 2 * I):
            ctx.close_list([float(c1.by_impressions([x], max_frequency=3).reach(k)) for k in (1, 2, 3)],
                           [float(c2.by_impressions([x], max_frequency=3).reach(k)) for k in (1, 2, 3)],
                           "refitting gives another curve", rel=1e-9, x=x, **info)
        ctx.event("refit")
    if R >= 5 and I > R:
        ctx.seen(kind, I, tuple(info["kplus"]))
