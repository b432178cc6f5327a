"""C11: spend queries and quantile inversion agree with the impression curve."""

import numpy as np

from monitors import curves, gen
from monitors.curves import GoergModel, ReachPoint
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.models.ground_truth_reach_curve_model import (
    GroundTruthReachCurveModel,
)

ID = "C11"
RULE = (
    "a case takes one fitted curve (4 model families, or the true curve of a random data set), "
    "asks for 6-10 spends and the same money in impressions, and inverts 3-6 reach quantiles; the "
    "oracle re-evaluates the curve around every answer; non-trivial: at least one quantile "
    "answer > 0 or spend answer with reach > 0, distinct by (model, observation, quantiles)"
)
QUICK = 600
THOROUGH = 9000
CASE_CPU_S = 300
REQUIRED = {"spend_query": 1000, "quantile_impressions": 400, "quantile_spend": 200,
            "no_price": 30, "ground_truth": 30, "exact_target": 50, "rejected_invalid_input": 1000}
ASSUMPTIONS = ["reach curves are monotone (C09), so the answer of an inversion is unique"]


def ground_truth(ctx, rng):
    logs = []
    for p in range(rng.choice([1, 2, 3])):
        log = [(rng.randrange(1, 60), round(rng.uniform(0.5, 40), 2))
               for _ in range(rng.randrange(3, 60))]
        logs.append(log)
    ds = DataSet([PublisherData(l, "p{}".format(i)) for i, l in enumerate(logs)], "d")
    i = rng.randrange(len(logs))
    return GroundTruthReachCurveModel(ds, i), len({u for u, _ in logs[i]}), logs[i]


def quantiles(ctx, rng, c, top, info, spend_ok):
    # what is the largest reach the curve can show for an absurd amount?
    qs = [rng.uniform(0.02, 0.9) for _ in range(rng.choice([2, 3]))] + [0.5]
    # dyadic shares of a maximum that make the target a value the curve takes
    exact = [q for q in (0.25, 0.5, 0.75) if info["kind"] == "ground_truth" and (q * top) % 1 == 0
             or info["kind"] == "exact_goerg"]
    qs = exact + qs[:-1] if exact else qs
    for q in qs[:1] if info["kind"] == "gamma_poisson" else qs:
        for name, f, g in (
            ("impressions", c.impressions_at_reach_quantile, c.by_impressions),
            ("spend", c.spend_at_reach_quantile, c.by_spend),
        ):
            if name == "spend" and not spend_ok:
                ctx.raises(ValueError, lambda: f(q), "spend quantile without prices", info=info)
                continue
            try:
                x = f(q)
            except OverflowError:
                # allowed only when the level is really out of reach
                far = g([2 ** 61]).reach()
                ctx.check(far <= q * top * (1 + 1e-9) + 1e-9,
                          "quantile reported unreachable although it is reached",
                          q=q, far=far, top=top, what=name, info=info)
                ctx.event("unreachable")
                continue
            ctx.event("quantile_" + name)
            lo, hi = float(g([x]).reach()), float(g([x + 1]).reach())
            eps = 1e-9 * max(1.0, top)
            ctx.check(x >= 0 and int(x) == x, "quantile answer is not a whole number >= 0",
                      x=x, q=q, info=info)
            ctx.check(lo <= q * top + eps, "reach at the quantile answer exceeds the target",
                      x=x, q=q, reach=lo, target=q * top, what=name, info=info)
            ctx.check(hi > q * top - eps, "one more unit does not exceed the quantile target",
                      x=x, q=q, reach=hi, target=q * top, what=name, info=info)
            if q in exact:  # target and curve values are exact: no tolerance
                ctx.event("exact_target")
                ctx.check(lo <= q * top < hi, "not the largest amount whose reach stays within the "
                          "target", x=x, q=q, reach=lo, above=hi, target=q * top, what=name, info=info)
            ctx.seen(info["kind"], info.get("I"), q, name)
    for bad in (0, 1, -0.5, 1.5, 0.0, 1.0):
        ctx.raises(ValueError, lambda: c.impressions_at_reach_quantile(bad),
                   "quantile outside (0, 1)", q=bad)
        if spend_ok:
            ctx.raises(ValueError, lambda: c.spend_at_reach_quantile(bad),
                       "quantile outside (0, 1)", q=bad)


def case(ctx):
    rng = ctx.rng
    nprng = np.random.default_rng(ctx.np_seed)
    if rng.random() < 0.15:
        c, top, log = ground_truth(ctx, rng)
        ctx.event("ground_truth")
        info = {"kind": "ground_truth", "log": log}
        ctx.note(info=info)
        ctx.equal(c.max_reach, top, "maximum reach of a true curve", log=log)
        for s in gen.probe_spends(rng, [log]):
            n = sum(1 for _, x in log if x <= s)
            ctx.equal(c.impressions_for_spend(s), n, "impressions bought by a spend", s=s, log=log)
            a, b = c.by_spend([s], 3), c.by_impressions([n], 3)
            ctx.equal([a.reach(k) for k in (1, 2, 3)], [b.reach(k) for k in (1, 2, 3)],
                      "by_spend differs from by_impressions of the impressions bought", s=s, log=log)
            ctx.event("spend_query")
        quantiles(ctx, rng, c, top, info, True)
        ctx.raises(ValueError, lambda: c.by_spend([1, 2]), "spend vector of length 2")
        ctx.raises(ValueError, lambda: c.by_impressions([1, 2]), "impressions of length 2")
        return

    if rng.random() < 0.06:
        n = rng.randrange(1, 3000)
        pt = ReachPoint([2 * n], [n], [2.0 * n * 2 ** rng.randrange(-6, 1)])
        info = {"kind": "exact_goerg", "I": 2 * n}
        ctx.note(info=info)
        c = GoergModel([pt])
        quantiles(ctx, rng, c, float(c.max_reach), info, True)
        return

    u = rng.random()
    make = curves.kgp_fitted if u < 0.01 else rng.choice(curves.CHEAP)
    c, pt, info = make(rng, nprng)
    kind = info["kind"]
    ctx.event("kind_" + kind)
    ctx.note(info=info)
    I, cpi = info["I"], info["cpi"]
    if cpi is None:
        ctx.event("no_price")
        ctx.raises(ValueError, lambda: c.by_spend([1.0]), "spend query without prices", info=info)
        ctx.raises(ValueError, lambda: c.impressions_for_spend(1.0),
                   "spend conversion without prices", info=info)
        p = c.by_impressions([I])
        ctx.check(not p.spends, "spend reported without prices", spends=p.spends, info=info)
    else:
        for _ in range(rng.choice([4, 6])):
            s = rng.choice([0.0, I * cpi, I * cpi * rng.uniform(0, 4), rng.uniform(0, 3) * cpi])
            F = rng.choice([1, 2, 3, 6])
            ctx.event("spend_query")
            x = c.impressions_for_spend(s)
            ctx.close(x, s / cpi, "impressions bought by a spend", rel=1e-9, s=s, info=info)
            a, b = c.by_spend([s], F), c.by_impressions([s / cpi], F)
            ctx.equal(a.max_frequency, F, "frequencies of a spend query", s=s, info=info)
            ctx.close_list([float(a.reach(k)) for k in range(1, F + 1)],
                           [float(b.reach(k)) for k in range(1, F + 1)],
                           "by_spend differs from by_impressions of the impressions bought",
                           rel=1e-6, abs_=1e-6 + info["rounding"], s=s, info=info)
            ctx.close_list(a.spends, [s], "spend echoed", rel=1e-9, s=s, info=info)
            ctx.close_list(a.impressions, [s / cpi], "impressions of a spend query", rel=1e-9,
                           s=s, info=info)
            y = int(s / cpi) + rng.randrange(3)
            p = c.by_impressions([y], F)
            ctx.close_list(p.spends, [y * cpi], "spend of an impression query", rel=1e-9, y=y,
                           info=info)
        ctx.raises(ValueError, lambda: c.by_spend([1.0, 2.0]), "spend vector of length 2")
        ctx.raises(ValueError, lambda: c.by_spend([]), "empty spend vector")

    if kind == "dirac":
        try:
            c.impressions_at_reach_quantile(0.5)
        except AttributeError:
            ctx.fail("a Dirac mixture curve has no maximum reach: quantile queries fail with "
                     "AttributeError", key="dirac-no-max-reach")
        return
    top = c.max_reach
    if kind == "gamma_poisson" and rng.random() < 0.75:
        return  # each evaluation is costly
    quantiles(ctx, rng, c, float(top), info, cpi is not None)
