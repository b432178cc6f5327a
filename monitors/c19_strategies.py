"""C19: modelling strategies train on the right measurements, within the budget."""

import math

from monitors import gen, halo
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import (
    PairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.models.reach_curve import ReachCurve
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.planner_simulator import PlannerSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    PrivacyBudget,
    PrivacyTracker,
)
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import (
    SinglePublisherStrategy,
)

ID = "C19"
RULE = (
    "a case fits a multi-publisher or single-publisher strategy on a Halo simulation of 1-6 random "
    "overlapping publishers, with recording models in place of (or real models as) the curve and "
    "surface models, a finite or infinite budget; the recorded training data are compared with a direct "
    "count over the logs and with the privacy really consumed; non-trivial: >= 2 publishers, distinct "
    "by (logs, fractions, strategy, options)"
)
QUICK = 1500
THOROUGH = 15000
REQUIRED = {"m3": 600, "single": 300, "noiseless": 400, "finite": 400, "leave_one_out": 200,
            "ground_truth_curves": 150, "real_models": 100, "rejected_invalid_input": 200}
ASSUMPTIONS = [
    "the external sketch and noiser library is replaced by a recording stand-in with an exact sketch",
]

LOG = []


class RecordingCurve(ReachCurve):
    def __init__(self, data, **kwargs):
        self.data, self.kwargs, self.fitted = list(data), kwargs, 0
        LOG.append(("curve", self))

    def _fit(self):
        self.fitted += 1

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(list(impressions), [1.0] * max_frequency)

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([7], [float(max_frequency) + sum(spends)] + [0.0] * (max_frequency - 1),
                          list(spends))


class RecordingSurface(ReachSurface):
    def __init__(self, reach_curves, reach_points, **kwargs):
        self.curves, self.points, self.kwargs, self.fitted = (
            list(reach_curves), list(reach_points), kwargs, 0)
        LOG.append(("surface", self))

    def _fit(self):
        self.fitted += 1

    def by_impressions(self, impressions, max_frequency=1):
        return ReachPoint(list(impressions), [1.0] * max_frequency)

    def by_spend(self, spends, max_frequency=1):
        return ReachPoint([7] * len(spends),
                          [float(max_frequency) + sum(spends)] + [0.0] * (max_frequency - 1), list(spends))


def adjusted(counts, imps, F):
    kp = gen.kplus(counts, F)
    if sum(imps) <= kp[0]:
        kp = [max(sum(imps) - 1, 1)] + [0] * (F - 1)
    return kp


def expected(logs, spends, F):
    return adjusted(halo.union_counts(logs, spends), halo.impressions(logs, spends), F)


def case(ctx):
    rng = ctx.rng
    del LOG[:]
    single = rng.random() < 0.3
    n = 1 if single else rng.choice([1, 2, 2, 3, 3, 4, 6, 8, 11])
    logs = halo.logs(rng, n, max_len=rng.choice([15, 50]), min_len=3)
    fr = [rng.choice([0.3, 0.7, 1.0, rng.random()]) for _ in logs]
    tracker = PrivacyTracker()
    h, ds, fr, _ = halo.make(rng, logs, fractions=fr, tracker=tracker)
    campaign = list(h.campaign_spends)
    infinite = rng.random() < 0.6
    budget = PrivacyBudget(halo.INF if infinite else rng.choice([0.3, 1.0, 8.0]),
                           rng.choice([0.0, 1e-5]))
    ctx.event("noiseless" if infinite else "finite")
    ckw, skw = rng.choice([{}, {"a": 1}]), rng.choice([{}, {"b": [2]}])
    truth_curves = (not single) and rng.random() < 0.25
    info = {"logs": logs, "fractions": fr, "budget": list(budget), "truth_curves": truth_curves}
    ctx.note(**info)
    params = h.verif_params
    if single:
        strategy = SinglePublisherStrategy(RecordingCurve, ckw, RecordingSurface, skw)
        ctx.event("single")
    else:
        kw = {"use_ground_truth_for_reach_curves": True} if truth_curves else {}
        strategy = M3Strategy(RecordingCurve, ckw, RecordingSurface, skw, **kw)
        ctx.event("m3")
    results = []
    fit = strategy.fit
    strategy.fit = lambda *a, **k: results.append(fit(*a, **k)) or results[-1]
    planner = PlannerSimulator(h, strategy, params, tracker)
    rec = halo.Recorded()
    planner.fit_model(budget)
    used = tracker.privacy_consumption
    if not infinite:
        ctx.check(used.epsilon <= budget.epsilon * (1 + 1e-9) and
                  used.delta <= budget.delta * (1 + 1e-9),
                  "a strategy must not exceed the privacy budget", key="overspend", used=list(used), info=info)
        real = sum(r["epsilon"] for r in rec.noise_by_noiser().values())
        ctx.close(real, used.epsilon, "noise really added is what was charged", rel=1e-9, info=info)
        per = budget.epsilon / (1 if single else 2 * n + 1)
        times = 1 if single else 1 + n + (n if n > 2 else 0)
        ctx.close(used.epsilon, per * times, "epsilon used", rel=1e-9, info=info)
        ctx.close(used.delta, budget.delta / (1 if single else 2 * n + 1) * times, "delta used",
                  rel=1e-9, abs_=1e-18, info=info)
    curves = [o for k, o in LOG if k == "curve"]
    surfaces = [o for k, o in LOG if k == "surface"]
    if truth_curves:
        ctx.equal(curves, [], "no curve is modelled when the true curves are to be used")
    else:
        ctx.equal(len(curves), n, "one curve per publisher")
    # the curves the final model is made of
    ctx.equal(len(results), 1, "the planner fits the strategy once")
    final = results[0]
    if n == 1:
        ctx.equal(len(surfaces), 0, "a single publisher needs no surface")
        used_curves = [final]
    else:
        ctx.equal(len(surfaces), 1, "one surface")
        ctx.check(final is surfaces[0], "the surface is the result")
        used_curves = surfaces[0].curves
        ctx.equal(surfaces[0].kwargs, skw, "surface options")
        ctx.check(surfaces[0].fitted >= 1, "the surface must be fitted")
    ctx.equal(len(used_curves), n, "one curve per publisher in the result")
    F = 20 if single else 10
    for i, c in enumerate(used_curves):
        own = [campaign[j] if j == i else 0.0 for j in range(n)]
        if truth_curves:
            ctx.event("ground_truth_curves")
            s = campaign[i]
            ctx.equal(halo.point_kplus(c.by_spend([s], 3)), gen.kplus(halo.union_counts(logs, own), 3),
                      "true curve of the publisher", publisher=i, info=info)
            continue
        ctx.check(isinstance(c, RecordingCurve), "curve model")
        ctx.equal(c.kwargs, ckw, "curve options")
        ctx.check(c.fitted >= 1, "the curve must be fitted", publisher=i)
        ctx.equal(len(c.data), 1, "one observation per curve")
        d = c.data[0]
        ctx.equal([int(x) for x in d.impressions], [halo.impressions(logs, own)[i]],
                  "impressions of the curve's observation", publisher=i, info=info)
        ctx.close_list(list(d.spends), [campaign[i]], "spend of the curve's observation",
                       rel=1e-12, abs_=0, publisher=i, info=info)
        kp = halo.point_kplus(d)
        ctx.equal(len(kp), F, "frequencies measured per publisher")
        ctx.check(all(a >= b for a, b in zip(kp, kp[1:])) and kp[-1] >= 0, "observation shape", kp=kp)
        if infinite:
            ctx.equal([int(x) for x in kp], expected(logs, own, F),
                      "reach of the curve's observation", publisher=i, info=info)
    if n > 1:
        pts = surfaces[0].points
        want = [tuple(campaign)]
        if n > 2:
            ctx.event("leave_one_out")
            want += [tuple(0.0 if j == i else campaign[j] for j in range(n)) for i in range(n)]
        ctx.equal(sorted(tuple(float(x) for x in p.spends) for p in pts), sorted(want),
                  "allocations the surface is trained on", info=info)
        for p in pts:
            sp = [float(x) for x in p.spends]
            ctx.equal([int(x) for x in p.impressions], halo.impressions(logs, sp),
                      "impressions of a training point", spends=sp, info=info)
            if infinite:
                ctx.equal(int(p.reach(1)), expected(logs, sp, 1)[0], "reach of a training point",
                          spends=sp, info=info)
        ctx.seen(repr(logs), repr(fr), truth_curves, repr(ckw))
    # the planner answers with the fitted model and the truth, respectively
    for _ in range(3):
        s = halo.spend_vector(rng, logs, campaign)
        f = rng.choice([1, 2, 3])
        before = list(tracker.mechanisms)
        if not truth_curves or n > 1:
            m = planner.modeled_reach_by_spend(s, f) if f > 1 else planner.modeled_reach_by_spend(s)
            ctx.close(m.reach(1), f + sum(s), "planner must answer with the fitted model")
        t = planner.true_reach_by_spend(s, f) if f > 1 else planner.true_reach_by_spend(s)
        ctx.equal(halo.point_kplus(t), gen.kplus(halo.union_counts(logs, s), f), "planner's true reach",
                  s=s, info=info)
        ctx.equal(list(tracker.mechanisms), before, "queries after fitting are free")
    if rng.random() < 0.3:  # planning again replaces the model
        planner.fit_model(budget)
        ctx.equal(len(results), 2, "fitting again fits again")
        ctx.event("fitted_again")
        if not truth_curves or n > 1:
            s = halo.spend_vector(rng, logs, campaign)
            seen = []
            results[1].by_spend = lambda *a, **k: seen.append(a) or type(results[1]).by_spend(results[1], *a, **k)
            planner.modeled_reach_by_spend(s)
            ctx.equal(len(seen), 1, "the planner must answer with the model fitted last")
    if n != 1:
        ctx.raises(ValueError, lambda: SinglePublisherStrategy(RecordingCurve, {}, None, {}).fit(
            h, params, budget), "single-publisher strategy with several publishers")
    if infinite and ctx.index % 4 == 0:
        real_models(ctx, h, logs, campaign, single, budget)


def real_models(ctx, h, logs, campaign, single, budget):
    """With real models and no noise the plan reproduces the campaign it was trained on."""
    n = len(logs)
    imps = halo.impressions(logs, campaign)
    own = [expected(logs, [campaign[j] if j == i else 0 for j in range(n)], 1)[0] for i in range(n)]
    if any(not (0 < r < x) for r, x in zip(own, imps)):
        return
    cls = SinglePublisherStrategy if single else M3Strategy
    planner = PlannerSimulator(h, cls(GoergModel, {}, PairwiseUnionReachSurface, {}), h.verif_params,
                               h.privacy_tracker)
    planner.fit_model(budget)
    ctx.event("real_models")
    for i in range(n):
        s = [campaign[j] if j == i else 0.0 for j in range(n)]
        got = planner.modeled_reach_by_spend(s if n > 1 else [campaign[0]]).reach(1)
        ctx.close(got, own[i], "modelled reach of the campaign a publisher was trained on",
                  rel=1e-6, abs_=1e-6, publisher=i, logs=logs)
    if n > 1:
        got = planner.modeled_reach_by_spend(campaign).reach(1)
        ctx.check(max(own) * 0.0 <= got <= sum(own) + 1e-6, "modelled union within the publishers' sum",
                  got=got, own=own)
