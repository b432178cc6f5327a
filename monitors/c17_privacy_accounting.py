"""C17: every release of the measurement system is charged, exactly."""

import math

from monitors import halo
from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    PrivacyBudget,
    PrivacyTracker,
)

ID = "C17"
RULE = (
    "a case runs a random history of 4-12 measurements (reach, Venn diagram, true reach, refused and "
    "empty ones; random budgets, splits, frequencies) on one or two Halo simulations sharing a privacy "
    "tracker, and after every step compares the tracker with the budgets granted and with the noise "
    "actually added at the noise boundary; non-trivial: >= 3 charged measurements, distinct by the "
    "history of (kind, budget, split)"
)
QUICK = 1200
THOROUGH = 15000
REQUIRED = {"reach": 2000, "venn": 1000, "free": 1000, "venn_empty": 300, "refused": 200,
            "noiser_matched": 4000}
ASSUMPTIONS = [
    "the external noiser library is replaced by a recording stand-in",
    "the label of the noise mechanism of a reach measurement is not judged",
]


def state(t):
    c = t.privacy_consumption
    return c.epsilon, c.delta, list(t.mechanisms)


def case(ctx):
    rng = ctx.rng
    tracker = PrivacyTracker()
    sims = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([1, 2, 3, 4])
        logs = halo.logs(rng, n, max_len=30, min_len=4)
        h, ds, fr, _ = halo.make(rng, logs, tracker=tracker, sketch_size=rng.choice([500, 3000]))
        sims.append((h, logs))
    other = PrivacyTracker()
    h_other, _, _, _ = halo.make(rng, sims[0][1], tracker=other)
    eps = delta = 0.0
    count = 0
    history = []
    for _ in range(rng.randrange(4, 13)):
        h, logs = rng.choice(sims)
        ctx.check(h.privacy_tracker is tracker, "the simulation reports to the tracker it was given")
        n = len(logs)
        kind = rng.choice(["reach", "reach", "venn", "venn", "free", "venn_empty", "refused"])
        budget = PrivacyBudget(rng.choice([0.01, 0.1, 1.0, 3.7, 40.0]),
                               rng.choice([0.0, 1e-9, 1e-5, 0.1]))
        split = rng.choice([0.5, 0.5, 0.25, 0.9, 0.01])
        spends = halo.spend_vector(rng, logs, h.campaign_spends)
        F = rng.choice([1, 2, 5, 10])
        rec = halo.Recorded()
        before = state(tracker)
        info = {"kind": kind, "budget": list(budget), "split": split, "history": history}
        charged = 0
        if kind == "reach":
            h.simulated_reach_by_spend(spends, budget, split, F)
            charged = 1
        elif kind == "venn":
            if not any(spends):
                spends[0] = max(s for _, s in logs[0])
            try:
                h.simulated_venn_diagram_reach_by_spend(spends, budget, split)
                charged = 1
            except RuntimeError:
                kind = "refused"
        elif kind == "venn_empty":
            h.simulated_venn_diagram_reach_by_spend([0.0] * n, budget, split)
        elif kind == "refused":
            ctx.raises(ValueError, lambda: h.simulated_venn_diagram_reach_by_spend(
                spends, budget, split, max_frequency=2), "unsupported frequency")
        else:
            h.true_reach_by_spend(spends, F)
            h.campaign_spends, h.max_spends, h.publisher_count
        ctx.event(kind)
        history.append((kind, budget.epsilon, budget.delta, split))
        noisers = list(rec.noise_by_noiser().values())
        after = state(tracker)
        if not charged:
            ctx.equal(noisers, [], "noise added by a free step", info=info)
            ctx.equal(after, before, "a step that releases nothing must not be charged", info=info)
            continue
        count += 1
        eps += budget.epsilon
        delta += budget.delta
        ctx.close(after[0] - before[0], budget.epsilon, "epsilon charged for one measurement",
                  rel=1e-9, abs_=1e-12 * max(1.0, eps), info=info)
        ctx.close(after[1] - before[1], budget.delta, "delta charged for one measurement",
                  rel=1e-9, abs_=1e-15, info=info)
        ctx.close(after[0], eps, "total epsilon", rel=1e-9, info=info)
        ctx.close(after[1], delta, "total delta", rel=1e-9, abs_=1e-18, info=info)
        # the noise really added is exactly what was granted, in the requested split
        got = sorted(r["epsilon"] for r in noisers)
        want = sorted([budget.epsilon * split, budget.epsilon * (1 - split)])
        ctx.close_list(got, want, "epsilons of the noise really added", rel=1e-9, abs_=0, info=info)
        ctx.event("noiser_matched", len(got))
        # first the reach / the regions get `split`, the remainder goes to the other
        if kind == "reach":
            est = rec.of("estimator_new")[-1]["estimator"]
            ctx.close(est.reach_epsilon, budget.epsilon * split, "epsilon of the reach", rel=1e-9, abs_=0)
            ctx.close(est.frequency_epsilon, budget.epsilon * (1 - split), "epsilon of the frequencies",
                      rel=1e-9, abs_=0)
            ctx.close(est.reach_delta, budget.delta * split, "delta of the reach", rel=1e-9, abs_=1e-18)
            ctx.close(est.frequency_delta, budget.delta * (1 - split), "delta of the frequencies",
                      rel=1e-9, abs_=1e-18)
        elif len([s for s in spends if s]) > 1:
            region = max(noisers, key=lambda r: len(r["values"]))
            ctx.close(region["epsilon"], budget.epsilon * split, "epsilon of the regions", rel=1e-9, abs_=0)
            ctx.check(all(m == "Discrete Laplace" for m in after[2][len(before[2]):]),
                      "mechanism of a Venn measurement", mechanisms=after[2], info=info)
        for r in noisers:
            ctx.check(math.isfinite(r["epsilon"]), "noise must be finite", info=info)
        ctx.equal(after[2][:len(before[2])], before[2], "earlier events stay recorded", info=info)
        ctx.equal(len(after[2]) - len(before[2]), len(noisers), "one recorded event per noising",
                  info=info)
    ctx.equal(state(other), (0.0, 0.0, []), "trackers are independent")
    ctx.note(history=history)
    if count >= 3:
        ctx.seen(repr(history))
