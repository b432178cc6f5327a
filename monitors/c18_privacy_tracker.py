"""C18: privacy consumption is the worst case over all users of the sum of what touched them."""

from fractions import Fraction

from wfa_planning_evaluation_framework.simulator.privacy_tracker import (
    DP_NOISE_MECHANISM_DISCRETE_GAUSSIAN,
    DP_NOISE_MECHANISM_DISCRETE_LAPLACE,
    DP_NOISE_MECHANISM_GAUSSIAN,
    DP_NOISE_MECHANISM_LAPLACE,
    NoisingEvent,
    PrivacyBudget,
    PrivacyTracker,
    SamplingBucketIndices,
)

ID = "C18"
RULE = (
    "a case appends 0-14 noising events in random order (whole population, or a sampling interval that "
    "may be tiny, full, touching, nested or wrapping around 1) interleaved with consumption queries, "
    "and compares with an exact rational computation over every user position; non-trivial: >= 2 "
    "partially overlapping intervals, distinct by the events"
)
QUICK = 6000
THOROUGH = 80000
REQUIRED = {"event": 20000, "total": 20000, "bucket": 50000, "wrapping": 3000, "full": 3000}
ASSUMPTIONS = [
    "interval bounds are multiples of 1/64 (exact in floating point), or probed away from the bounds"
]
MECHS = [DP_NOISE_MECHANISM_DISCRETE_GAUSSIAN, DP_NOISE_MECHANISM_DISCRETE_LAPLACE,
         DP_NOISE_MECHANISM_GAUSSIAN, DP_NOISE_MECHANISM_LAPLACE]


def covers(start, rate, x):
    """x in [start, start + rate) modulo 1, exactly."""
    return (Fraction(x) - Fraction(start)) % 1 < Fraction(rate)


def case(ctx):
    rng = ctx.rng
    exact = rng.random() < 0.7
    t, t2 = PrivacyTracker(), PrivacyTracker()
    ctx.equal(tuple(t.privacy_consumption), (0.0, 0.0), "nothing used, nothing consumed")
    evs = []
    for _ in range(rng.randrange(0, 15)):
        eps = rng.choice([0.0, 0.25, 0.5, 1.0, 2.0, rng.random()])
        delta = rng.choice([0.0, 0.0, 2.0 ** -20, 1e-5, rng.random() * 1e-3])
        mech = rng.choice(MECHS)
        kind = rng.choice(["full", "part", "part", "part"])
        if kind == "full":
            ev = NoisingEvent(PrivacyBudget(eps, delta), mech, {})
            start, rate = 0, 1
            ctx.event("full")
        else:
            if exact:
                start = rng.randrange(64) / 64.0
                rate = rng.choice([1.0, rng.randrange(0, 65) / 64.0, 1 / 64.0])
            else:
                start, rate = rng.random(), rng.random()
            if evs and rng.random() < 0.3:
                start = rng.choice(evs)[2]
            ev = NoisingEvent(PrivacyBudget(eps, delta), mech, {"k": 1},
                              SamplingBucketIndices(start, rate))
            if start + rate > 1:
                ctx.event("wrapping")
        t.append(ev)
        evs.append((eps, delta, start, rate, mech))
        ctx.event("event")
        if rng.random() < 0.5:
            judge(ctx, t, evs, exact)
    judge(ctx, t, evs, exact)
    ctx.equal(list(t.mechanisms), [e[4] for e in evs], "mechanisms in order")
    # order does not matter
    for i in rng.sample(range(len(evs)), len(evs)):
        e = evs[i]
        t2.append(NoisingEvent(PrivacyBudget(e[0], e[1]), e[4], {}, SamplingBucketIndices(e[2], e[3])))
    a, b = t.privacy_consumption, t2.privacy_consumption
    ctx.close(a.epsilon, b.epsilon, "consumption depends on the order of events", events=evs)
    ctx.close(a.delta, b.delta, "consumption depends on the order of events", abs_=1e-15, events=evs)
    ctx.note(events=evs)
    if len([e for e in evs if 0 < e[3] < 1]) >= 2:
        ctx.seen(repr(evs))


def judge(ctx, t, evs, exact):
    rng = ctx.rng
    # the sum is piecewise constant; every piece begins at a start or an end
    points = {Fraction(0)}
    for _, _, s, r, _ in evs:
        points.add(Fraction(s) % 1)
        points.add((Fraction(s) + Fraction(r)) % 1)
    best = [0.0, 0.0]
    for x in points:
        inside = [e for e in evs if covers(e[2], e[3], x)]
        best = [max(best[0], sum(e[0] for e in inside)), max(best[1], sum(e[1] for e in inside))]
    got = t.privacy_consumption
    ctx.event("total")
    ctx.close(got.epsilon, best[0], "total epsilon is the worst case over users", rel=1e-9, abs_=1e-12,
              events=evs)
    ctx.close(got.delta, best[1], "total delta is the worst case over users", rel=1e-9, abs_=1e-15,
              events=evs)
    for _ in range(4):
        if exact:
            x = rng.choice([rng.randrange(64) / 64.0, rng.randrange(64) / 64.0 + 1 / 256.0, 0.0, 63 / 64.0])
        else:
            x = rng.random()
            if any(abs(((x - p) % 1)) < 1e-9 for p in map(float, points)):
                continue
        inside = [e for e in evs if covers(e[2], e[3], x)]
        c = t.privacy_consumption_for_sampling_bucket(x)
        ctx.event("bucket")
        ctx.close(c.epsilon, sum(e[0] for e in inside), "epsilon consumed for a user position",
                  abs_=1e-12, x=x, events=evs)
        ctx.close(c.delta, sum(e[1] for e in inside), "delta consumed for a user position",
                  abs_=1e-15, x=x, events=evs)
