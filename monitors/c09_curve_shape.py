"""C09: every fitted single-publisher curve has the shape of a reach curve."""

import numpy as np

from monitors import curves

ID = "C09"
RULE = (
    "a case fits one single-publisher model (Goerg, Gamma-Poisson, k-inflated Gamma-Poisson, "
    "Dirac mixture; some with the numerical fit replaced by given parameters) on a simulated "
    "campaign and records its answers to 8-14 impression queries (0 to far beyond the inventory, "
    "shuffled order, mixed max_frequency, repeated queries); the trace oracle checks bounds, "
    "monotonicity, consistency; non-trivial: training reach >= 5, distinct by (model, training "
    "point, queries)"
)
QUICK = 900
THOROUGH = 9000
CASE_CPU_S = 200
REQUIRED = {"query": 3000, "kind_goerg": 20, "kind_gamma_poisson": 20, "kind_kinflated": 20,
            "kind_dirac": 20, "kind_kinflated_f1": 20}
ASSUMPTIONS = ["_fit() is called before querying, as the simulator does"]


def pick(ctx):
    rng = ctx.rng
    u = rng.random()
    if u < 0.03:
        return curves.kgp_fitted
    if u < (0.06 if ctx.thorough else 0.04):
        return curves.gamma_poisson_fitted
    return rng.choice(curves.CHEAP)


def case(ctx):
    rng = ctx.rng
    nprng = np.random.default_rng(ctx.np_seed)
    c, pt, info = pick(ctx)(rng, nprng)
    kind = info["kind"]
    ctx.event("kind_" + kind)
    ctx.note(**info)
    I0 = info["I"]
    slack = info["rounding"]
    bound = info["bound"]
    tol = 1e-6 * max(1.0, bound)
    grid = sorted(set([0, 1, I0, I0 // 2, 2 * I0, 10 * I0, 1000 * I0]
                      + [int(I0 * rng.uniform(0.01, 3)) for _ in range(4)]))
    queries = [(x, rng.choice([1, 2, 3, 5, 10])) for x in grid]
    queries += [(rng.choice(grid), rng.choice([1, 4, 7])) for _ in range(3)]
    rng.shuffle(queries)
    if kind.startswith("gamma"):
        queries = queries[:9]
    answers = []
    for x, F in queries:
        p = c.by_impressions([x], max_frequency=F) if F > 1 or rng.random() < 0.5 else (
            c.by_impressions([x]))
        ctx.event("query")
        ctx.equal(p.max_frequency, F, "number of frequencies reported", x=x, F=F)
        ctx.equal(list(p.impressions), [x], "impressions echoed", x=x)
        r = [float(p.reach(k)) for k in range(1, F + 1)]
        ctx.check(all(np.isfinite(r)), "reach is not a finite number", x=x, reaches=r, **info)
        ctx.check(min(r) >= -tol, "negative reach", x=x, reaches=r, **info)
        ctx.check(r[0] <= bound + tol + slack, "reach exceeds the reachable audience", x=x,
                  reaches=r, bound_=bound, **info)
        for k in range(1, F):
            ctx.check(r[k] <= r[k - 1] + tol, "k+ reach increases with k", x=x, reaches=r, **info)
        if kind != "dirac":  # a Dirac mixture only approximates the contacts
            ctx.check(sum(r) <= x + tol + slack * F + 1e-6 * x,
                      "more contacts than impressions (sum of k+ reach > impressions)",
                      x=x, reaches=r, **info)
        if x == 0:
            ctx.check(r[0] <= tol, "people reached with 0 impressions", reaches=r, **info)
        answers.append((x, r))
    # trace oracle ---------------------------------------------------------
    byx = {}
    for x, r in answers:
        for k, v in enumerate(r):
            if (x, k) in byx:
                ctx.check(abs(byx[(x, k)] - v) <= tol + slack,
                          "k+ reach depends on max_frequency or on earlier queries",
                          x=x, k=k + 1, values=[byx[(x, k)], v], **info)
            byx[(x, k)] = v
    for k in range(10):
        line = sorted((x, v) for (x, kk), v in byx.items() if kk == k)
        for (x1, v1), (x2, v2) in zip(line, line[1:]):
            ctx.check(v2 >= v1 - tol - slack, "k+ reach decreases as impressions increase",
                      k=k + 1, x1=x1, v1=v1, x2=x2, v2=v2, **info)
    ctx.raises(ValueError, lambda: c.by_impressions([1, 2]), "impression vector of length 2")
    ctx.raises(ValueError, lambda: c.by_impressions([]), "empty impression vector")
    ctx.seen(kind, I0, tuple(info["kplus"]), tuple(queries))
