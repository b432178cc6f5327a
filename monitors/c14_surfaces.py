"""C14: multi-publisher reach surfaces combine the publishers consistently."""

import functools
import itertools

import numpy as np

from monitors.curves import GoergModel, ReachPoint
from wfa_planning_evaluation_framework.models.generalized_mixture_reach_surface import (
    GeneralizedMixtureReachSurface,
)
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import (
    PairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
    RestrictedPairwiseUnionReachSurface,
)

ID = "C14"
RULE = (
    "a case draws 2-5 publisher curves, true overlap parameters and training points (exact or "
    "noisy), really fits one surface (pairwise union, restricted pairwise union, generalized "
    "mixture) and records its answers for single publishers, pairs and all publishers, at growing "
    "impressions and by spend; the oracle checks bounds, monotonicity, the surface formula and the "
    "recovery of exact training data; non-trivial: >= 2 publishers with overlap, distinct by "
    "(surface, publishers, training points)"
)
QUICK = 200
THOROUGH = 2500
CASE_CPU_S = 300
REQUIRED = {"kind_pairwise": 50, "kind_restricted": 15, "kind_mixture": 25, "query": 4000,
            "recovered": 40}
ASSUMPTIONS = ["publisher curves are Goerg curves (their shape is C09/C10)"]


def reaches(cs, x):
    return [c.max_reach * xi / (xi + c.max_reach) for c, xi in zip(cs, x)]


def pair_formula(a, m, r):
    p = len(r)
    return sum(r) - sum(a[i][j] * r[i] * r[j] / max(m[i], m[j])
                        for i in range(p) for j in range(i + 1, p))


def mix_formula(a, N, r):
    p, c = len(a), len(a[0])
    return N * sum(1 - np.prod([1 - a[i][j] * r[i] / N for i in range(p)]) for j in range(c))


def custom_surface(ctx, rng, cs, m, cpi, pts):
    asked = []

    class Custom(ReachSurface):
        def by_impressions(self, impressions, max_frequency=1):
            asked.append((list(impressions), max_frequency))
            return ReachPoint(impressions, [1.0] * max_frequency)

    cust = Custom(pts)
    cust._reach_curves = cs
    F = rng.choice([None, 1, 2, 5])
    y = [rng.choice([0, rng.uniform(1, 3 * mi), rng.uniform(1e-4, 1)]) for mi in m]
    money = [yi * ci for yi, ci in zip(y, cpi)]
    cust.by_spend(money) if F is None else cust.by_spend(money, F)
    ctx.equal(len(asked), 1, "one spend question is one impressions question")
    ctx.close_list(asked[0][0], y, "impressions bought on a custom surface", rel=1e-9)
    ctx.equal(asked[0][1], F or 1, "frequency asked for")
    ctx.close_list(cust.get_reach_vector(y), reaches(cs, y), "reach vector of the publishers",
                   rel=1e-9, abs_=1e-9)


def case(ctx):
    rng = ctx.rng
    nprng = np.random.default_rng(ctx.np_seed)
    kind = rng.choices(["pairwise", "restricted", "mixture"], weights=[5, 2, 3])[0]
    p = rng.choice([2, 3, 3, 4, 5] if kind != "restricted" else [2, 2, 3, 3, 4])
    if kind != "restricted" and rng.random() < 0.1:
        p = rng.randrange(6, 10)
    ctx.event("kind_" + kind)
    cs, m, cpi = [], [], []
    for i in range(p):
        # the restricted fit stops on absolute improvements: small audiences are affordable
        I = rng.randrange(60, 400) if kind == "restricted" else rng.randrange(500, 20000)
        R = int(I * rng.uniform(0.1, 0.8))
        price = rng.choice([0.1, 0.01, 2.0])
        cs.append(GoergModel([ReachPoint([I], [R], [I * price])]))
        m.append(I * R / (I - R))
        cpi.append(price)
    # true parameters -------------------------------------------------------
    C = None
    if kind == "pairwise":
        a = nprng.random((p, p))
        a = np.triu(a, 1)
        a = a + a.T
        a *= rng.uniform(0.2, 1.0) / max(a.sum(axis=0))
        truth = lambda r: pair_formula(a, m, r)
    elif kind == "restricted":
        lbd = nprng.random(p)
        if rng.random() < 0.15 and p <= 3:  # one publisher may have a factor above 1
            lbd *= 0.2
            lbd[rng.randrange(p)] = rng.uniform(1.2, 3)
        while max(l * (lbd.sum() - l) for l in lbd) > 1:
            lbd *= 0.9
        a = np.outer(lbd, lbd) / 2
        truth = lambda r: pair_formula(a, m, r)
    else:
        C = rng.choice([1, 2, 3, 4])
        a = nprng.dirichlet(np.ones(C) / rng.choice([1, 3]), size=p)
        truth = lambda r: mix_formula(a, 2 * max(m), r)
    n = rng.choice([p * p, p * p + 5, 2 * p * p])
    if kind == "restricted":
        n = rng.choice([p + 1, p + 3])
    elif rng.random() < 0.1:
        n = rng.choice([1, 2])
    exact = rng.random() < 0.7
    # data with far more overlap than a surface can express: its bounds must bind
    extreme = not exact and rng.random() < 0.6
    pts, xs = [], []
    absent = rng.choice([0.15, 0.15, 0.4])
    for k in range(n):
        x = [0 if rng.random() < absent else rng.randrange(1, int(3 * mi) + 2) for mi in m]
        if kind == "restricted" and sum(v > 0 for v in x) < 2:
            x = [v or 100 for v in x]
        if sum(x) == 0:
            x[0] = 10
        r = reaches(cs, x)
        t = truth(r)
        if not exact:
            t = min(max(t * rng.uniform(0.9, 1.1), max(r)), sum(r))
            if extreme:
                t = max(r) * rng.uniform(1.0, 1.05)
        xs.append(x)
        pts.append(ReachPoint(list(x), [t]))
    info = {"kind": kind, "p": p, "n": n, "m": m, "a": np.asarray(a).tolist(), "C": C,
            "exact": exact, "extreme": extreme}
    ctx.note(**info)
    if extreme:
        ctx.event("bounds_bind")
    snap = [(list(q.impressions), q.reach()) for q in pts]

    def build(seed):
        np.random.seed(seed)
        if kind == "pairwise":
            s = PairwiseUnionReachSurface(cs, pts)
        elif kind == "restricted":
            s = RestrictedPairwiseUnionReachSurface(cs, pts)
            if hasattr(s, "_define_criteria"):  # fewer restarts than the default 1000
                s._define_criteria = functools.partial(s._define_criteria, max_num_init=32)
        else:
            s = GeneralizedMixtureReachSurface(cs, pts, num_clusters=C)
        s._fit()
        return s

    s = build(rng.randrange(2 ** 31))
    ctx.equal([(list(q.impressions), q.reach()) for q in pts], snap, "training points modified")

    def ask(x):
        q = s.by_impressions(list(x))
        ctx.event("query")
        ctx.equal(list(q.impressions), list(x), "impressions echoed")
        v = float(q.reach())
        r = reaches(cs, x)
        tol = 1e-4 * max(1.0, sum(r))
        ctx.check(np.isfinite(v), "reach is not finite", x=x, info=info)
        ctx.check(v <= sum(r) + tol, "union reach exceeds the sum of the publishers' reaches",
                  x=x, reach=v, r=r, info=info)
        ctx.check(v >= max(r) - tol, "union reach below the largest publisher's reach",
                  x=x, reach=v, r=r, info=info)
        return v

    # single publishers and pairs -------------------------------------------
    base = [rng.randrange(1, int(2 * mi) + 2) for mi in m]
    rb = reaches(cs, base)
    for i in range(p):
        x = [base[j] if j == i else 0 for j in range(p)]
        ctx.check(abs(ask(x) - rb[i]) <= 1e-3 * rb[i] + 1e-6,
                  "one publisher alone does not have its own reach", i=i, x=x, info=info)
    ctx.check(abs(ask([0] * p)) <= 1e-6, "people reached without impressions", info=info)
    est = np.zeros((p, p))
    for i, j in itertools.combinations(range(p), 2):
        x = [base[k] if k in (i, j) else 0 for k in range(p)]
        v = ask(x)
        est[i, j] = est[j, i] = (rb[i] + rb[j] - v) * max(m[i], m[j]) / (rb[i] * rb[j])
        if kind != "mixture":
            # the overlap of two publishers is proportional to both reaches
            y = [int(base[k] * rng.uniform(0.2, 3)) + 1 if k in (i, j) else 0 for k in range(p)]
            ry = reaches(cs, y)
            want = pair_formula(est, m, [ry[k] if k in (i, j) else 0.0 for k in range(p)])
            ctx.check(abs(ask(y) - want) <= 1e-4 * max(1, sum(ry)),
                      "overlap of two publishers is not a*r_i*r_j/max(m_i,m_j)", x=y, info=info)
    if kind != "mixture":
        tol = 1e-3
        # restricted: lbd_i * (sum(lbd) - lbd_i) <= 1 and coefficients lbd_i * lbd_j / 2
        cap = 0.5 if kind == "restricted" else 1.0
        ctx.check(est.min() >= -tol and est.sum(axis=0).max() <= cap + tol,
                  "overlap coefficients out of their bounds", est=est, info=info)
        if kind == "restricted" and p >= 4:
            ctx.check(abs(est[0, 1] * est[2, 3] - est[0, 2] * est[1, 3]) <= 1e-3,
                      "overlap coefficients are not a product of publisher factors", est=est,
                      info=info)
        for _ in range(6):
            y = [rng.choice([0, rng.randrange(1, int(5 * mi) + 2)]) for mi in m]
            ry = reaches(cs, y)
            want = pair_formula(est, m, ry)
            ctx.check(abs(ask(y) - want) <= 1e-4 * max(1, sum(ry)),
                      "union reach is not the pairwise formula", x=y, want=want, info=info)
    else:
        # clusters partition every publisher: N, C fixed by the constructor
        A = np.asarray(s.a).reshape(p, C)
        ctx.check(A.min() >= -1e-4 and np.abs(A.sum(axis=1) - 1).max() <= 1e-4,
                  "cluster shares are not a partition", a=A, info=info)
        for _ in range(6):
            y = [rng.choice([0, rng.randrange(1, int(5 * mi) + 2)]) for mi in m]
            ry = reaches(cs, y)
            want = mix_formula(A, 2 * max(m), ry)
            ctx.check(abs(ask(y) - want) <= 1e-4 * max(1, sum(ry)),
                      "union reach is not the mixture formula", x=y, want=want, info=info)
    # monotone in every publisher --------------------------------------------
    x = list(base)
    last = ask(x)
    for _ in range(6):
        i = rng.randrange(p)
        x = list(x)
        x[i] += rng.randrange(1, int(m[i]) + 2)
        v = ask(x)
        ctx.check(v >= last - 1e-4 * max(1.0, last), "reach decreases when impressions are added",
                  x=x, before=last, after=v, info=info)
        last = v
    # by spend ----------------------------------------------------------------
    for _ in range(3):
        y = [rng.choice([0, rng.uniform(1, 3 * mi), rng.uniform(1e-4, 1)]) for mi in m]
        q = s.by_spend([yi * ci for yi, ci in zip(y, cpi)])
        ctx.close(q.reach(), ask(y), "by_spend differs from by_impressions of the same money",
                  rel=1e-6, abs_=1e-6, y=y, info=info)
        ctx.close_list(q.impressions, y, "impressions bought", rel=1e-9)
    # any other surface built on the same base class buys the same impressions
    if hasattr(s, "_reach_curves"):
        custom_surface(ctx, rng, cs, m, cpi, pts)
    # training ----------------------------------------------------------------
    err = max(abs(ask(xk) - q.reach()) / max(1.0, sum(reaches(cs, xk))) for xk, q in zip(xs, pts))
    ctx.event("training_checked")
    if exact:
        limit = 1e-5 if C == 1 else LIMIT[kind]
        ctx.check(err <= limit, "exact training data not reproduced", err=err, info=info)
        ctx.event("recovered")
    sse = lambda f: sum((f(xk) - q.reach()) ** 2 for xk, q in zip(xs, pts))
    if kind == "pairwise":
        total = sum(q.reach() ** 2 for q in pts)
        ctx.check(sse(ask) <= sse(lambda xk: truth(reaches(cs, xk))) + 1e-5 * total,
                  "the fit is worse than the overlap that generated the data", info=info)
    # same data, other random state -> same surface ------------------------------
    if kind == "pairwise" or rng.random() < 0.4:
        s1, s2 = ask(base), None
        s2 = float(build(rng.randrange(2 ** 31)).by_impressions(list(base)).reach())
        ctx.check(abs(s1 - s2) <= 1e-9 * max(1, s1), "refitting gives another surface", a1=s1, a2=s2,
                  info=info)
        ctx.event("refit")
    ctx.raises(ValueError, lambda: PairwiseUnionReachSurface(
        cs, pts + [ReachPoint([1] * (p + 1), [1])]), "training points of different dimensions")
    ctx.seen(kind, p, repr(snap))


# largest errors measured: pairwise 2e-4, restricted 5e-3, mixture 0.11 (its
# alternating fit stops early and only promises a local optimum)
LIMIT = {"pairwise": 0.01, "restricted": 0.02, "mixture": 0.3}
