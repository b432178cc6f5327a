"""C21: the error metrics of an evaluation are what their names say."""

import math
import statistics

import numpy as np

from wfa_planning_evaluation_framework.driver.test_point_aggregator import (
    aggregate,
    aggregate_on_exception,
)
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

ID = "C21"
RULE = (
    "a case draws 1-60 pairs of true and modelled reach points (frequencies 1-14, possibly different; "
    "ints and floats; some zero reaches, perfect predictions, huge values), aggregates them and compares "
    "every column with a plain Python computation, jointly permutes the pairs, and compares the shape of "
    "failure rows; non-trivial: >= 2 pairs with an error, distinct by the pairs"
)
QUICK = 2500
THOROUGH = 40000
REQUIRED = {"aggregate": 2500, "metric": 50000, "permuted": 2000, "exception_row": 500,
            "zero_true_reach": 100, "perfect": 150,
            "mixed_frequencies": 300}
ASSUMPTIONS = ["relative metrics are not judged when a true reach is 0"]


def point(rng, F, scale, kind):
    if kind == "int":
        kp = sorted((rng.randrange(1, scale + 1) for _ in range(F)), reverse=True)
    else:
        kp = sorted((rng.random() * scale + 1e-3 for _ in range(F)), reverse=True)
    if rng.random() < 0.3 and F > 1:
        cut = rng.randrange(1, F)
        kp = kp[:cut] + [0] * (F - cut)
    return kp


def quantile(xs, q):
    xs = sorted(xs)
    pos = q * (len(xs) - 1)
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(xs) - 1)
    return xs[lo] + (xs[hi] - xs[lo]) * (pos - lo)


def mean(xs):
    return math.fsum(xs) / len(xs)


def var(xs):
    m = mean(xs)
    return math.fsum((x - m) ** 2 for x in xs) / len(xs)


def shuffle(a, b):
    if len(a) <= 5 or len(b) <= 5:
        return 1.0
    fa = [a[i] - a[i + 1] for i in range(5)]
    fb = [b[i] - b[i + 1] for i in range(5)]
    if sum(fa) == 0 or sum(fb) == 0:
        return 0.5
    return 0.5 * sum(abs(x / sum(fa) - y / sum(fb)) for x, y in zip(fa, fb))


def reference(T, M):
    err = [t[0] - m[0] for t, m in zip(T, M)]
    out = {
        "npoints": len(T), "mean_error": mean(err), "mean_abs_error": mean([abs(e) for e in err]),
        "mean_squared_error": mean([e * e for e in err]), "var_error": var(err),
    }
    sh = [shuffle(t, m) for t, m in zip(T, M)]
    out["mean_shuffle_distance"] = mean(sh)
    out["mean_squared_shuffle_distance"] = mean([s * s for s in sh])
    out["var_shuffle_distance"] = var(sh)
    if all(t[0] > 0 for t in T):
        rel = [e / t[0] for e, t in zip(err, T)]
        out["mean_abs_relative_error"] = mean([abs(r) for r in rel])
        out["mean_squared_relative_error"] = mean([r * r for r in rel])
        out["var_relative_error"] = var(rel)
        for q in range(10, 100, 10):
            out["relative_error_q{}".format(q)] = quantile([abs(r) for r in rel], q / 100.0)
    for k in range(2, 10):
        name = "mare_freq_at_least_{}".format(k)
        if any(len(t) < k for t in T) or any(len(m) < k for m in M):
            out[name] = float("nan")
        elif all(t[k - 1] > 0 for t in T):
            out[name] = mean([abs(t[k - 1] - m[k - 1]) / t[k - 1] for t, m in zip(T, M)])
    return out


def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 10, 60])
    kind = rng.choice(["int", "float"])
    scale = rng.choice([5, 100, 10 ** 7])
    FT, FM = rng.choice([(1, 1), (5, 5), (6, 6), (10, 10), (14, 14), (10, 3), (4, 12), (9, 9), (8, 8)])
    T = [point(rng, FT, scale, kind) for _ in range(n)]
    mode = rng.choice(["random", "random", "near", "perfect"])
    if mode == "perfect" and FT == FM:
        M = [list(t) for t in T]
    elif mode == "near" and FT == FM:
        M = [sorted((x * (1 + rng.uniform(-0.1, 0.1)) for x in t), reverse=True) for t in T]
    else:
        mode = "random"
        M = [point(rng, FM, scale, "float") for _ in range(n)]
    if mode == "random" and rng.random() < 0.4:
        # points whose largest frequencies differ
        T = [point(rng, rng.choice([FT, FT, 1, 3, 7, 11]), scale, kind) for _ in range(n)] \
            if rng.random() < 0.5 else T
        M = [point(rng, rng.choice([FM, FM, 1, 3, 7, 11]), scale, "float") for _ in range(n)]
        ctx.event("mixed_frequencies")
    if rng.random() < 0.1:
        T[rng.randrange(n)] = [0] * FT
        ctx.event("zero_true_reach")
    ctx.note(true=T, modelled=M)

    def rows(T, M):
        with np.errstate(all="ignore"):
            df = aggregate([ReachPoint([10 ** 8], t) for t in T], [ReachPoint([10 ** 8], m) for m in M])
        ctx.equal(len(df), 1, "one row")
        return df

    df = rows(T, M)
    ctx.event("aggregate")
    row = df.iloc[0].to_dict()
    ctx.equal(int(row["model_succeeded"]), 1, "success flag")
    ctx.equal(str(row["model_exception"]), "None", "no exception")
    ref = reference(T, M)
    top = max(max(t[0], m[0]) for t, m in zip(T, M))
    for k, v in ref.items():
        ctx.check(k in row, "metric missing: " + k)
        scale_ = top * top if k in ("mean_squared_error", "var_error") else (
            top if k in ("mean_error", "mean_abs_error") else 1.0)
        ctx.close(row[k], v, "metric " + k, rel=1e-7, abs_=1e-10 * max(scale_, 1.0), true=T, modelled=M)
        ctx.event("metric")
    if mode == "perfect" and all(t[0] > 0 for t in T):
        ctx.event("perfect")
        for k in ("mean_error", "mean_abs_error", "mean_squared_error", "mean_abs_relative_error",
                  "relative_error_q90", "var_error"):
            ctx.equal(float(row[k]), 0.0, "a perfect prediction has no error: " + k)
    if mode != "perfect" and n >= 2:
        ctx.seen(repr(T), repr(M))
    perm = rng.sample(range(n), n)
    row2 = rows([T[i] for i in perm], [M[i] for i in perm]).iloc[0].to_dict()
    ctx.event("permuted")
    for k in ref:
        ctx.close(row2[k], row[k], "metric depends on the order of test points: " + k, rel=1e-6,
                  abs_=1e-9 * max(1.0, top * top))
    if rng.random() < 0.5:
        msg = rng.choice(["boom", "a,b\n\"c\"", ""])
        e = aggregate_on_exception(msg)
        ctx.event("exception_row")
        ctx.equal(list(e.columns), list(df.columns), "failure rows have the same columns")
        ctx.equal(len(e), 1, "one failure row")
        r = e.iloc[0].to_dict()
        ctx.equal((int(r["model_succeeded"]), r["model_exception"]), (0, msg), "failure flag and message")
        for k in ref:
            ctx.check(isinstance(r[k], float) and math.isnan(r[k]), "failure metrics are missing values",
                      column=k, value=r[k])
