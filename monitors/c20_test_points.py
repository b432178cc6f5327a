"""C20: evaluation points cover the spend range, in the promised number, reproducibly."""

import itertools
import random

import numpy as np
import pyDOE.doe_lhs
from scipy import stats
from scipy.spatial.distance import pdist

from monitors import halo
from wfa_planning_evaluation_framework.driver.grid_test_point_generator import (
    GridTestPointGenerator,
)
from wfa_planning_evaluation_framework.driver.latin_hypercube_random_test_point_generator import (
    LatinHypercubeRandomTestPointGenerator,
)
from wfa_planning_evaluation_framework.driver.uniformly_random_test_point_generator import (
    UniformlyRandomTestPointGenerator,
)

ID = "C20"
RULE = (
    "a case builds a random data set of 1-6 publishers and one test point generator (grid, uniform, "
    "Latin hypercube; random sizes incl. below and above the documented limits), draws the points twice "
    "under different global random states and judges number, range, coverage and reproducibility; "
    "non-trivial: >= 2 publishers, distinct by (generator, options, maximum spends)"
)
QUICK = 2500
THOROUGH = 6000
REQUIRED = {"grid": 150, "uniform": 150, "lhs": 100, "point": 50000, "rerun": 400, "other_seed": 250}
ASSUMPTIONS = ["the Latin hypercube library's distance loop is replaced by an equivalent fast one", "uniformity is tested at p < 1e-9 (fixed by the seed)"]

# The library computes pairwise distances in a Python loop (minutes for 2000 points);
# the same distances from scipy leave its choice of design unchanged.
pyDOE.doe_lhs._pdist = pdist


def case(ctx):
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3, 4, 6])
    logs = halo.logs(rng, n, max_len=20)
    ds = halo.data_set(logs)
    tops = [max(s for _, s in l) for l in logs]
    kind = rng.choice(["grid", "uniform", "lhs"])
    seed = rng.randrange(1 << 30)
    ctx.event(kind)
    opts = {}
    if kind == "grid":
        g = rng.choice([1, 2, 3, 5] if n > 3 else [1, 2, 5, 9, 20])
        if g ** n > 6000:
            g = 2
        opts["grid_size"] = g
        cls, count = GridTestPointGenerator, g ** n
    else:
        small = kind == "lhs"
        if rng.random() < 0.7:
            opts["npoints"] = rng.choice([1, 50, 99, 100, 101, 137, 250] + ([] if small else [3000, 3000, 20000 // n]))
        if rng.random() < 0.5:
            opts["npublishers"] = rng.choice([1, n, 3])
        if rng.random() < 0.5:
            opts["minimum_points_per_publisher"] = rng.choice([0, 1, 40, 120])
        if small and rng.random() < 0.15:
            opts = {"npoints": rng.choice([1999, 2000, 2001, 2600])}
        count = max(opts.get("npoints", 100),
                    opts.get("npublishers", 1) * opts.get("minimum_points_per_publisher", 100), 100)
        if small:
            count = min(count, 2000)
        cls = {"uniform": UniformlyRandomTestPointGenerator,
               "lhs": LatinHypercubeRandomTestPointGenerator}[kind]
    info = {"kind": kind, "opts": opts, "tops": tops, "generator_seed": seed}
    ctx.note(**info)

    def draw(s):
        return [tuple(float(x) for x in p)
                for p in cls(ds, np.random.default_rng(s), **opts).test_points()]

    pts = draw(seed)
    ctx.equal(len(pts), count, "number of test points", info=info)
    ctx.event("point", len(pts))
    for p in pts:
        ctx.equal(len(p), n, "one spend per publisher", info=info)
        ctx.check(all(0 <= x <= t * (1 + 1e-12) for x, t in zip(p, tops)),
                  "test point outside the spend range", p=p, info=info)
    if kind == "grid":
        g = opts["grid_size"]
        want = list(itertools.product(*[[t * i / (g + 1) for i in range(1, g + 1)] for t in tops]))
        for a, b in zip(sorted(pts), sorted(want)):
            ctx.close_list(a, b, "grid point", rel=1e-9, abs_=1e-12, info=info)
    elif kind == "lhs":
        for j, t in enumerate(tops):
            xs = sorted(p[j] / t for p in pts)
            bad = [i for i, x in enumerate(xs)
                   if not (i / count - 1e-9 <= x <= (i + 1) / count + 1e-9)]
            ctx.check(not bad, "each of the equal spend intervals of a publisher has one test point",
                      publisher=j, first=bad[:3], info=info)
    else:
        for j, t in enumerate(tops):
            ks = stats.kstest([p[j] / t for p in pts], "uniform")
            ctx.check(ks.pvalue > 1e-9, "test points are not uniform", publisher=j, p=ks.pvalue, info=info)
    if kind != "grid":
        ctx.check(len(set(pts)) == len(pts), "repeated test points", info=info)
        if n > 1:
            a, b = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
            r = abs(np.corrcoef(a, b)[0, 1])
            ctx.check(r * np.sqrt(len(pts)) < 6.5, "publishers' spends are correlated", r=r, info=info)
    if n > 1:
        ctx.seen(kind, repr(opts), repr(tops))
    if len(pts) <= 600:
        np.random.seed(rng.randrange(1 << 30))
        random.seed(rng.random())
        if rng.random() < 0.5:  # the generator object itself is stateless about the points
            gobj = cls(ds, np.random.default_rng(seed), **opts)
            again = [tuple(float(x) for x in p) for p in gobj.test_points()]
        else:
            again = draw(seed)
        ctx.event("rerun")
        ctx.equal(again, pts, "the same seed must give the same test points", info=info)
        if kind != "grid":
            ctx.event("other_seed")
            ctx.check(draw(seed + 1) != pts, "test points do not depend on the given generator", info=info)
