"""C08: synthetic data designs are what their configuration says, reproducibly."""

import collections
import os
import random
import warnings

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import event_log
from wfa_planning_evaluation_framework.data_generators import (
    analysis_example_data_design,
    lhs_data_design_example,
    m3_data_design,
    simple_data_design_example,
    single_publisher_design,
)
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import (
    DataSetParameters,
    GeneratorParameters,
)
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import (
    FixedPriceGenerator,
)
from wfa_planning_evaluation_framework.data_generators.synthetic_data_design_generator import (
    SyntheticDataDesignGenerator,
)

ID = "C08"
RULE = (
    "a case writes a random design configuration (1-5 data sets; 1-6 publishers, sizes, ratios, "
    "all impression/overlap generators), generates it in a scratch directory, re-generates it "
    "with the same and another seed and compares the files; or evaluates one of the five shipped "
    "configurations; non-trivial: >= 2 data sets or publishers, distinct by the parameters"
)
QUICK = 480
THOROUGH = 5000
REQUIRED = {"data_set_generated": 300, "same_seed_rerun": 100, "shipped_design": 20,
            "name_pair": 150, "overlap_seed_test": 100}
ASSUMPTIONS = ["the external set generator is replaced by a recording stand-in"]

CONFIG = '''
import numpy as np
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.data_set_parameters import *
from wfa_planning_evaluation_framework.data_generators.fixed_price_generator import *
from wfa_planning_evaluation_framework.data_generators.heavy_tailed_impression_generator import *
from wfa_planning_evaluation_framework.data_generators.heterogeneous_impression_generator import *
from wfa_planning_evaluation_framework.data_generators.homogeneous_impression_generator import *
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import *
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import *
P = DataSetParameters
G = GeneratorParameters
INDEPENDENT = G("Independent", IndependentOverlapDataSet, {"universe_size": 700,
                                                           "random_generator": 1})

def generate_data_design_config(random_generator):
    assert isinstance(random_generator, np.random.Generator)
    return [%s]
'''

SHIPPED = {
    "simple": (simple_data_design_example, 27),
    "lhs": (lhs_data_design_example, 10),
    "m3": (m3_data_design, 100),
    "analysis": (analysis_example_data_design, 72),
    "single": (single_publisher_design, 80),
}


def random_params(rng, n):
    out, specs = [], []
    for k in range(n):
        p = rng.choice([1, 1, 2, 3, 4, 6])
        size = rng.choice([20, 35, 60, 100])
        ratio = rng.choice([0.9, 0.5, 1, 0.2])
        cpi = rng.choice([0.1, 1.0, 0.25])
        imp = rng.choice([
            'G("Homogeneous", HomogeneousImpressionGenerator, {"poisson_lambda": 1.5})',
            'G("Heterogeneous", HeterogeneousImpressionGenerator, '
            '{"gamma_shape": 2.0, "gamma_scale": 0.5})',
            'G("HeavyTailed", HeavyTailedImpressionGenerator, {"zeta_s": 3.0})',
            'G("Once", HomogeneousImpressionGenerator, {"poisson_lambda": 0})',
        ])
        ov = rng.choice([
            'G("FullOverlap", DataSet, {})',
            'G("Independent", IndependentOverlapDataSet, {"universe_size": 500, '
            '"random_generator": 1})',
            'G("Independent", IndependentOverlapDataSet, {"universe_size": 500, '
            '"random_generator": 0})',
            "INDEPENDENT",  # one object serves several data sets
            'G("Sequential", SequentiallyCorrelatedOverlapDataSet, {"order": "original", '
            '"correlated_sets": "all", "shared_prop": 0.5, "random_generator": 1})',
        ])
        named = rng.random() < 0.4
        ident = '"ds{}"'.format(k) if named else '""'
        src = (
            "P(name={}, num_publishers={}, largest_publisher_size={}, "
            "largest_to_smallest_publisher_ratio={}, pricing_generator_params="
            'G("FixedPrice", FixedPriceGenerator, {{"cost_per_impression": {}}}), '
            "impression_generator_params={}, overlap_generator_params={}, id={})"
        ).format(ident, p, size, ratio, cpi, imp, ov, '"{}"'.format(k))
        out.append(src)
        specs.append({"p": p, "size": size, "ratio": ratio, "cpi": cpi,
                      "name": "ds{}".format(k) if named else None, "id": str(k),
                      "full": "FullOverlap" in ov})
    return out, specs


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            path = os.path.join(d, f)
            with open(path) as fh:
                out[os.path.relpath(path, root)] = fh.read()
    return out


def generated(ctx):
    rng = ctx.rng
    srcs, specs = random_params(rng, rng.randrange(1, 4))
    cfg = os.path.join(ctx.tmpdir(), "config.py")
    with open(cfg, "w") as f:
        f.write(CONFIG % ",\n".join(srcs))
    seed = rng.choice([0, 1, 2 ** 31, 2 ** 32 - 5, 2 ** 16, rng.randrange(1, 10 ** 6)]) if rng.random() < 0.5 else rng.randrange(1, 10 ** 6)

    def run(sub, s):
        # whatever ran before in this process must not matter
        np.random.seed(rng.randrange(2 ** 31))
        random.seed(rng.random())
        out = os.path.join(ctx.tmpdir(), sub)
        event_log.reset()
        gen = SyntheticDataDesignGenerator(out, cfg, s, False)
        design = gen()
        drawn = [f["ids"] for f in event_log.of_kind("set")]
        return design, snapshot(out), out, drawn

    design, files, out, drawn = run("one", seed)
    ctx.note(specs=specs, seed=seed)
    ctx.equal(design.count, len(specs), "one data set per parameter set")
    names = list(design.names)
    scope = {}
    exec(CONFIG % ",\n".join(srcs), scope)
    ctx.equal(sorted(names), sorted(
        str(x) for x in scope["generate_data_design_config"](np.random.default_rng(0))),
        "data sets are not stored under the names of their parameters", specs=specs)
    for sp in specs:
        if sp["name"]:
            ctx.check(sp["name"] in names, "data set is not stored under its name",
                      names=names, spec=sp)
            nm = sp["name"]
        else:
            hit = [n for n in names if "id=" + sp["id"] in n]
            ctx.equal(len(hit), 1, "data set is not stored under its parameters", names=names)
            nm = hit[0]
        ds = design.by_name(nm)
        ctx.equal(ds.publisher_count, sp["p"], "number of publishers", spec=sp)
        ctx.equal(sorted(x.name for x in ds._data),
                  sorted(str(i + 1) for i in range(sp["p"])), "publisher names")
        bynum = {int(x.name): x for x in ds._data}
        prev = None
        for i in range(sp["p"]):
            n = bynum[i + 1].max_reach
            ideal = sp["size"] * (sp["ratio"] ** (i / (sp["p"] - 1)) if sp["p"] > 1 else 1)
            if i == 0:
                ctx.equal(n, sp["size"], "largest publisher size", spec=sp)
            ctx.check(ideal - i - 1e-6 <= n <= ideal + 1e-6,
                      "publisher sizes do not decay geometrically to ratio * largest",
                      spec=sp, publisher=i + 1, size=n, ideal=ideal)
            if prev is not None:
                ctx.check(n <= prev, "publisher sizes increase", spec=sp)
            prev = n
            pub = bynum[i + 1]
            ctx.close(pub.max_spend, pub.max_impressions * sp["cpi"],
                      "fixed price: max spend != impressions * cpi", rel=1e-9, spec=sp)
        reaches = [x.max_reach for x in ds._data]
        if sp["full"]:
            ctx.equal(ds.maximum_reach, max(reaches), "full overlap: union is the largest", spec=sp)
        ctx.check(max(reaches) <= ds.maximum_reach <= sum(reaches), "union reach bounds", spec=sp)
        ctx.event("data_set_generated")
    _, again, _, _ = run("two", seed)
    ctx.equal(sorted(again), sorted(files), "same seed, different data sets")
    for f in files:
        ctx.check(again[f] == files[f], "same configuration and seed, different data", file=f)
    ctx.event("same_seed_rerun")
    _, other, _, drawn2 = run("three", seed + 1)
    ctx.check(other != files, "different seeds gave identical data", seed=seed)
    # the overlap is drawn with the seed as well
    if drawn:
        _, _, _, drawn3 = run("four", seed + 2)
        ctx.event("overlap_seed_test")
        for a, b, c in zip(drawn, drawn2, drawn3):
            if len(a) >= 10:
                ctx.check(not a == b == c, "different seeds drew the same overlap", seed=seed,
                          ids=a[:20])
    # adding into an existing design directory is refused, nothing is overwritten
    gen = SyntheticDataDesignGenerator(out, cfg, seed + 2, False)
    ctx.raises(ValueError, lambda: gen(), "generating over an existing design")
    ctx.equal(snapshot(out), files, "refused generation changed existing data")
    ctx.seen("gen", repr(specs))


def _variant(rng, base):
    """A parameter set that differs from base in exactly one field."""
    field = rng.choice(["num_publishers", "largest_publisher_size",
                        "largest_to_smallest_publisher_ratio", "pricing_generator_params",
                        "impression_generator_params", "overlap_generator_params", "id"])
    v = getattr(base, field)
    if field in ("num_publishers", "largest_publisher_size"):
        new = v + rng.choice([1, 10, 100])
    elif field == "largest_to_smallest_publisher_ratio":
        new = v * rng.choice([0.5, 0.9, 0.1, 0.999])
    elif field == "id":
        new = v + rng.choice(["1", "a", "_"])
    else:
        params = dict(v.params)
        if params and rng.random() < 0.7:
            k = rng.choice(sorted(params))
            params[k] = (params[k] * rng.choice([0.5, 2, 1.001, 0])
                         if isinstance(params[k], (int, float)) and params[k]
                         else str(params[k]) + "x")
            new = GeneratorParameters(v.name, v.generator, params)
        elif params and rng.random() < 0.5:
            params.pop(rng.choice(sorted(params)))
            new = GeneratorParameters(v.name, v.generator, params)
        else:
            new = GeneratorParameters(v.name + "2", v.generator, params)
    return base._replace(**{field: new}), field


def names(ctx):
    """Unnamed parameter sets have the same name exactly when they are the same."""
    rng = ctx.rng

    def g(kind):
        opts = {
            "price": ["cost_per_impression"],
            "imp": ["poisson_lambda", "gamma_shape", "gamma_scale", "zeta_s"],
            "over": ["universe_size", "order", "correlated_sets", "shared_prop"],
        }[kind]
        keys = rng.sample(opts, rng.randrange(0, len(opts) + 1))
        return GeneratorParameters(
            rng.choice(["A", "Fixed", "Homogeneous", "x"]), None,
            {k: rng.choice([0, 1, 0.5, 0.25, 1e-3, 1e-4, 12345, 1e6, "all", "original"])
             for k in keys})

    base = DataSetParameters(
        "", rng.randrange(1, 30), rng.choice([1, 50, 1000, 10 ** 6, 1e4, 2.5e7]),
        rng.choice([1, 0.5, 0.1, 0.03, 0.01, 1e-3, 1 / 3, 2 / 3]), g("price"), g("imp"),
        g("over"), rng.choice(["", "7", "rep1", "replica=0001,arm=1"]))
    same = base._replace()
    ctx.equal(str(same), str(base), "equal parameters, different names", base=repr(base))
    for _ in range(6):
        other, field = _variant(rng, base)
        if other == base:
            continue
        ctx.check(str(other) != str(base), "different parameter sets share a name",
                  field=field, a=repr(base), b=repr(other), name=str(base))
        ctx.event("name_pair")
    named = base._replace(name="my data set")
    ctx.equal(str(named), "my data set", "a given name is not used")
    ctx.note(base=repr(base))
    ctx.seen("names", str(base))


def shipped(ctx):
    rng = ctx.rng
    key = rng.choice(sorted(SHIPPED))
    module, count = SHIPPED[key]
    seed = rng.randrange(10 ** 6)
    np.random.seed(seed)
    params = list(module.generate_data_design_config(np.random.default_rng(seed)))
    np.random.seed(seed)
    again = list(module.generate_data_design_config(np.random.default_rng(seed)))
    ctx.equal([str(x) for x in params], [str(x) for x in again],
              "shipped design is not reproducible", design=key)
    ctx.equal(len(params), count, "number of data sets in the shipped design", design=key)
    names = [str(x) for x in params]
    ctx.equal(len(set(names)), len(names), "shipped design has colliding data set names",
              design=key)
    for x in params:
        ctx.check("/" not in str(x) and 0 < len(str(x)) < 256, "unusable data set name",
                  name=str(x))
        ctx.check(x.num_publishers >= 1 and x.largest_publisher_size >= 1
                  and 0 < x.largest_to_smallest_publisher_ratio <= 1,
                  "invalid parameters", name=str(x))
        op = x.overlap_generator_params.params
        if "universe_size" in op:
            ctx.check(op["universe_size"] >= x.largest_publisher_size,
                      "universe smaller than the largest publisher", name=str(x))
    if key in ("lhs", "m3"):
        for field, levels in module.LEVELS.items():
            if field == "overlap_generator_params":
                continue
            c = collections.Counter(repr(getattr(x, field)) for x in params)
            for lv in levels:
                ctx.check(abs(c[repr(lv)] - count / len(levels)) < 2,
                          "latin hypercube does not stratify a factor", field=field,
                          counts=dict(c))
    if key in ("simple", "analysis", "single"):
        ctx.equal(len(set(names)), count, "cartesian design is incomplete", design=key)
        # every combination of the values each factor takes
        fields = [f for f in params[0]._fields if f not in ("id", "name")] if hasattr(
            params[0], "_fields") else sorted(f for f in vars(params[0]) if f not in ("id", "name"))
        product = 1
        for f in fields:
            product *= len(set(str(getattr(x, f)) for x in params))
        ctx.equal(product, count, "cartesian design misses combinations", design=key)
    ctx.event("shipped_design")
    ctx.note(design=key, seed=seed, first=names[0])
    ctx.seen("shipped", key, tuple(names))


def global_draws(ctx):
    """A configuration may draw from numpy's global generator (as the Latin hypercube ones do)."""
    rng = ctx.rng
    cfg = os.path.join(ctx.tmpdir(), "config.py")
    with open(cfg, "w") as f:
        f.write(CONFIG % 'P(name="draw-%d" % np.random.randint(10 ** 9), largest_publisher_size=20)')
    seed = rng.choice([0, 1, rng.randrange(10 ** 6)])
    names = []
    for sub in ("one", "two"):
        np.random.seed(rng.randrange(2 ** 31))
        names.append(list(SyntheticDataDesignGenerator(
            os.path.join(ctx.tmpdir(), sub), cfg, seed, False)().names))
    ctx.equal(names[0], names[1], "same configuration and seed, different data sets", seed=seed)
    ctx.event("global_draws")
    ctx.note(seed=seed)


def case(ctx):
    u = ctx.rng.random()
    if u < 0.03:
        global_draws(ctx)
    elif u < 0.2:
        shipped(ctx)
    elif u < 0.35:
        names(ctx)
    else:
        generated(ctx)
