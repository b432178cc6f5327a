"""C24: a trial's description identifies it, and adapting it to a data set is pure."""

import copy
import itertools

import numpy as np
import pyDOE.doe_lhs
from scipy.spatial.distance import pdist

from monitors import halo
from wfa_planning_evaluation_framework.driver import (
    analysis_example_experimental_design,
    m3_first_round_experimental_design,
    sample_experimental_design,
    single_publisher_design,
)
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import (
    ModelingStrategyDescriptor,
)
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.models.gamma_poisson_model import GammaPoissonModel
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.kinflated_gamma_poisson_model import (
    KInflatedGammaPoissonModel,
)
from wfa_planning_evaluation_framework.models.pairwise_union_reach_surface import (
    PairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.models.restricted_pairwise_union_reach_surface import (
    RestrictedPairwiseUnionReachSurface,
)
from wfa_planning_evaluation_framework.simulator.m3_strategy import M3Strategy
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.single_publisher_strategy import (
    SinglePublisherStrategy,
)
from wfa_planning_evaluation_framework.simulator.system_parameters import (
    LiquidLegionsParameters,
    SystemParameters,
)

pyDOE.doe_lhs._pdist = pdist  # see c20_test_points

ID = "C24"
RULE = (
    "a case draws a random trial configuration and variants of it that differ in one field, compares "
    "their names pairwise with their configurations, adapts them to random data sets (with and without a "
    "spend-fraction function, repeatedly, in different orders), instantiates the named strategy, or "
    "enumerates one of the four shipped experimental designs; non-trivial: >= 5 variants or a shipped "
    "design, distinct by configuration"
)
QUICK = 2500
THOROUGH = 30000
REQUIRED = {"variant": 20000, "name_compared": 100000, "adapted": 2000, "instantiated": 1000,
            "shipped_trial": 2000, "rejected_invalid_input": 1000}
ASSUMPTIONS = [
    "the hash seed of the sketch, the random generator and the spend-fraction function are not part of a name"
]

SINGLE = {"goerg": GoergModel, "gamma_poisson": GammaPoissonModel,
          "kinflated_gamma_poisson": KInflatedGammaPoissonModel}
MULTI = {"pairwise_union": PairwiseUnionReachSurface,
         "restricted_pairwise_union": RestrictedPairwiseUnionReachSurface, "none": None}
STRATEGY = {"m3strategy": M3Strategy, "single_publisher": SinglePublisherStrategy}
FIELDS = {
    "strategy": [("m3strategy", {}), ("m3strategy", {"use_ground_truth_for_reach_curves": True}),
                 ("m3strategy", {"use_ground_truth_for_reach_curves": False}), ("single_publisher", {})],
    "single": [("goerg", {}), ("gamma_poisson", {}), ("gamma_poisson", {"extrapolation_multiplier": 2.0}),
               ("gamma_poisson", {"extrapolation_multiplier": 0.25}), ("kinflated_gamma_poisson", {}),
               ("kinflated_gamma_poisson", {"extrapolation_multiplier": 2.0}),
               ("goerg", {"debug": False}), ("goerg", {"kmax": 0, "debug": False}),
               ("goerg", {"kmax": None, "debug": False}), ("goerg", {"kmax": 0}), ("goerg", {"kmax": 10}),
               ("goerg", {"kmax": ""})],
    "multi": [("pairwise_union", {}), ("restricted_pairwise_union", {}), ("none", {}), ("none", {"x": 0}),
              ("pairwise_union", {"x": 0, "y": 1}), ("pairwise_union", {"y": 1}), ("pairwise_union", {"y": 10})],
    "fractions": [[0.5], [0.25], [0.5, 0.5], [0.1, 0.2], [0.2, 0.1], [0.1, 0.2, 0.3], [1, 0],
                  [0.30000000000000004], [0.3], [1e-06], [0.12, 0.3], [0.1, 0.23], [0.1] * 12, [0.1] * 13, [0.1] * 11 + [0.2], [0.12345678], [0.12345679]],
    "decay": [12, 10, 1, 2, 17, 12.5, 12.25],
    "sketch": [100000, 1000, 8000, 10000, 1000001, 1000002],
    "epsilon": [1.0, 0.1, 0.5, 0.05, 100.0, 1e-3, 0.1000001, 0.10000000000000002, 1e-06, 1.1e-06],
    "delta": [1e-07, 1e-09, 1e-05, 0.0, 1.0000001e-07, 1.23456789e-05, 1.23456788e-05],
    "replica": [1, 2, 3, 11, 12, 1001, 10000001, 10000002],
    "frequency": [1, 5, 10, 15, 20],
    "points": [("latin_hypercube", {"npoints": 100}), ("uniformly_random", {"npoints": 100}),
               ("uniformly_random", {"npoints": 500}), ("grid", {"grid_size": 5}), ("grid", {"grid_size": 2}),
               ("latin_hypercube", {"npublishers": 1}), ("uniformly_random", {"npublishers": 1}),
               ("uniformly_random", {"npublishers": 1, "minimum_points_per_publisher": 10}),
               ("uniformly_random", {"npublishers": 11, "minimum_points_per_publisher": 0}),
               ("uniformly_random", {"npublishers": 11})],
}


def build(c, seed=1, fgen=None):
    return TrialDescriptor(
        ModelingStrategyDescriptor(c["strategy"][0], dict(c["strategy"][1]), c["single"][0],
                                   dict(c["single"][1]), c["multi"][0], dict(c["multi"][1])),
        SystemParameters(list(c["fractions"]), LiquidLegionsParameters(c["decay"], c["sketch"], seed),
                         np.random.default_rng(seed), fgen),
        ExperimentParameters(PrivacyBudget(c["epsilon"], c["delta"]), c["replica"], c["frequency"],
                             c["points"][0], dict(c["points"][1])))


def snapshot(t):
    m, s, e = t
    return copy.deepcopy((tuple(m), list(s.campaign_spend_fractions), tuple(s.liquid_legions),
                          repr(s.generator.bit_generator.state), tuple(e)))


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.05:
        return shipped(ctx)
    base = {k: rng.choice(v) for k, v in FIELDS.items()}
    configs = [base]
    for f in FIELDS:
        for v in rng.sample(FIELDS[f], min(4, len(FIELDS[f]))):
            configs.append(dict(base, **{f: v}))
    f, g = rng.sample(sorted(FIELDS), 2)
    configs.append(dict(base, **{f: rng.choice(FIELDS[f]), g: rng.choice(FIELDS[g])}))
    ctx.note(base=base)
    names = [str(build(c, rng.choice([1, 2]))) for c in configs]
    ctx.event("variant", len(names))
    for i in range(len(configs)):
        for j in range(i):
            same = all(type(configs[i][k]) == type(configs[j][k]) and configs[i][k] == configs[j][k]
                       for k in FIELDS)
            ctx.event("name_compared")
            ctx.check((names[i] == names[j]) == same,
                      "names of trials must be equal exactly when the configurations are",
                      key="identity", a=configs[i], b=configs[j], name_a=names[i], name_b=names[j])
    for x in names:
        ctx.check("/" not in x and "\n" not in x, "a name must be usable as a file name", name=x)
    ctx.seen(repr(base))
    # adapting to data sets
    calls = []

    def fgen(ds):
        calls.append(ds.publisher_count)
        return [0.1 * (i + 1) for i in range(ds.publisher_count)]

    for with_f in (False, True):
        t = build(base, 3, fgen if with_f else None)
        before = snapshot(t)
        nets = [halo.data_set(halo.logs(rng, n, max_len=6)) for n in rng.sample([1, 2, 3, 5], 3)]
        outs = []
        for ds in nets + [nets[0]]:
            u = t.update_from_dataset(ds)
            outs.append(u)
            ctx.event("adapted")
            p = ds.publisher_count
            ctx.equal(list(u.system_params.campaign_spend_fractions),
                      [0.1 * (i + 1) for i in range(p)] if with_f else list(base["fractions"]),
                      "spend fractions for a data set", with_function=with_f)
            ctx.equal(tuple(u.system_params.liquid_legions), before[2], "sketch parameters")
            ctx.equal(repr(u.system_params.generator.bit_generator.state), before[3], "random generator")
            ctx.equal(tuple(u.modeling_strategy), before[0], "strategy")
            e = list(before[4])
            kw = dict(e[4])
            if "npublishers" in kw:
                kw["npublishers"] = p
            ctx.equal(tuple(u.experiment_params), tuple(e[:4] + [kw]), "experiment parameters")
            ctx.equal(snapshot(t), before, "adapting a description must not change it")
        ctx.equal(str(outs[0]), str(outs[3]), "adapting twice to the same data set")
        # the results are independent of each other and of the original
        u = outs[1]
        u.experiment_params.test_point_strategy_kwargs["npoints"] = -1
        u.modeling_strategy.single_pub_model_kwargs["zzz"] = 1
        if isinstance(u.system_params.campaign_spend_fractions, list):
            u.system_params.campaign_spend_fractions.append(9.0)
        ctx.equal(snapshot(t), before, "changing an adapted description changed the original")
        ctx.check("zzz" not in outs[0].modeling_strategy.single_pub_model_kwargs
                  and outs[0].experiment_params.test_point_strategy_kwargs.get("npoints") != -1,
                  "adapted descriptions share state")
    ctx.check(len(calls) >= 4, "the spend-fraction function must be asked for every data set")
    # the named strategy is the one that runs
    m = build(base).modeling_strategy
    try:
        s = m.instantiate_strategy()
    except TypeError:
        ctx.fail("strategy cannot be instantiated", config=base)
    ctx.event("instantiated")
    ctx.check(type(s) is STRATEGY[base["strategy"][0]], "strategy class", config=base)
    if all(hasattr(s, x) for x in ("_single_pub_model", "_multi_pub_model", "_single_pub_model_kwargs",
                                   "_multi_pub_model_kwargs")):
        ctx.event("models_seen")
        ctx.check(s._single_pub_model is SINGLE[base["single"][0]], "curve model", config=base)
        ctx.check(s._multi_pub_model is MULTI[base["multi"][0]], "surface model", config=base)
        ctx.equal((s._single_pub_model_kwargs, s._multi_pub_model_kwargs),
                  (base["single"][1], base["multi"][1]), "model options", config=base)
    if base["strategy"][0] == "m3strategy" and hasattr(s, "_use_ground_truth_for_reach_curves"):
        ctx.equal(bool(s._use_ground_truth_for_reach_curves),
                  bool(base["strategy"][1].get("use_ground_truth_for_reach_curves", False)),
                  "strategy option", config=base)
    for i in (0, 2, 4):
        bad = list(m)
        bad[i] = "no_such_thing"
        ctx.raises(Exception, lambda: ModelingStrategyDescriptor(*bad).instantiate_strategy(),
                   "unknown strategy or model")
    ds = halo.data_set(halo.logs(rng, 2, max_len=6))
    ctx.raises(ValueError, lambda: list(ExperimentParameters(
        PrivacyBudget(1.0, 0.0), 1, 1, "no_such_thing", {}).generate_test_points(
            ds, np.random.default_rng(1))), "unknown test point strategy")
    # the named test point strategy is the one that runs
    kind, kw = base["points"]
    pts = list(build(base).experiment_params.generate_test_points(ds, np.random.default_rng(1)))
    if kind == "grid":
        n = kw["grid_size"] ** 2
    else:
        n = max(kw.get("npoints", 100),
                kw.get("npublishers", 1) * kw.get("minimum_points_per_publisher", 100), 100)
        tops = [max(s for _, s in p) for p in []] or list(ds._data[i].max_spend for i in range(2))
        strata = len({min(int(p[0] / tops[0] * n), n - 1) for p in pts})
        ctx.check((strata >= n - 2) == (kind == "latin_hypercube"), "test point strategy", kind=kind,
                  strata=strata, n=n)
    ctx.equal(len(pts), n, "number of test points of the named strategy", kind=kind, kwargs=kw)


def config(t):
    """Everything that configures an adapted trial (but its generator)."""
    m, sp, ep = t
    kw = dict(ep.test_point_strategy_kwargs)
    return (m.strategy, sorted(m.strategy_kwargs.items()), m.single_pub_model,
            sorted(m.single_pub_model_kwargs.items()), m.multi_pub_model, sorted(m.multi_pub_model_kwargs.items()),
            [round(float(f), 9) for f in sp.campaign_spend_fractions], float(sp.liquid_legions.decay_rate),
            float(sp.liquid_legions.sketch_size), float(ep.privacy_budget.epsilon),
            float(ep.privacy_budget.delta), ep.replica_id, ep.max_frequency, ep.test_point_strategy,
            sorted(kw.items()))


def config_of_levels(mod, combination, ds):
    c = dict(zip(mod.LEVELS, combination))
    if mod is single_publisher_design:
        m = ModelingStrategyDescriptor("single_publisher", {}, c["modeling_strategy"][0],
                                       c["modeling_strategy"][1], "none", {})
        sp = SystemParameters([c["campaign_spend_fraction"]], LiquidLegionsParameters(
            c["liquid_legions_decay_rate"], c["liquid_legions_sketch_size"]), None)
        ep = ExperimentParameters(PrivacyBudget(c["privacy_budget_epsilon"], c["privacy_budget_delta"]),
                                  c["replica_id"], c["max_frequency"], "grid", {"grid_size": c["test_points"]})
        return config((m, sp, ep))
    fr = c["campaign_spend_fractions"] if "campaign_spend_fractions" in c else \
        c["campaign_spend_fractions_generators"](ds)
    kind, kw = c["test_point_strategies"]
    if "npublishers" in kw:
        kw = dict(kw, npublishers=ds.publisher_count)
    return config((c["modeling_strategies"], SystemParameters(list(fr), c["liquid_legions_params"], None),
                   ExperimentParameters(c["privacy_budgets"], c["replica_ids"], c["max_frequencies"], kind, kw)))


def factor(t, field):
    return {"modeling_strategies": lambda: str(t.modeling_strategy),
            "campaign_spend_fractions": lambda: [round(float(f), 9) for f in
                                                 t.system_params.campaign_spend_fractions],
            "liquid_legions_params": lambda: tuple(t.system_params.liquid_legions)[:2],
            "privacy_budgets": lambda: tuple(t.experiment_params.privacy_budget),
            "replica_ids": lambda: t.experiment_params.replica_id,
            "max_frequencies": lambda: t.experiment_params.max_frequency,
            }[field]()


def shipped(ctx):
    rng = ctx.rng
    mod = rng.choice([analysis_example_experimental_design, m3_first_round_experimental_design,
                      sample_experimental_design, single_publisher_design])
    seed = rng.randrange(1, 10 ** 6)
    ts = list(mod.generate_experimental_design_config(seed=seed))
    np.random.seed(rng.randrange(1 << 30))
    again = list(mod.generate_experimental_design_config(seed=seed))
    name = mod.__name__.split(".")[-1]
    ctx.note(design=name, seed=seed)
    n = 1 if mod is single_publisher_design else 2 if mod is sample_experimental_design else rng.choice([1, 2, 3, 5])
    ds = halo.data_set(halo.logs(rng, n, max_len=6))
    a = [t.update_from_dataset(ds) for t in ts]
    b = [t.update_from_dataset(ds) for t in again]
    ctx.event("shipped_trial", len(a))
    ctx.equal([str(x) for x in a], [str(x) for x in b], "a shipped design depends on more than its seed",
              design=name)
    for x, y in zip(a, b):
        ctx.equal(repr(x.system_params.generator.bit_generator.state),
                  repr(y.system_params.generator.bit_generator.state), "generators of a shipped design")
    names = [str(x) for x in a]
    levels = mod.LEVELS
    if mod is sample_experimental_design:
        ctx.equal(len(a), mod.NUM_TRIALS_PER_DATASET, "number of sampled trials")
        other = [str(t) for t in mod.generate_experimental_design_config(seed=seed + 1)]
        ctx.check(other != [str(t) for t in ts], "the seed does not matter", design=name)
    else:
        total = 1
        for v in levels.values():
            total *= len(v)
        ctx.equal(len(a), total, "every combination of levels", design=name)
        ctx.equal(len(set(names)), total, "every combination of levels exactly once", design=name)
    # each trial is configured as its combination of levels says
    got = sorted(repr(config(x)) for x in a)
    want = [repr(config_of_levels(mod, c, ds)) for c in itertools.product(*levels.values())]
    if mod is sample_experimental_design:
        allowed = set(want)
        ctx.check(all(x in allowed for x in got), "a trial is not a combination of the levels", design=name,
                  trial=next((x for x in got if x not in allowed), None))
        for i in range(6):  # a latin hypercube visits the levels of a factor equally often
            field = list(levels)[i]
            counts = {}
            for x in a:
                v = repr(factor(x, field))
                counts[v] = counts.get(v, 0) + 1
            m = len(levels[field])
            ctx.check((len(counts) == m or len(a) / m < 2) and all(abs(c - len(a) / m) < 2 for c in counts.values()),
                      "levels of a factor are not used equally often", field=field, counts=counts)
    else:
        ctx.equal(got, sorted(want), "every combination of levels is configured as it says", design=name)
    for x in a:
        ctx.equal(len(x.system_params.campaign_spend_fractions), n, "one spend fraction per publisher",
                  design=name)
        ctx.check(all(0 <= f <= 1 for f in x.system_params.campaign_spend_fractions), "spend fractions")
        x.modeling_strategy.instantiate_strategy()
    ctx.seen(name, seed, n)
    x = rng.choice(a)
    if n <= 3:
        pts = list(x.experiment_params.generate_test_points(ds, np.random.default_rng(1)))
        ctx.check(len(pts) >= 20, "test points of a shipped trial", n=len(pts))
