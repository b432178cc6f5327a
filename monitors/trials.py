"""Workloads shared by the monitors of trials and experimental designs."""

import copy
import math
import os

import numpy as np
import pyDOE.doe_lhs
from scipy.spatial.distance import pdist

from monitors import gen, halo
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData
from wfa_planning_evaluation_framework.driver.experiment_parameters import ExperimentParameters
from wfa_planning_evaluation_framework.driver.modeling_strategy_descriptor import (
    ModelingStrategyDescriptor,
)
from wfa_planning_evaluation_framework.driver.trial_descriptor import TrialDescriptor
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyBudget
from wfa_planning_evaluation_framework.simulator.system_parameters import (
    LiquidLegionsParameters,
    SystemParameters,
)

# see c20_test_points
pyDOE.doe_lhs._pdist = pdist


def campaign_log(rng, users, length):
    """A publisher log in which users see several impressions."""
    pool = rng.sample(range(1, users * 3), users)
    return [(rng.choice(pool), (i + 1) * 0.1) for i in range(length)]


def design(ctx, nsets, npubs, root=None, names=None, users=(20, 40)):
    """A data design on the local disk; returns (design, {name: logs})."""
    rng = ctx.rng
    root = root or os.path.join(ctx.tmpdir(), "data")
    d = DataDesign(root)
    logs = {}
    for i in range(nsets):
        name = names[i] if names else "set{}".format(i)
        n = npubs if isinstance(npubs, int) else rng.choice(npubs)
        ls = [campaign_log(rng, rng.choice(users), rng.choice([80, 150])) for _ in range(n)]
        d.add(DataSet([PublisherData(list(l), "pub{}".format(j)) for j, l in enumerate(ls)], name))
        logs[name] = ls
    return d, logs


def descriptor(rng, npubs, shared_generator=None, kind=None, replica=None, test_points=None,
               max_frequency=None, fractions=None, fractions_generator=None, budget=None):
    kind = kind or rng.choice(["single", "m3", "m3_truth"] if npubs == 1 else ["m3", "m3", "m3_truth"])
    if kind == "single":
        ms = ModelingStrategyDescriptor("single_publisher", {}, "goerg", {}, "none", {})
    elif kind == "m3_truth":
        ms = ModelingStrategyDescriptor(
            "m3strategy", {"use_ground_truth_for_reach_curves": True}, "goerg", {}, "pairwise_union", {})
    else:
        ms = ModelingStrategyDescriptor("m3strategy", {}, "goerg", {}, "pairwise_union", {})
    if test_points is None:
        test_points = rng.choice([
            ("uniformly_random", {"npoints": rng.choice([100, 120])}),
            ("latin_hypercube", {"npoints": 100}),
            ("grid", {"grid_size": rng.choice([2, 3])}),
        ])
    kw = {}
    if fractions_generator is not None:
        kw["campaign_spend_fractions_generator"] = fractions_generator
    else:
        kw["campaign_spend_fractions"] = fractions or [
            rng.choice([0.3, 0.5, 0.8, 1.0]) for _ in range(npubs)]
    sp = SystemParameters(
        liquid_legions=LiquidLegionsParameters(rng.choice([12, 10]), rng.choice([1000, 1e5])),
        generator=shared_generator if shared_generator is not None else np.random.default_rng(
            rng.randrange(1000)),
        **kw)
    ep = ExperimentParameters(
        budget or PrivacyBudget(rng.choice([0.5, 1.0, 10.0]), rng.choice([1e-5, 1e-9])),
        rng.choice([1, 2, 3]) if replica is None else replica,
        max_frequency or rng.choice([1, 3, 5]),
        test_points[0], dict(test_points[1]))
    return TrialDescriptor(ms, sp, ep)


def same_value(a, b, rel=1e-9, abs_=1e-15):
    """Cell equality across a CSV round trip."""
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return str(a) == str(b) or {str(a), str(b)} <= {"nan", "", "None", "NaN"}
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    return fa == fb or abs(fa - fb) <= max(abs_, rel * max(abs(fa), abs(fb)))


def diff_rows(a, b, rel=1e-9):
    """Names of differing columns of two result rows (dicts)."""
    out = [k for k in a if k not in b] + [k for k in b if k not in a]
    return out + [k for k in a if k in b and not same_value(a[k], b[k], rel)]


def row(df):
    assert len(df) == 1, len(df)
    return df.iloc[0].to_dict()
