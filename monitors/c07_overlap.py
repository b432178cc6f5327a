"""C07: overlap data sets relabel users but keep every single publisher's curve."""

import copy
from collections import Counter

import numpy as np

from wfa_cardinality_estimation_evaluation_framework import event_log
from wfa_cardinality_estimation_evaluation_framework.simulations import set_generator
from wfa_planning_evaluation_framework.data_generators.independent_overlap_data_set import (
    IndependentOverlapDataSet,
)
from wfa_planning_evaluation_framework.data_generators.overlap_data_set import OverlapDataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import (
    PublisherData,
)
from wfa_planning_evaluation_framework.data_generators.sequentially_correlated_overlap_data_set import (
    CorrelatedSetsOptions,
    OrderOptions,
    SequentiallyCorrelatedOverlapDataSet,
)
from monitors.gen import LogModel, impression_log

ID = "C07"
RULE = (
    "a case builds an overlap data set (generic / independent / sequentially correlated, random "
    "options) from 1-5 random publisher logs with arbitrary user ids over a recording set "
    "generator, then compares every publisher's relabelled log, through its public queries, with "
    "the original and with the id sets the generator emitted; non-trivial: >= 2 publishers with "
    ">= 2 users, distinct by (class, options, sizes, resulting overlap)"
)
QUICK = 3000
THOROUGH = 40000
REQUIRED = {"publisher_compared": 1000, "independent": 200, "sequential": 200, "generic": 200,
            "set": 1000}
ASSUMPTIONS = ["the external set generator is replaced by a recording stand-in"]


def case(ctx):
    rng = ctx.rng
    p = rng.randrange(1, 6) if rng.random() < 0.8 else rng.randrange(6, 21)
    logs, pubs = [], []
    for i in range(p):
        ids = rng.choice([list(range(0, 12)), [100 * i + j * 7 for j in range(9)],
                          list(range(-5, 6)), [10 ** 9 + j for j in range(4)]])
        log = impression_log(rng, max_len=30, id_pool=ids)
        if rng.random() < 0.6:  # distinct spends make the relabelling unambiguous
            sp = rng.sample(range(1, 1000), len(log))
            log = [(u, s / 10.0) for (u, _), s in zip(log, sp)]
        logs.append(log)
        pubs.append(PublisherData(copy.deepcopy(log), "pub{}".format(i)))
    sizes = [len({u for u, _ in l}) for l in logs]
    kind = rng.choice(["generic", "independent", "sequential"])
    seed = rng.randrange(10 ** 6)
    universe = max(sizes) * rng.choice([1, 2, 10]) + rng.choice([0, 3, 1000, 10 ** 5])
    order = rng.choice(list(OrderOptions))
    corr = rng.choice(list(CorrelatedSetsOptions))
    prop = rng.choice([0.0, 0.25, 0.5, 1.0, rng.random(), 1 / 3, 1e-3, 0.999])
    name = rng.choice([None, "my data"])
    no_rng = rng.random() < 0.2

    def build():
        gen = np.random.default_rng(seed)
        kw = {} if name is None else {"name": name}
        event_log.reset()
        if kind == "generic":
            cls, args = rng_choice
            d = OverlapDataSet(pubs, cls, args(), **kw)
        elif kind == "independent":
            d = IndependentOverlapDataSet(pubs, universe, gen, **kw)
        else:
            d = SequentiallyCorrelatedOverlapDataSet(
                pubs, order, corr, prop, None if no_rng else gen, **kw)
        return d, [f["ids"] for f in event_log.of_kind("set")], event_log.of_kind("set_generator")

    rng_choice = rng.choice([
        (set_generator.DisjointSetGenerator, lambda: {}),
        (set_generator.IndependentSetGenerator,
         lambda: {"universe_size": universe, "random_state": np.random.RandomState(seed)}),
        (set_generator.SequentiallyCorrelatedSetGenerator,
         lambda: {"order": "original", "correlated_sets": "all", "shared_prop": prop,
                  "random_state": np.random.RandomState(seed)}),
    ])
    ds, sets, gens = build()
    ctx.event(kind)
    ctx.event("set", len(sets))
    ctx.note(kind=kind, sizes=sizes, universe=universe, order=str(order), corr=str(corr),
             shared=prop, logs=[l[:5] for l in logs])

    # --- the generator was asked for the right sets --------------------------
    if len(sets) < p:
        ctx.fail("fewer id sets were drawn than there are publishers", drawn=len(sets), p=p)
    if gens:
        g = gens[0]
        ctx.equal(list(g["set_sizes"]), sizes, "set sizes asked for != publisher reaches")
        if kind == "independent":
            ctx.equal(g["universe_size"], universe, "universe size passed on")
        if kind == "sequential":
            ctx.equal(g["order"], order.value, "order passed on")
            ctx.equal(g["correlated_sets"], corr.value, "correlated_sets passed on")
            ctx.close(g["shared_prop"], prop, "shared_prop passed on")
    if name:
        ctx.equal(ds.name, name, "name")
    elif kind != "generic":
        ctx.check(ds.name in ("independent", "sequentially_correlated"), "default name",
                  name=ds.name)

    # --- every publisher's log -----------------------------------------------
    ctx.equal(ds.publisher_count, p, "publisher_count")
    union = set()
    for i, (log, new) in enumerate(zip(logs, ds._data)):
        m = LogModel(log)
        ctx.equal(new.name, "pub{}".format(i), "publisher name")
        ctx.equal(new.max_impressions, len(log), "impressions after relabelling", log=log)
        ctx.equal(new.max_reach, sizes[i], "reach after relabelling", log=log)
        ctx.equal(new.max_spend, max(s for _, s in log), "spend after relabelling", log=log)
        full = {int(k): v for k, v in new.user_counts_by_spend(1e18).items()}
        ctx.equal(set(full), set(sets[i]), "users are not exactly the generated set",
                  publisher=i, log=log)
        union |= set(full)
        mapping = {}
        last = {}
        for s in sorted({s for _, s in log}):
            got = {int(k): v for k, v in new.user_counts_by_spend(s).items()}
            want = m.counts_by_spend(s)
            ctx.equal(Counter(got.values()), Counter(want.values()),
                      "single-publisher frequency histogram changed", spend=s, log=log)
            fresh = {u: got[u] - last.get(u, 0) for u in got if got[u] != last.get(u, 0)}
            delta = Counter(u for u, e in log if e == s)
            if len(fresh) == 1 and len(delta) == 1:
                (a, ca), (b, cb) = list(delta.items())[0], list(fresh.items())[0]
                ctx.equal(cb, ca, "number of impressions at a spend", log=log)
                ctx.equal(mapping.setdefault(a, b), b,
                          "one user was given two identities", user=a, log=log)
            last = got
        ctx.equal(len(set(mapping.values())), len(mapping),
                  "two users were given one identity", log=log)
        ctx.event("publisher_compared")
    ctx.equal(ds.maximum_reach, len(union), "maximum_reach")
    ctx.equal(ds.universe_size, 2 * len(union), "default universe size")
    # the single publisher curve seen through the data set
    i = rng.randrange(p)
    spends = [-1.0] * p
    spends[i] = rng.choice(logs[i])[1]
    pt = ds.reach_by_spend(spends, 3)
    c = LogModel(logs[i]).counts_by_spend(spends[i])
    ctx.equal([pt.reach(k) for k in (1, 2, 3)],
              [sum(1 for v in c.values() if v >= k) for k in (1, 2, 3)],
              "single-publisher reach curve changed", publisher=i, spends=spends)
    # inputs untouched
    for pub, log in zip(pubs, logs):
        ctx.equal(dict(pub.user_counts_by_spend(1e18)), LogModel(log).counts_by_spend(1e18),
                  "building the overlap changed the input publishers")
    # reproducible from the random generator
    np.random.seed(seed + 1)
    ds2, sets2, _ = build()
    ctx.equal(sets2, sets, "overlap is not a function of the given random generator")
    for a, b in zip(ds._data, ds2._data):
        ctx.equal(dict(a.user_counts_by_impressions(10 ** 9)),
                  dict(b.user_counts_by_impressions(10 ** 9)), "relabelling not reproducible")
    if kind == "independent" or (kind == "sequential" and not no_rng):
        # a generator shared by several data sets yields different draws
        gen = np.random.default_rng(seed)
        before = gen.bit_generator.state["state"]
        if kind == "independent":
            IndependentOverlapDataSet(pubs, universe, gen)
        else:
            SequentiallyCorrelatedOverlapDataSet(pubs, order, corr, prop, gen)
        ctx.check(gen.bit_generator.state["state"] != before
                  or gen.bit_generator.state.get("has_uint32"),
                  "the given random generator was not used")
    if p >= 2 and max(sizes) >= 2:
        ctx.seen(kind, str(order), str(corr), prop, tuple(sizes), len(union))
