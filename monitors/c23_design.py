"""C23: an experimental design yields every trial's own row exactly once, however it is run."""

import contextlib
import copy
import os
import random
import sys

import apache_beam
import numpy as np
import pandas as pd
from apache_beam.options.pipeline_options import PipelineOptions
from pathos import helpers as pathos_helpers
from pathos.multiprocessing import ProcessPool

from monitors import fs as scratch_fs
from monitors import trials
from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.driver import experiment_driver
from wfa_planning_evaluation_framework.driver.experiment import Experiment
from wfa_planning_evaluation_framework.driver.experimental_design import ExperimentalDesign
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_cloudpath_wrapper import (
    FilesystemCloudpathWrapper,
)

ID = "C23"
RULE = (
    "a case builds 1-3 data sets and 1-4 trial descriptions (some repeated, some sharing a random "
    "generator, some with per-data-set options), computes every (data set, description) row on its own, "
    "then runs the whole design in two or three of: sequentially, in another order, resumed over partial "
    "or damaged earlier results, on several processes, on Beam with a random bundle schedule and retried "
    "elements, in an emulated cloud bucket, through the command-line driver; some designs ask for the "
    "single-publisher analysis; rows are compared by (data set, trial); non-trivial: >= 2 distinct trials, "
    "distinct by (trials, way of running, schedule)"
)
JOBS = 6  # some cases fork worker processes of their own
QUICK = 110
THOROUGH = 1500
REQUIRED = {"run_sequential": 8, "run_shuffled": 8, "run_resumed": 8, "run_processes": 8,
            "run_beam": 8, "run_driver": 8, "row": 400, "duplicate_description": 10, "run_cloud": 8,
            "single_pub_design": 3, "long_names": 20}
ASSUMPTIONS = [
    "Beam is replaced by a local runner with random order and bundling",
    "the external sketch and noiser library is replaced by a recording stand-in",
    "Cloud storage is replaced by cloudpathlib's local emulation",
]
CASE_WALL_S = 400


def two(ds):
    return [0.5] * ds.publisher_count


def ramp(ds):
    return [0.4 + 0.1 * i for i in range(ds.publisher_count)]


def keyed(ctx, df, what):
    rows = {}
    for _, r in df.iterrows():
        d = r.to_dict()
        k = (d["dataset"], d["trial"])
        ctx.check(k not in rows, "a trial appears twice in the result", key="duplicate-row", way=what, trial=k)
        rows[k] = d
    return rows


def case(ctx):
    rng = ctx.rng
    nsets = rng.choice([1, 2, 3])
    npubs = rng.choice([1, 2, 2, 3])
    varied = rng.random() < 0.4
    many = rng.random() < 0.04  # a design larger than any bundle or chunk
    if many:
        nsets, npubs, varied = 1, 1, False
        ctx.event("many_trials")
    names = None
    if rng.random() < 0.5:  # names as the synthetic data generator makes them
        names = ["P=2,N=100,pub_ratio=0.5,pricing=Fixed(cost_per_impression=0.1),impressions="
                 "Homogeneous(poisson_lambda=3.0),overlaps=FullOverlap,id={}".format(i)
                 for i in rng.sample(range(200), nsets)]
        ctx.event("long_names")
    elif rng.random() < 0.2:
        names = rng.sample(["a b", " lead", "trail ", "v1.0", "x_y", "n10", "n2", "Set", "set"], nsets)
        ctx.event("odd_names")
    design, logs = trials.design(ctx, nsets, [1, 2, 3] if varied else npubs, names=names)
    root = os.path.join(ctx.tmpdir(), "data")
    shared = np.random.default_rng(rng.randrange(100)) if rng.random() < 0.6 else None
    descs = []
    for i in range(rng.randrange(65, 90) if many else rng.choice([1, 2, 3, 4])):
        if many:
            descs.append(trials.descriptor(rng, 1, shared, replica=i, test_points=("grid", {"grid_size": 2})))
            continue
        if varied:
            # the spend fractions and the number of test points come from the data set
            tp = rng.choice([("uniformly_random", {"npublishers": 1, "minimum_points_per_publisher": 60}),
                             ("grid", {"grid_size": 2})])
            descs.append(trials.descriptor(rng, 2, shared, kind="m3", test_points=tp,
                                           fractions_generator=rng.choice([two, ramp])))
        else:
            descs.append(trials.descriptor(rng, npubs, shared))
    if rng.random() < 0.4:
        descs.append(copy.deepcopy(descs[0]))
        ctx.event("duplicate_description")
    if rng.random() < 0.3:
        descs.append(trials.descriptor(rng, npubs, shared, test_points=("no_such_strategy", {})) if not varied
                     else descs[0])
    analysis = "single_pub" if npubs == 1 and not varied and rng.random() < 0.7 else ""
    if analysis:
        ctx.event("single_pub_design")
    seed = rng.choice([0, 1, 2, 99, rng.randrange(1000), rng.randrange(1000)])
    ctx.note(analysis=analysis, trials=[str(d) for d in descs], seed=seed, sets=sorted(logs), varied=varied)
    pristine = copy.deepcopy(descs)
    # every row on its own, from untouched descriptions, in a fresh directory each
    want, order = {}, []
    for name in sorted(logs):
        for j, d in enumerate(copy.deepcopy(pristine)):
            ds = design.by_name(name)
            own = d.update_from_dataset(ds)
            if varied and own.system_params.campaign_spend_fractions_generator is None:
                fr = list(own.system_params.campaign_spend_fractions)
                ctx.equal(len(fr), len(logs[name]), "one spend fraction per publisher of the data set")
            t = ExperimentalTrial(os.path.join(ctx.tmpdir(), "alone", name + str(j), "r"), design, name, own,
                                  analysis)
            r = trials.row(t.evaluate(seed))
            k = (r["dataset"], r["trial"])
            ctx.equal("relative_error_at_100" in r, bool(analysis), "columns of the single-publisher analysis")
            if varied:
                n = len(logs[name])
                if own.experiment_params.test_point_strategy == "uniformly_random" and \
                        int(r["model_succeeded"]):
                    ctx.equal(int(r["npoints"]), max(100, 60 * n), "test points scale with the publishers")
            if k not in want:
                order.append(k)
            want[k] = r
    ways = rng.sample(["sequential", "shuffled", "resumed", "processes", "beam", "driver", "cloud"],
                      3 if ctx.thorough else 2)
    for w in ways:
        ds_list = copy.deepcopy(pristine) if rng.random() < 0.5 else descs
        d2 = DataDesign(root)
        exp_dir = os.path.join(ctx.tmpdir(), "run-" + w, "results")
        schedule = None
        if w == "driver":
            df = run_driver(ctx, ds_list, root, exp_dir, seed, analysis)
        elif w == "cloud":
            df = run_cloud(ctx, ds_list, design, sorted(logs), seed, analysis)
        else:
            kw = {"analysis_type": analysis} if analysis or rng.random() < 0.5 else {}
            if w == "shuffled":
                ds_list = rng.sample(ds_list, len(ds_list))
            if w == "processes":
                kw["cores"] = rng.choice([2, 3, 4, 0])
                ctx.finalizers.append(stop_pools)
            if w == "resumed":
                prepare_partial(ctx, d2, ds_list, exp_dir, seed, analysis)
            ed = ExperimentalDesign(exp_dir, d2, ds_list, seed=seed, **kw)
            if rng.random() < 0.5:
                n = len(ed.generate_trials())
                ctx.equal(n, len(want), "number of trials generated")
            if w == "beam":
                apache_beam.SCHEDULE_RNG.seed(rng.randrange(1 << 30))
                del apache_beam.SCHEDULES[:]
                os.makedirs(exp_dir, exist_ok=True)
                df = ed.load(use_apache_beam=True, pipeline_options=PipelineOptions(
                    ["--temp_location=" + exp_dir]))
                schedule = tuple(apache_beam.SCHEDULES)
            else:
                with quiet():
                    df = ed.load()
                if rng.random() < 0.3:  # loading again changes nothing
                    with quiet():
                        df2 = ed.load()
                    a, b = keyed(ctx, df, w), keyed(ctx, df2, w)
                    ctx.equal(sorted(a), sorted(b), "rows when loading again")
                    for k in a:
                        ctx.equal(trials.diff_rows(a[k], b[k]), [], "row when loading again", trial=k)
        ctx.event("run_" + w)
        rows = keyed(ctx, df, w)
        ctx.equal(sorted(rows), sorted(want), "trials in the result", way=w)
        for k in want:
            ctx.event("row")
            # the frame has the columns of all trials; those of other trials are empty
            rows[k] = {c: v for c, v in rows[k].items() if c in want[k] or v == v}
            ctx.equal(trials.diff_rows(want[k], rows[k]), [], "row of a trial depends on how it was run",
                      way=w, trial=k, want_row=want[k], got_row=rows[k])
        if w in ("sequential", "resumed"):
            ctx.equal([(r["dataset"], r["trial"]) for _, r in df.iterrows()], order,
                      "rows in the order of data sets and descriptions", way=w)
        if len(want) >= 2:
            ctx.seen(repr(sorted(want)), w, schedule)
    left = []
    for w in ways:
        p = os.path.join(ctx.tmpdir(), "run-" + w, "pending")
        if os.path.isdir(p):
            left += os.listdir(p)
    ctx.equal(left, [], "pending markers of completed trials")
    ctx.equal([str(d) for d in descs], [str(d) for d in pristine], "the descriptions changed")


def stop_pools():
    """End the worker processes now (PyPy would only do so when it collects garbage)."""
    for pool in list(ProcessPool.__state__.values()):
        pool.terminate()
        pool.join()
    pathos_helpers.shutdown()


@contextlib.contextmanager
def quiet():
    """tqdm writes progress to stderr."""
    old = sys.stderr
    sys.stderr = open(os.devnull, "w")
    try:
        yield
    finally:
        sys.stderr.close()
        sys.stderr = old


def prepare_partial(ctx, design, descs, exp_dir, seed, analysis):
    """Earlier, interrupted run: some rows done, some damaged."""
    rng = ctx.rng
    ts = ExperimentalDesign(exp_dir, design, copy.deepcopy(descs), seed=seed,
                            analysis_type=analysis).generate_trials()
    for t in rng.sample(ts, rng.randrange(0, len(ts) + 1)):
        t.evaluate(seed)
    done = [os.path.join(d, f) for d, _, fs in os.walk(exp_dir) for f in fs if f.endswith(".csv")]
    for p in sorted(done):
        if rng.random() < 0.4:
            with open(p) as f:
                text = f.read()
            with open(p, "w") as f:
                f.write(text[: rng.choice([0, rng.randrange(len(text)), len(text) - 1])])
            ctx.event("damaged_result")


@contextlib.contextmanager
def bucket(ctx):
    """(filesystem, root) of an emulated bucket; nothing may be written to the working directory."""
    cwd = os.getcwd()
    scratch = os.path.join(ctx.tmpdir(), "cwd-{}".format(ctx.rng.randrange(10 ** 6)))
    os.makedirs(scratch)
    real = FilesystemCloudpathWrapper.set_default_client_to_gs_client
    # the emulation needs no client and no credentials
    FilesystemCloudpathWrapper.set_default_client_to_gs_client = lambda self: None
    os.chdir(scratch)
    try:
        yield scratch_fs.cloud_fs(ctx)
        ctx.equal(os.listdir(scratch), [], "files outside the bucket")
    finally:
        os.chdir(cwd)
        FilesystemCloudpathWrapper.set_default_client_to_gs_client = real


def fill(fs, root, design, names):
    for n in names:
        design.by_name(n).write_data_set(root + "/data", filesystem=fs)
    return DataDesign(root + "/data", fs)


def run_cloud(ctx, descs, design, names, seed, analysis):
    """Everything in the emulated bucket."""
    rng = ctx.rng
    with bucket(ctx) as (fs, root):
        d2 = fill(fs, root, design, names)
        exp_dir = root + "/work/results"
        ed = ExperimentalDesign(exp_dir, d2, descs, seed=seed, analysis_type=analysis, filesystem=fs)
        beam = rng.random() < 0.5
        if beam:
            df = ed.load(use_apache_beam=True, pipeline_options=PipelineOptions(
                ["--temp_location=" + root + "/temp"]))
            ctx.event("cloud_beam")
        else:
            df = ed.load()
        n = len(ed.generate_trials())
        for name in names:
            ctx.check(fs.is_dir(exp_dir + "/" + name), "results are stored in the bucket", dataset=name)
        stored = [p for name in names for p in fs.glob(exp_dir + "/" + name, "*.csv")]
        ctx.equal(len(stored), n, "one stored result per trial", stored=stored)
        ctx.check(not fs.exists(root + "/work/pending") or not list(fs.glob(root + "/work/pending", "*")),
                  "pending markers of completed trials in the bucket")
    return df


def run_driver(ctx, descs, root, exp_dir, seed, analysis):
    """Through the driver: an experimental design file, flags and an output file."""
    rng = ctx.rng
    if rng.random() < 0.25:
        return driver_cloud(ctx, descs, DataDesign(root), seed, analysis)
    path = design_file(ctx, descs, seed)
    out = os.path.join(ctx.tmpdir(), "out-{}.csv".format(rng.randrange(10 ** 6)))
    os.makedirs(exp_dir, exist_ok=True)
    beam = rng.random() < 0.4
    if rng.random() < 0.5:
        argv = ["--data_design_dir=" + root, "--experimental_design=" + path, "--output_file=" + out,
                "--intermediates_dir=" + exp_dir, "--seed={}".format(seed)]
        if analysis:
            argv.append("--analysis_type=" + analysis)
        if beam:
            argv += ["--use_apache_beam", "--runner=direct"]
        elif rng.random() < 0.6:
            argv.append("--cores={}".format(rng.choice([2, 3, 1])))
            ctx.event("driver_processes")
            ctx.finalizers.append(stop_pools)
        with quiet():
            experiment_driver.main(argv)
    else:
        d = experiment_driver.ExperimentDriver(root, path, out, exp_dir, seed, 1, analysis)
        if beam:
            res = d.execute(True, PipelineOptions(["--temp_location=" + exp_dir]))
        else:
            res = d.execute()
        with open(out) as f:
            back = pd.read_csv(f)
        a, b = keyed(ctx, res, "driver"), keyed(ctx, back, "driver file")
        ctx.equal(sorted(a), sorted(b), "trials in the output file")
        for k in a:
            ctx.equal(trials.diff_rows(a[k], b[k]), [], "row in the output file", trial=k)
    ctx.event("driver_beam" if beam else "driver_plain")
    with open(out) as f:
        return pd.read_csv(f)


def design_file(ctx, descs, seed):
    path = os.path.join(ctx.tmpdir(), "design_{}.py".format(ctx.rng.randrange(10 ** 6)))
    with open(path, "w") as f:
        f.write("import monitors.c23_design as m\n"
                "def generate_experimental_design_config(seed=1):\n"
                "    assert seed == m.HANDOVER['seed']\n"
                "    return m.HANDOVER['descs']\n")
    HANDOVER.update(descs=descs, seed=seed)
    return path


def driver_cloud(ctx, descs, design, seed, analysis):
    """The command line for Dataflow: data, intermediates and output in the bucket."""
    path = design_file(ctx, descs, seed)
    with bucket(ctx) as (fs, root):
        fill(fs, root, design, list(design.names))
        argv = ["--data_design_dir=" + root + "/data", "--experimental_design=" + path,
                "--output_file=" + root + "/out/result.csv", "--intermediates_dir=" + root + "/work/results",
                "--seed={}".format(seed), "--use_apache_beam",
                "--runner=" + ctx.rng.choice(["dataflow", "DataflowRunner"])]
        if analysis:
            argv.append("--analysis_type=" + analysis)
        experiment_driver.main(argv)
        ctx.event("driver_cloud")
        ctx.check(fs.is_file(root + "/out/result.csv"), "output file in the bucket")
        with fs.open(root + "/out/result.csv") as f:
            return pd.read_csv(f)


HANDOVER = {}
