"""C22: a trial yields one correct row, whatever happened before, and survives crashes."""

import copy
import io
import os

import numpy as np

from monitors import halo, trials
from wfa_planning_evaluation_framework.driver.experimental_trial import ExperimentalTrial
from wfa_planning_evaluation_framework.driver.test_point_aggregator import aggregate
from wfa_planning_evaluation_framework.filesystem_wrappers.filesystem_pathlib_wrapper import (
    FilesystemPathlibWrapper,
)
from wfa_planning_evaluation_framework.simulator.halo_simulator import HaloSimulator
from wfa_planning_evaluation_framework.simulator.privacy_tracker import PrivacyTracker

ID = "C22"
RULE = (
    "a case builds a data design and a random trial (strategies, test points, single-publisher analysis, "
    "modelling failures), computes its row, compares it with an independent re-computation, reads it "
    "back, then crashes evaluations at random file-system operations (before, after, or in the middle "
    "of a write of random length; 1-3 crashes in a row, or I/O errors), and evaluates again; "
    "non-trivial: >= 1 fault injected, distinct by (trial, fault points)"
)
QUICK = 350
THOROUGH = 5000
REQUIRED = {"evaluate": 1500, "crash": 700, "torn_write": 200, "resumed": 500, "read_back": 300,
            "failed_model": 30, "single_pub": 40, "recomputed": 150, "io_error": 50}
ASSUMPTIONS = [
    "a crash loses a suffix of the file being written, never earlier completed operations",
    "the external sketch, noiser and Beam libraries are replaced by recording stand-ins",
]


class Crash(BaseException):
    """The process is killed here."""


class FaultFs(FilesystemPathlibWrapper):
    """A local file system that counts operations and fails at one of them."""

    def __init__(self, at=None, mode="before", cut=0.5, error=Crash):
        super().__init__()
        self.n, self.at, self.mode, self.cut, self.error = 0, at, mode, cut, error
        self.ops, self.fired = [], None

    def _op(self, name, path, call, data=None):
        i = self.n
        self.n += 1
        self.ops.append((name, os.path.basename(str(path))[:40]))
        if self.at is not None and i == self.at and self.fired is None:
            self.fired = name
            if data is not None and self.mode == "torn":
                with open(path, "w") as f:
                    f.write(data[: int(len(data) * self.cut)])
                raise self.error("torn write")
            if self.mode == "after":
                call()
            raise self.error("fault at operation {}".format(i))
        return call()

    def write_text(self, path, data, *a, **k):
        return self._op("write_text", path,
                        lambda: FilesystemPathlibWrapper.write_text(self, path, data, *a, **k), data)

    def open(self, path, mode="r", *a, **k):
        f = self._op("open", path, lambda: FilesystemPathlibWrapper.open(self, path, mode, *a, **k))
        if "w" in mode or "a" in mode:
            real = f.write

            def write(data):
                i = self.n
                self.n += 1
                if self.at is not None and i == self.at and self.fired is None:
                    self.fired = "write"
                    real(data[: int(len(data) * self.cut)])
                    f.close()
                    raise self.error("torn write")
                return real(data)

            try:
                f.write = write
            except AttributeError:
                pass
        return f

    def unlink(self, path, *a, **k):
        return self._op("unlink", path, lambda: FilesystemPathlibWrapper.unlink(self, path, *a, **k))

    def mkdir(self, path, *a, **k):
        return self._op("mkdir", path, lambda: FilesystemPathlibWrapper.mkdir(self, path, *a, **k))

    def is_file(self, path):
        return self._op("is_file", path, lambda: FilesystemPathlibWrapper.is_file(self, path))

    def exists(self, path):
        return self._op("exists", path, lambda: FilesystemPathlibWrapper.exists(self, path))


def files_under(root):
    return sorted(os.path.relpath(os.path.join(d, f), root)
                  for d, _, fs in os.walk(root) for f in fs)


def recompute(design, name, desc, seed):
    """The metrics, from the public parts (not through the trial)."""
    rng = np.random.default_rng(seed=seed)
    np.random.seed(seed)
    ds = design.by_name(name)
    tracker = PrivacyTracker()
    sp = copy.deepcopy(desc.system_params)
    h = HaloSimulator(ds, sp, tracker)
    ep = desc.experiment_params
    surface = desc.modeling_strategy.instantiate_strategy().fit(h, sp, ep.privacy_budget)
    pts = list(ep.generate_test_points(ds, rng))
    F = ep.max_frequency
    truth = [h.true_reach_by_spend(t, F) for t in pts]
    fitted = [surface.by_spend(t, F) for t in pts]
    return trials.row(aggregate(truth, fitted)), tracker, h, surface


def case(ctx):
    rng = ctx.rng
    single_pub = rng.random() < 0.3
    npubs = 1 if single_pub else rng.choice([1, 2, 3])
    design, logs = trials.design(ctx, 1, npubs, users=[20, 40, 3, 8])
    logs = logs["set0"]
    fail = rng.random() < 0.25
    if fail:
        if npubs > 1 and rng.random() < 0.6:
            desc = trials.descriptor(rng, npubs, kind="single")
        else:
            desc = trials.descriptor(rng, npubs, test_points=("no_such_strategy", {}))
    else:
        more = {}
        if single_pub and rng.random() < 0.4:  # hardly anybody is reached at the first points
            more["fractions"] = [rng.choice([0.02, 0.03, 0.05, 0.1])]
        if rng.random() < 0.2:
            more["max_frequency"] = rng.choice([2, 8, 10, 11, 12])
        desc = trials.descriptor(rng, npubs, kind="single" if single_pub else None, **more)
    seed = rng.choice([0, 1, rng.randrange(1000), rng.randrange(1000)])
    work = os.path.join(ctx.tmpdir(), "work")
    exp_dir = os.path.join(work, rng.choice(["results", "a/b"]))
    kw = {"analysis_type": "single_pub"} if single_pub else {}
    if single_pub:
        ctx.event("single_pub")
    ctx.note(trial=str(desc), seed=seed, npubs=npubs, single_pub=single_pub, logs=logs)
    pristine = copy.deepcopy(desc)

    def trial():
        return ExperimentalTrial(exp_dir, design, "set0", desc, **kw)

    fs0 = FaultFs()
    first = trials.row(trial().evaluate(seed, fs0))
    ctx.event("evaluate")
    nops = fs0.n
    files = files_under(work)
    ctx.equal(len([f for f in files if f.endswith(".csv")]), 1, "one result file per trial", files=files)
    ctx.equal(len(files), 1, "nothing else is left behind by a completed trial", files=files)
    result_file = os.path.join(work, files[0])
    reference_bytes = open(result_file, newline="").read()
    judge_row(ctx, design, desc, seed, logs, first, fail, single_pub)
    # reading back
    back_fs = FaultFs()
    back = trials.row(trial().evaluate(rng.choice([seed, seed + 1]), back_fs))
    ctx.event("evaluate")
    ctx.event("read_back")
    ctx.equal(trials.diff_rows(first, back, 1e-13), [], "a previously computed row is returned as computed",
              first=first, back=back)
    ctx.check(not any(o[0] in ("write_text", "unlink") for o in back_fs.ops),
              "a completed trial is not computed again", ops=back_fs.ops)
    # crashes
    for _ in range(rng.randrange(2, 5)):
        if rng.random() < 0.7:
            os.remove(result_file)
        elif rng.random() < 0.5:
            text = reference_bytes
            k = rng.choice([0, len(text) - 1, rng.randrange(len(text)), text.index("\n") + 1])
            with open(result_file, "w", newline="") as f:
                f.write(text[:k])
            ctx.event("torn_write")
        points = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            io_error = rng.random() < 0.15
            fs = FaultFs(rng.randrange(nops), rng.choice(["before", "after", "torn", "torn"]),
                         rng.random(), OSError if io_error else Crash)
            try:
                r = trials.row(trial().evaluate(seed, fs))
                ctx.equal(trials.diff_rows(first, r), [], "row computed around a fault", first=first, row=r,
                          ops=fs.ops)
            except Crash:
                ctx.event("crash")
                if fs.mode == "torn":
                    ctx.event("torn_write")
            except OSError:
                ctx.event("io_error")
            points.append((fs.at, fs.mode, fs.fired, round(fs.cut, 3)))
            # a trial that has marked itself stays marked until its result is complete
            stored = os.path.exists(result_file) and open(result_file, newline="").read()
            marked = [i for i, o in enumerate(fs.ops[:-1]) if o[0] == "write_text"]
            if fs.fired and marked and stored != reference_bytes:
                ctx.event("interrupted_marked")
                ctx.check(any(not f.endswith(".csv") for f in files_under(work)),
                          "an interrupted trial without a result lost its pending marker",
                          ops=fs.ops, faults=points)
        again = trials.row(trial().evaluate(seed, FaultFs()))
        ctx.event("evaluate")
        ctx.event("resumed")
        ctx.equal(trials.diff_rows(first, again), [], "row after a crash", first=first, again=again,
                  faults=points)
        left = files_under(work)
        ctx.check(os.path.relpath(result_file, work) in left, "result file after recovery", left=left)
        ctx.equal(trials_csv(result_file), trials_csv_text(reference_bytes),
                  "the stored result after a crash is the complete one", faults=points)
        # a crash after the result is complete may leave the marker behind; nothing else
        extra = [f for f in left if f != os.path.relpath(result_file, work)]
        ctx.check(not any(f.endswith(".csv") for f in extra) and len(extra) <= 1,
                  "files left behind", left=left, faults=points)
        third = trials.row(trial().evaluate(seed, FaultFs()))
        ctx.equal(trials.diff_rows(first, third), [], "row read back after a crash", faults=points)
        ctx.seen(str(desc), seed, tuple(points))
    if rng.random() < 0.4:
        markers(ctx, rng, npubs, desc, seed, kw)
    # the descriptor is not consumed by evaluating it
    ctx.equal(str(desc), str(pristine), "the description of the trial changed")
    ctx.equal(repr(desc.system_params.generator.bit_generator.state),
              repr(pristine.system_params.generator.bit_generator.state),
              "the trial's source of randomness was advanced", key="generator-advanced")


def markers(ctx, rng, npubs, desc, seed, kw):
    """An interrupted trial keeps its own pending marker while other trials complete."""
    root = os.path.join(ctx.tmpdir(), "markers")
    design, _ = trials.design(ctx, 2, npubs, root=os.path.join(root, "data"))
    work = os.path.join(root, "work")
    exp_dir = os.path.join(work, "results")
    other = desc
    if rng.random() < 0.4:
        other = desc._replace(experiment_params=desc.experiment_params._replace(
            replica_id=desc.experiment_params.replica_id + 1))
    a = ExperimentalTrial(exp_dir, design, "set0", desc, **kw)
    b = ExperimentalTrial(exp_dir, design, "set0" if other is not desc else "set1", other, **kw)
    for at in range(6):  # interrupted as soon as it has marked itself as pending
        try:
            a.evaluate(seed, FaultFs(at, "after"))
            return
        except Crash:
            pass
        if files_under(work):
            break
    pending = files_under(work)
    if not pending or any(f.endswith(".csv") for f in pending):
        return
    b.evaluate(seed, FaultFs())
    left = files_under(work)
    ctx.event("marker_kept")
    ctx.equal([f for f in left if not f.endswith(".csv")], pending,
              "a completed trial touched the pending marker of another one", left=left)
    a.evaluate(seed, FaultFs())
    left = files_under(work)
    ctx.equal([f for f in left if not f.endswith(".csv")], [], "pending marker left", left=left)
    ctx.equal(len(left), 2, "one result per trial", left=left)


def trials_csv_text(text):
    import pandas as pd
    return [str(x) for x in pd.read_csv(io.StringIO(text)).iloc[0].tolist()]


def trials_csv(path):
    with open(path) as f:
        return trials_csv_text(f.read())


def judge_row(ctx, design, desc, seed, logs, r, fail, single_pub):
    ep, sp, ms = desc.experiment_params, desc.system_params, desc.modeling_strategy
    users = [set(u for u, _ in l) for l in logs]
    want = {
        "dataset": "set0", "trial": str(desc), "replica_id": ep.replica_id,
        "single_pub_model": ms.single_pub_model, "multi_pub_model": ms.multi_pub_model,
        "strategy": ms.strategy, "liquid_legions_sketch_size": sp.liquid_legions.sketch_size,
        "liquid_legions_decay_rate": sp.liquid_legions.decay_rate,
        "maximum_reach": len(set().union(*users)), "ncampaigns": len(logs),
        "largest_pub_reach": max(len(u) for u in users), "max_frequency": ep.max_frequency,
        "average_spend_fraction": sum(sp.campaign_spend_fractions) / len(sp.campaign_spend_fractions),
        "privacy_budget_epsilon": ep.privacy_budget.epsilon,
        "privacy_budget_delta": ep.privacy_budget.delta,
    }
    for k, v in want.items():
        ctx.check(k in r and trials.same_value(r[k], v), "column " + k, got=r.get(k), want=v)
    ctx.check(r["privacy_used_epsilon"] <= ep.privacy_budget.epsilon * (1 + 1e-9),
              "more privacy used than granted", row=r)
    if single_pub:
        columns = ["relative_error_at_{:03d}".format(i * 10) for i in range(1, 31)]
        columns += ["freq_{}_{}".format(F, c) for F in range(1, ep.max_frequency) for c in columns[:30]]
        columns += ["max_nonzero_frequency_from_halo", "max_nonzero_frequency_from_data"]
        ctx.equal([c for c in columns if c not in r], [], "columns of the single-publisher analysis")
    error = None
    try:
        metrics, tracker, h, surface = recompute(design, "set0", desc, seed)
    except Exception as e:  # the model does not exist for these (noisy) data
        error = e
    ctx.check(not fail or error is not None, "this trial was meant to fail")
    if error is not None:
        ctx.event("failed_model")
        ctx.equal(int(r["model_succeeded"]), 0, "a failed model is reported as failed", row=r)
        ctx.check(type(error).__name__ in str(r["model_exception"]), "the failure is explained",
                  row=r, error=repr(error))
        ctx.check(np.isnan(r["mean_error"]) and np.isnan(r["npoints"]), "no metrics for a failed model")
    else:
        ctx.equal(int(r["model_succeeded"]), 1, "model success flag", row=r)
        ctx.event("recomputed")
        for k, v in metrics.items():
            ctx.check(k in r and trials.same_value(r[k], v, 1e-7, 1e-10), "metric " + k, got=r.get(k), want=v,
                      trial=str(desc))
        used = tracker.privacy_consumption
        ctx.close(r["privacy_used_epsilon"], used.epsilon, "privacy used", rel=1e-9)
        ctx.close(r["privacy_used_delta"], used.delta, "privacy used (delta)", rel=1e-9, abs_=1e-18)
        ctx.equal(r["privacy_mechanisms"], "/".join(sorted(set(tracker.mechanisms))), "mechanisms")
        if single_pub:
            log, c = logs[0], h.campaign_spends[0]
            m = halo.gen.LogModel(log)
            for i in range(1, 31):
                s = c * i * 0.1
                near = any(abs(e - s) < 1e-9 for _, e in log)
                t = len(m.counts_by_spend(s))
                f = surface.by_spend([s], 1).reach(1)
                k = "relative_error_at_{:03d}".format(i * 10)
                ctx.check(k in r, "column " + k)
                if not near:
                    ctx.check(trials.same_value(r[k], abs(t - f) / t if t else float("nan"), 1e-6, 1e-9),
                              "relative error at a fraction of the campaign", column=k, got=r[k], true=t, fitted=f)
                for F in range(1, ep.max_frequency):
                    kf = "freq_{}_relative_error_at_{:03d}".format(F, i * 10)
                    ctx.check(kf in r, "column " + kf)
                    if near:
                        continue
                    t = halo.gen.kplus(m.counts_by_spend(s), F)[-1]
                    f = surface.by_spend([s], F).reach(F)
                    ctx.check(trials.same_value(r[kf], abs(t - f) / t if t else float("nan"), 1e-6, 1e-9),
                              "relative error at a frequency", column=kf, got=r[kf], true=t, fitted=f)
            kp = halo.point_kplus(surface._data[0])
            ctx.equal(int(r["max_nonzero_frequency_from_halo"]), sum(1 for x in kp if x),
                      "largest frequency measured")
            counts = m.counts_by_spend(c)
            ctx.equal(int(r["max_nonzero_frequency_from_data"]),
                      min(max(counts.values()), ep.max_frequency), "largest frequency of the campaign")
