"""C04: what is written to storage is what is read back."""

import copy
import io
import os

from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
from wfa_planning_evaluation_framework.data_generators.publisher_data import (
    PublisherData,
)
from monitors.c02_data_set_truth import make_logs
from monitors.fs import cloud_fs, local_fs
from monitors.gen import add_counts, LogModel, impression_log, kplus, probe_spends

ID = "C04"
RULE = (
    "a case writes and reads back a random publisher log, a random data set, or a random "
    "sequence of DataDesign operations (add, duplicate add, reopen, by_name, rewrite) on local "
    "disk or an emulated bucket, or feeds a corrupted publisher file; what is read is compared "
    "by its answers with the logs written; non-trivial: >= 2 publishers or a corruption, "
    "distinct by (kind, storage, sizes, names)"
)
QUICK = 8000
THOROUGH = 80000
REQUIRED = {"publisher_roundtrip": 200, "dataset_roundtrip": 200, "design_ops": 200,
            "corrupt_file": 200, "rejected_invalid_input": 200,
            "stale_handle_add": 100}
ASSUMPTIONS = ["the universe size is not part of the stored format"]

PUB_NAMES = ["pub1", "pub10", "pub2", "a.b", "x y", "A", "b_1=2", "Ü", "z-9", ".p", "_p", " lead", "tail ", "PUB1", "p.csv", "n'q\"",
             "~t", "#h", "t~", "b.bak", "m.tmp", "c.swp", "README", "7", "d.json", "desktop.ini", "p(1)", "S" * 200]
DS_NAMES = ["ds1", "homog_p=10_rep=3", "d s", "x.y", "é1", "Data-2", "ds10", "ds2",
            ".dot", "_under", " lead", "tail ", "DS1", "d.csv", "#n", "~m",
            "q'\"", "L" * 200]


def same_log(ctx, pub, log, what):
    """pub answers as the log does (judged through its public queries)."""
    m = LogModel(log)
    ctx.equal(pub.max_impressions, len(log), what + ": number of impressions", log=log)
    ctx.equal(pub.max_spend, max(s for _, s in log), what + ": max_spend", log=log)
    ctx.equal(pub.max_reach, len({i for i, _ in log}), what + ": max_reach", log=log)
    for s in sorted({s for _, s in log}):
        ctx.equal(dict(pub.user_counts_by_spend(s)), m.counts_by_spend(s),
                  what + ": users at a spend", spend=s, log=log)
        ctx.equal(pub.impressions_by_spend(s), m.impressions_by_spend(s),
                  what + ": impressions at a spend", spend=s, log=log)
    for n in range(0, len(log) + 2, max(1, len(log) // 7)):
        ctx.equal(pub.spend_by_impressions(n), m.spend_by_impressions(n),
                  what + ": spend of n impressions", n=n, log=log)


def same_dataset(ctx, rng, ds, logs, what):
    """ds answers as a data set made of `logs` (in that publisher order)."""
    models = [LogModel(l) for l in logs]
    ctx.equal(ds.publisher_count, len(logs), what + ": publisher_count")
    ctx.equal(ds.maximum_reach, len({i for l in logs for i, _ in l}), what + ": maximum_reach")
    for _ in range(4):
        spends = [rng.choice(probe_spends(rng, [l], 1)) for l in logs]
        pt = ds.reach_by_spend(spends, 4)
        tot = add_counts(*[m.counts_by_spend(s) for m, s in zip(models, spends)])
        ctx.equal([pt.reach(k) for k in range(1, 5)], kplus(tot, 4), what + ": reach",
                  spends=spends, logs=logs)
        ctx.equal(list(pt.impressions), [m.impressions_by_spend(s)
                                         for m, s in zip(models, spends)],
                  what + ": impressions", spends=spends, logs=logs)


def pick_fs(ctx):
    if ctx.rng.random() < 0.25:
        ctx.event("storage_cloud")
        return cloud_fs(ctx) + (True,)
    ctx.event("storage_local")
    return local_fs(ctx) + (False,)


def roundtrip_publisher(ctx):
    rng = ctx.rng
    log = impression_log(rng, max_len=rng.choice([1, 5, 60]))
    pub = PublisherData(copy.deepcopy(log), "p")
    buf = io.StringIO()
    pub.write_publisher_data(buf)
    text = buf.getvalue()
    # on disk format: one "id,spend" line per impression
    lines = text.splitlines()
    ctx.equal(len(lines), len(log), "number of lines written")
    back = PublisherData.read_publisher_data(io.StringIO(text))
    same_log(ctx, back, log, "publisher file")
    # writing what was read is stable
    buf2 = io.StringIO()
    back.write_publisher_data(buf2)
    again = PublisherData.read_publisher_data(io.StringIO(buf2.getvalue()))
    same_log(ctx, again, log, "publisher file, second generation")
    # a file in any line order is the same log
    rng.shuffle(lines)
    shuffled = PublisherData.read_publisher_data(io.StringIO("\n".join(lines) + "\n"))
    same_log(ctx, shuffled, log, "publisher file with lines reordered")
    ctx.event("publisher_roundtrip")
    ctx.note(kind="publisher", log=log[:10])
    ctx.seen("pub", len(log), len({i for i, _ in log}), tuple(lines[:3]))


def corrupt_publisher(ctx):
    rng = ctx.rng
    log = impression_log(rng, max_len=12)
    lines = ["{},{}".format(i, s) for i, s in log]
    kind = rng.choice(["noid", "nospend", "extra", "text", "blank", "floatid", "nosep", "comma_end", "comma_start",
                       "two_commas", "semicolon", "header", "rubbish", "hexid", "tab"])
    bad = {
        "noid": ",1.0", "nospend": "3,", "extra": "3,1.0,5", "text": "abc,1.0",
        "blank": "", "floatid": "1.5,2.0", "nosep": "3 1.0",
        "comma_end": "3,1.0,", "comma_start": ",3,1.0", "two_commas": "3,,1.0", "semicolon": "3;1.0",
        "header": "id,spend", "rubbish": "3,1.0 x", "hexid": "0x10,1.0", "tab": "3\t1.0",
    }[kind]
    pos = rng.randrange(0, len(lines) + 1)
    lines.insert(pos, bad)
    text = "\n".join(lines) + "\n"
    ctx.event("corrupt_file")
    ctx.raises(RuntimeError,
               lambda: PublisherData.read_publisher_data(io.StringIO(text)),
               "malformed publisher file", kind=kind, text=text)
    if rng.random() < 0.5:
        fs, root, cloud = pick_fs(ctx)
        d = fs.joinpath(root, "broken")
        fs.mkdir(d, parents=True, exist_ok=True)
        fs.write_text(fs.joinpath(d, "good"), "1,1.0\n2,2.0\n")
        fs.write_text(fs.joinpath(d, rng.choice(["bad", "zbad"])), text)
        ctx.raises(RuntimeError, lambda: DataSet.read_data_set(d, fs),
                   "data set with a malformed publisher file", kind=kind, text=text)
    ctx.note(kind="corrupt:" + kind, text=text[:200])
    ctx.seen("corrupt", kind, pos, len(lines))


def roundtrip_dataset(ctx):
    rng = ctx.rng
    logs = make_logs(rng, max_pubs=5, max_len=20)
    names = rng.sample(PUB_NAMES, len(logs))
    ds_name = rng.choice(DS_NAMES)
    fs, root, cloud = pick_fs(ctx)
    pubs = [PublisherData(copy.deepcopy(l), n) for l, n in zip(logs, names)]
    ds = DataSet(pubs, ds_name)
    if rng.random() < 0.3:
        pubs[0].name = "renamed afterwards"
    explicit = rng.random() < 0.4
    dirname = "other dir" if explicit else ds_name
    if explicit:
        ds.write_data_set(root, dirname, filesystem=fs)
    else:
        ds.write_data_set(root, filesystem=fs)
    if rng.random() < 0.25:  # storing again replaces what is there
        again = [PublisherData(impression_log(rng, max_len=30), n) for n in names]
        DataSet(again, ds_name).write_data_set(root, dirname, filesystem=fs)
        ds.write_data_set(root, dirname, filesystem=fs)
        ctx.event("written_over")
    path = fs.joinpath(root, dirname)
    files = sorted(fs.name(f) for f in fs.glob(path, "*"))
    ctx.equal(files, sorted(names), "one file per publisher, named after it")
    before = {n: fs.open(fs.joinpath(path, n)).read() for n in names}
    if not cloud and rng.random() < 0.4:  # a stray subdirectory is not a publisher
        os.mkdir(os.path.join(path, "subdir"))
        ctx.event("stray_directory")
    back = DataSet.read_data_set(path, fs)
    order = [logs[names.index(n)] for n in sorted(names)]
    ctx.equal(back.name, dirname, "name of a data set read from disk")
    same_dataset(ctx, rng, back, order, "data set read back")
    # writing what was read, elsewhere, reproduces it and leaves the source alone
    dest = fs.joinpath(root, "dest")
    fs.mkdir(dest, parents=True, exist_ok=True)
    back.write_data_set(dest, filesystem=fs)
    copy_path = fs.joinpath(dest, back.name)
    ctx.equal(sorted(fs.name(f) for f in fs.glob(copy_path, "*") if fs.is_file(f)),
              sorted(names), "files of the second generation")
    second = DataSet.read_data_set(copy_path, fs)
    same_dataset(ctx, rng, second, order, "data set, second generation")
    for n in names:
        with fs.open(fs.joinpath(path, n)) as f:
            ctx.equal(f.read(), before[n], "re-writing a read data set changed its source")
    ctx.event("dataset_roundtrip")
    ctx.note(kind="dataset", names=names, cloud=cloud, logs=[l[:5] for l in logs])
    if len(logs) > 1:
        ctx.seen("ds", cloud, tuple(names), tuple(len(l) for l in logs), explicit)


def design_ops(ctx):
    rng = ctx.rng
    fs, root, cloud = pick_fs(ctx)
    path = fs.joinpath(root, "design")
    if cloud:  # the emulated bucket cannot list a prefix that does not exist
        fs.write_text(fs.joinpath(path, "README"), "not a data set")
    design = DataDesign(path, fs)
    handles = [DataDesign(path, fs)]
    ctx.equal(design.count, 0, "count of an empty design")
    model = {}
    trace = []
    read = set()
    for _ in range(rng.randrange(3, 9)):
        op = rng.choice(["add", "add", "add", "dup", "reopen", "read", "stray"])
        if op == "add":
            free = [n for n in DS_NAMES if n not in model]
            if not free:
                continue
            name = rng.choice(free)
            logs = make_logs(rng, max_pubs=3, max_len=10)
            names = rng.sample(PUB_NAMES, len(logs))
            design.add(DataSet([PublisherData(copy.deepcopy(l), n)
                                for l, n in zip(logs, names)], name))
            model[name] = [logs[names.index(n)] for n in sorted(names)]
        elif op == "dup" and model:
            name = rng.choice(sorted(model))
            other = DataSet([PublisherData([(5, 5.0)], "intruder")], name)
            # through this object, or one opened when the design held less
            via = rng.choice([design] + handles)
            ctx.raises(ValueError, lambda: via.add(other),
                       "adding a data set under an existing name", name=name,
                       stale=via is not design)
            if via is not design:
                ctx.event("stale_handle_add")
                ctx.check("intruder" not in [fs.name(f) for f in
                                             fs.glob(fs.joinpath(path, name), "*")],
                          "refused data set was stored nevertheless", name=name)
                same_dataset(ctx, rng, design.by_name(name), model[name],
                             "data set after a refused add")
            ctx.event("duplicate_add")
        elif op == "reopen":
            handles.append(design)
            design = DataDesign(path, fs)
        elif op == "stray" and not cloud:
            fs.write_text(fs.joinpath(path, "README"), "not a data set")
        elif op == "read" and model:
            name = rng.choice(sorted(model))
            read.add(name)
            got = design.by_name(name)
            ctx.equal(got.name, name, "name of by_name")
            same_dataset(ctx, rng, got, model[name], "by_name")
        trace.append(op)
        ctx.equal(design.count, len(model), "count", trace=trace)
        ctx.equal(list(design.names), sorted(model), "names", trace=trace)
    # a second process sees the same
    fresh = DataDesign(path, fs)
    ctx.equal(list(fresh.names), sorted(model), "names after reopening", trace=trace)
    ctx.equal(fresh.count, len(model), "count after reopening", trace=trace)
    for name in sorted(model):
        same_dataset(ctx, rng, fresh.by_name(name), model[name], "by_name after reopening")
    ctx.event("design_ops", len(trace))
    ctx.note(kind="design", trace=trace, names=sorted(model), cloud=cloud)
    if len(model) > 1:
        ctx.seen("design", cloud, tuple(trace), tuple(sorted(model)))


def case(ctx):
    ctx.rng.choice([roundtrip_publisher, corrupt_publisher, roundtrip_dataset,
                    design_ops])(ctx)
