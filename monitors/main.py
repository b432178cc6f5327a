"""Parent of a check: distributes cases over workers, judges, writes evidence.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 3: inconclusive (monitor never reached / too many unjudged executions).
"""

import argparse
import ast
import glob
import json
import os
import queue
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = "/opt/venv39/bin/python"


def module_for(prop):
    hits = glob.glob(os.path.join(ROOT, "monitors", prop.lower() + "_*.py"))
    if len(hits) != 1:
        sys.exit("no unique monitor module for {}".format(prop))
    return os.path.basename(hits[0])[:-3]


def constants(name):
    """The literal module constants (read without importing the module)."""
    tree = ast.parse(open(os.path.join(ROOT, "monitors", name + ".py")).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def known_findings(prop):
    """[(key, description)] of the listed (unrepaired) findings."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Worker:
    def __init__(self, name, seed, tier, errlog):
        self.errlog = errlog
        self.proc = subprocess.Popen(
            [PYPY, "-W", "ignore", "-m", "monitors.worker", name, str(seed), tier],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=errlog,
            cwd=ROOT,
            env=dict(os.environ, TMPDIR=SCRATCH),
            text=True,
            start_new_session=True,
        )

    def ready(self):
        return bool(self.proc.stdout.readline())

    def run(self, index, wall):
        timer = threading.Timer(wall, self.kill)
        timer.start()
        try:
            self.proc.stdin.write("{}\n".format(index))
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except (BrokenPipeError, ValueError):
            line = ""
        finally:
            timer.cancel()
        if not line.endswith("\n"):
            return None
        return json.loads(line)

    def bloated(self):
        """PyPy gives memory back late: a fresh worker is cheaper than running out."""
        try:
            with open("/proc/{}/statm".format(self.proc.pid)) as f:
                return int(f.read().split()[1]) * 4096 > 1.5e9
        except (OSError, ValueError, IndexError):
            return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        try:
            self.proc.wait(timeout=5)
        except subprocess.TimeoutExpired:
            pass
        self.kill()
        self.proc.wait()


def explore(name, prop, seed, tier, indices, jobs, deadline, wall_case, errpath):
    todo = queue.Queue()
    for i in indices:
        todo.put((i, 0))
    results, lock, stop = [], threading.Lock(), threading.Event()
    stats = {"worker_deaths": 0, "startup_failures": 0, "workers_recycled": 0}

    def loop():
        w = None
        with open(errpath, "a") as errlog:
            while not stop.is_set() and time.monotonic() < deadline:
                try:
                    index, tries = todo.get_nowait()
                except queue.Empty:
                    break
                if w is None:
                    w = Worker(name, seed, tier, errlog)
                    if not w.ready():
                        w.close()
                        w = None
                        todo.put((index, tries))
                        with lock:
                            stats["startup_failures"] += 1
                            if stats["startup_failures"] > 12:
                                stop.set()
                        continue
                rec = w.run(index, wall_case)
                if rec is None:  # the interpreter died, or the watchdog fired
                    w.close()
                    w = None
                    with lock:
                        stats["worker_deaths"] += 1
                    if tries < 3:
                        todo.put((index, tries + 1))
                    else:
                        with lock:
                            results.append(
                                {"index": index, "verdict": "inconclusive",
                                 "message": "interpreter died / wall watchdog",
                                 "events": {}, "keys": [], "checks": 0,
                                 "sample": None}
                            )
                    continue
                if w.bloated():
                    w.close()
                    w = None
                    with lock:
                        stats["workers_recycled"] += 1
                with lock:
                    results.append(rec)
                    bad = sum(
                        r["verdict"] == "violated" and r["key"] not in KNOWN
                        for r in results
                    )
                    if bad >= 5:
                        stop.set()
        if w is not None:
            w.close()

    threads = [threading.Thread(target=loop) for _ in range(jobs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results, stats


KNOWN = {}
SCRATCH = None


def main():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="vmon-")
    try:
        return _main()
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    prop = args.property
    name = module_for(prop)
    const = constants(name)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    KNOWN.update(dict(known_findings(prop)))
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    errpath = os.path.join(evdir, prop + ".stderr.log")
    open(errpath, "w").close()

    seed = args.seed
    if args.replay:
        rep = json.load(open(args.replay))
        seed, tier = rep["seed"], rep["tier"]
        indices = [rep["index"]]
        args.jobs = 1
    else:
        ncases = args.cases or const["THOROUGH" if tier == "thorough" else "QUICK"]
        indices = list(range(ncases))
    budget = 2400 if tier == "thorough" else 600
    deadline = t0 + budget
    wall_case = const.get("CASE_WALL_S", 240)
    results, stats = explore(
        name, prop, seed, tier, indices, min(args.jobs, const.get("JOBS", 8), len(indices)), deadline,
        wall_case, errpath,
    )
    results.sort(key=lambda r: r["index"])

    events, keys, checks = {}, set(), 0
    verdicts = {}
    for r in results:
        verdicts[r["verdict"]] = verdicts.get(r["verdict"], 0) + 1
        checks += r["checks"]
        if r["verdict"] == "held":
            keys.update(r["keys"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
    violated = [r for r in results if r["verdict"] == "violated"]
    new = [r for r in violated if r["key"] not in KNOWN]
    judged = verdicts.get("held", 0) + len(violated)

    reasons = []
    if not args.replay:
        required = const.get("REQUIRED", {})
        scale = judged / max(1, len(indices))
        for k, v in required.items():
            need = 1 if args.cases else max(1, int(v * min(1.0, scale)))
            if events.get(k, 0) < need:
                reasons.append("event {} seen {} times, needs {}".format(
                    k, events.get(k, 0), need))
        if judged < 0.5 * len(indices):
            reasons.append("only {} of {} executions judged".format(
                judged, len(indices)))
        if verdicts.get("inconclusive", 0) > 0.1 * len(indices):
            reasons.append("{} inconclusive executions".format(
                verdicts["inconclusive"]))
        if stats["startup_failures"] > 12:
            reasons.append("workers do not start (see {})".format(errpath))

    held_samples = [
        {"index": r["index"], "case": r["sample"], "events": r["events"]}
        for r in results if r["verdict"] == "held" and r["sample"]
    ]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": judged,
            "distinct_nontrivial": len(keys),
            "rule": const["RULE"],
            "samples": held_samples[:3],
            "oracle_checks": checks,
            "events_observed": dict(sorted(events.items())),
            "verdicts": verdicts,
            "worker_deaths": stats["worker_deaths"],
            "inconclusive_reasons": reasons,
        },
        "assumptions": const.get("ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(new),
    }
    if not args.replay:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    print("{} tier={} seed={} judged={} distinct={} oracle_checks={} verdicts={} "
          "deaths={} wall={:.1f}s".format(
              prop, tier, seed, judged, len(keys), checks, verdicts,
              stats["worker_deaths"], time.monotonic() - t0))
    print("events: " + json.dumps(dict(sorted(events.items()))))
    hit = {}
    for r in violated:
        if r["key"] in KNOWN:
            hit.setdefault(r["key"], r)
    # every listed finding is announced, whether or not this run met it
    for key, desc in KNOWN.items():
        print("KNOWN-FINDING: property={} {}".format(prop, desc))
    for n, r in enumerate(new[:5]):
        path = os.path.join(evdir, "replays", "{}-seed{}-{}-{}.json".format(
            prop, seed, tier, r["index"]))
        with open(path, "w") as f:
            json.dump(dict(r, property=prop, seed=seed, tier=tier), f, indent=1)
        print("  [{}] {}".format(r["key"], r["message"][:400]))
        print("    details: " + json.dumps(r.get("details"))[:600])
        if r["key"] == "exception":
            print("    " + r["traceback"][-900:].replace("\n", "\n    "))
        print("VIOLATION property={} replay={}".format(prop, path))
    if new:
        return 1
    if reasons:
        print("INCONCLUSIVE: " + "; ".join(reasons))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
