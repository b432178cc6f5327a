"""Worker: runs the cases it is told to on stdin, one JSON record per line."""

import faulthandler
import importlib
import json
import os
import signal
import sys
import warnings

warnings.filterwarnings("ignore")

from monitors import env  # noqa: E402  (patches pandas.read_csv for PyPy)
from monitors import core  # noqa: E402


def main():
    name = sys.argv[1]
    seed = int(sys.argv[2])
    tier = sys.argv[3]
    out = os.fdopen(os.dup(1), "w")
    # whatever the code under test prints goes to stderr
    os.dup2(2, 1)
    module = importlib.import_module("monitors." + name)
    cpu = getattr(module, "CASE_CPU_S", 120)

    def on_cpu(signum, frame):
        raise core.CpuBudgetExceeded(cpu)

    signal.signal(signal.SIGPROF, on_cpu)
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        index = int(line)
        signal.setitimer(signal.ITIMER_PROF, cpu)
        try:
            rec = core.run_case(module, seed, tier, index)
        except core.CpuBudgetExceeded:
            rec = {"index": index, "verdict": "inconclusive",
                   "message": "cpu budget exceeded outside the case",
                   "events": {}, "keys": [], "checks": 0, "sample": None}
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        out.write(json.dumps(rec) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
