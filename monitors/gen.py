"""Workload generators shared by the monitors, and small reference models."""

from collections import Counter


# distinct users whose ids agree in their low (16, 31, 32 or 53) bits or as floats
WIDE = [5, 5 + 2 ** 16, 5 + 2 ** 31, 5 + 2 ** 32, 5 - 2 ** 31, 5 + 2 ** 53, 6 + 2 ** 53,
        2 ** 62 + 5, 2 ** 62 + 6, -5]


def spend_value(rng, style):
    if style == "int":
        return rng.randrange(0, 12)
    if style == "cents":
        return rng.randrange(0, 400) / 100.0
    if style == "float":
        return rng.random() * 10 ** rng.randrange(-3, 5)
    if style == "ties":
        return rng.choice([0.25, 0.5, 1.0, 2.0])
    if style == "close":
        base = rng.choice([0.1, 0.3, 1.0, 7.7])
        return base + rng.choice([0, 1e-15, 2e-16, 1e-12, 1e-9])
    raise AssertionError(style)


def impression_log(rng, max_len=60, min_len=1, id_pool=None, style=None, order=None):
    """A raw (id, spend) log in arbitrary order."""
    n = rng.randrange(min_len, max_len + 1)
    ids = id_pool or rng.choice(
        [
            list(range(1, 2 + rng.randrange(1, 6))),
            list(range(0, n + 1)),
            list(range(-3, 4)),
            [10 ** 12 + i for i in range(5)],
            [7],
            WIDE,
        ]
    )
    style = style or rng.choice(["int", "cents", "float", "ties", "close"])
    log = [(rng.choice(ids), spend_value(rng, style)) for _ in range(n)]
    order = order or rng.choice(["raw", "sorted", "reversed"])
    if order == "sorted":
        log.sort(key=lambda e: e[1])
    elif order == "reversed":
        log.sort(key=lambda e: -e[1])
    return log


def probe_spends(rng, logs, extra=3):
    """Spends on, just below and just above event spends, plus extremes."""
    spends = sorted({s for log in logs for _, s in log})
    out = [0, -1.0, 1e18]
    for s in rng.sample(spends, min(len(spends), 6)):
        out += [s, s - 1e-9 * max(1, abs(s)), s + 1e-9 * max(1, abs(s))]
    for _ in range(extra):
        out.append(rng.random() * (spends[-1] or 1) * 1.2)
    return out


class LogModel:
    """Reference semantics of a single publisher's log (no data structure)."""

    def __init__(self, log):
        self.log = list(log)

    def impressions_by_spend(self, s):
        return sum(1 for _, e in self.log if e <= s)

    def counts_by_spend(self, s):
        return dict(Counter(i for i, e in self.log if e <= s))

    def spend_by_impressions(self, n):
        if n == 0:
            return 0.0
        return sorted(e for _, e in self.log)[min(n, len(self.log)) - 1]

    def prefix_ok(self, n, counts):
        """counts is the user count of SOME n events taken in spend order."""
        n = min(n, len(self.log))
        if sum(counts.values()) != n or any(v <= 0 for v in counts.values()):
            return False
        if n == 0:
            return counts == {}
        last = sorted(e for _, e in self.log)[n - 1]
        must = Counter(i for i, e in self.log if e < last)
        may = Counter(i for i, e in self.log if e <= last)
        return all(counts.get(i, 0) >= c for i, c in must.items()) and all(
            c <= may.get(i, 0) for i, c in counts.items()
        )


def kplus(counts, max_frequency):
    return [
        sum(1 for c in counts.values() if c >= k) for k in range(1, max_frequency + 1)
    ]


def add_counts(*dicts):
    total = Counter()
    for d in dicts:
        total.update(d)
    return dict(total)
