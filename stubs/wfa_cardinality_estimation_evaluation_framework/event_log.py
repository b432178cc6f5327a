"""Event log shared by the recording stand-ins.

The external cardinality-estimation package is not installable offline.  These
stand-ins implement the part of its interface the repository uses and append
one event per observable operation, so monitors can watch the boundary between
the repository and the sketching / noising layer.
"""
EVENTS = []


def record(kind, **fields):
    EVENTS.append((kind, fields))


def reset():
    del EVENTS[:]


def of_kind(kind):
    return [f for k, f in EVENTS if k == kind]
