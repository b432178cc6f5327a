"""Environment of the monitored code.

* pandas' C csv parser aborts the PyPy process now and then ("dying CPython
  object"), so read_csv defaults to the pure Python engine here.
* matplotlib etc. are not touched.
"""

import pandas as _pd

_orig_read_csv = _pd.read_csv


def _read_csv(*args, **kw):
    kw.setdefault("engine", "python")
    return _orig_read_csv(*args, **kw)


_pd.read_csv = _read_csv
