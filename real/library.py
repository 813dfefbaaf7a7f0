"""The small programs of libcases.py on the real numpy and pandas."""
import numpy as np
import pandas as pd

from . import libcases


class K(object):
    @staticmethod
    def arr(v):
        return np.array(v, dtype='int64')

    @staticmethod
    def dti(v):
        return pd.DatetimeIndex(np.array(v, dtype='int64').view('datetime64[ns]'), tz='UTC')

    @staticmethod
    def naive(v):
        return pd.DatetimeIndex(np.array(v, dtype='int64').view('datetime64[ns]'))

    @staticmethod
    def ts(v, tz='UTC'):
        return pd.Timestamp(v, tz=tz)

    @staticmethod
    def ser(ix, v):
        return pd.Series(K.dti(v), index=K.dti(ix))

    @staticmethod
    def frame(ix, a, b):
        return pd.DataFrame(index=K.dti(ix), columns=['a', 'b'],
                            data=dict(a=K.dti(a), b=K.dti(b)), dtype='datetime64[ns]')


def encode(v):
    if v is pd.NaT:
        return ['nat']
    if isinstance(v, (bool, np.bool_)):
        return ['b', bool(v)]
    if isinstance(v, (int, np.integer)):
        return ['i', int(v)]
    if isinstance(v, pd.Timestamp):
        return ['t', int(v.value), v.tz is not None]
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            return ['B', [bool(e) for e in v]]
        return ['I', [int(e) for e in v.astype('int64')]]
    if isinstance(v, pd.DatetimeIndex):
        return ['D', [int(e) for e in v.asi8], v.tz is not None]
    if isinstance(v, pd.Series):
        return ['S', [int(e) for e in v.index.asi8],
                [int(e) for e in v.values.astype('datetime64[ns]').astype('int64')]]
    raise TypeError('no encoding for %s' % type(v))


def one(name, x):
    try:
        return encode(getattr(libcases, name)(np, pd, K, x))
    except Exception as e:
        return ['raise', [c.__name__ for c in type(e).__mro__], str(e)[:100]]


def library(job):
    return dict(results=[one(n, x) for n, x in job['cases']])
