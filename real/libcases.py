"""Small programs that use one numpy/pandas operation each.

The same source is executed with the real libraries (in the project's interpreter) and
with the contract models (in the verifier).  K builds the inputs on either side; x holds
plain integers.  See vc/libcheck.py.
"""


# -- numpy
def np_index(np, pd, K, x):
    return K.arr(x['xs'])[x['i']]


def np_slice(np, pd, K, x):
    return K.arr(x['xs'])[x['i']:x['j']]


def np_slice_open(np, pd, K, x):
    return K.arr(x['xs'])[x['i']:]


def np_reverse(np, pd, K, x):
    return K.arr(x['xs'])[::-1]


def np_mask(np, pd, K, x):
    a = K.arr(x['xs'])
    return a[a >= x['v']]


def np_take(np, pd, K, x):
    return K.arr(x['xs'])[K.arr(x['pos'])]


def np_setmask(np, pd, K, x):
    a = K.arr(x['xs']).copy()
    a[a > x['v']] += 7
    return a


def np_scatter(np, pd, K, x):
    a = K.arr(x['xs']).copy()
    a[K.arr(x['upos'])] = K.arr(x['uvals'])
    return a


def np_set_one(np, pd, K, x):
    a = K.arr(x['xs']).copy()
    a[x['i']] = x['v']
    return a


def np_left(np, pd, K, x):
    return np.searchsorted(K.arr(x['xs']), x['v'])


def np_right(np, pd, K, x):
    return np.searchsorted(K.arr(x['xs']), x['v'], side='right')


def np_left_many(np, pd, K, x):
    return K.arr(x['xs']).searchsorted(K.arr(x['ys']))


def np_right_many(np, pd, K, x):
    return K.arr(x['xs']).searchsorted(K.arr(x['ys']), side='right')


def np_compare(np, pd, K, x):
    return K.arr(x['xs']) <= x['v']


def np_compare_two(np, pd, K, x):
    return K.arr(x['zs']) != K.arr(x['ws'])


def np_logic(np, pd, K, x):
    a = K.arr(x['zs'])
    return (a >= x['v']) & ~(a == x['w']) | (a < x['u'])


def np_arith(np, pd, K, x):
    return (K.arr(x['zs']) - K.arr(x['ws'])) // 60000000000 + 1


def np_all_axis(np, pd, K, x):
    a = K.arr(x['zs'])
    return np.all([a >= x['v'], a < x['w']], axis=0)


def np_any(np, pd, K, x):
    return (K.arr(x['zs']) == x['v']).any()


def np_all(np, pd, K, x):
    return (K.arr(x['zs']) >= x['v']).all()


def np_flatnonzero(np, pd, K, x):
    return np.flatnonzero(K.arr(x['zs']) >= x['v'])


def np_argmax(np, pd, K, x):
    a = K.arr(x['zs']) >= x['v']
    return np.argmax(a) if len(a) else -1


def np_arange(np, pd, K, x):
    return np.arange(x['v'], x['w'] + 60000000000, 60000000000)


def np_concat(np, pd, K, x):
    return np.concatenate([K.arr(x['xs']), K.arr(x['ys']), K.arr(x['zs'])])


def np_sum(np, pd, K, x):
    return K.arr(x['zs']).sum()


def np_sum_bool(np, pd, K, x):
    return (K.arr(x['zs']) >= x['v']).sum()


def np_sum_positive(np, pd, K, x):
    return (K.arr(x['zs']) >= x['v']).sum() > 0


def np_sum_full(np, pd, K, x):
    a = K.arr(x['zs']) >= x['v']
    return a.sum() == len(a)


def np_where(np, pd, K, x):
    return np.where(K.arr(x['zs']) >= x['v'], K.arr(x['zs']), K.arr(x['ws']))


def np_contains(np, pd, K, x):
    return x['v'] in K.arr(x['zs'])


def np_maximum(np, pd, K, x):
    return np.maximum(K.arr(x['zs']), K.arr(x['ws']))


# -- DatetimeIndex
def ix_elem(np, pd, K, x):
    return K.dti(x['xs'])[x['i']]


def ix_slice(np, pd, K, x):
    return K.dti(x['xs'])[x['i']:x['j']]


def ix_get_loc(np, pd, K, x):
    return K.dti(x['xs']).get_loc(K.ts(x['v']))


def ix_contains(np, pd, K, x):
    return K.ts(x['v']) in K.dti(x['xs'])


def ix_get_indexer(np, pd, K, x):
    return K.dti(x['xs']).get_indexer(K.dti(x['zs']))


def ix_searchsorted(np, pd, K, x):
    return K.dti(x['xs']).searchsorted(K.ts(x['v']), side='right')


def ix_slice_indexer(np, pd, K, x):
    ix = K.dti(x['xs'])
    return ix[ix.slice_indexer(K.ts(x['v']), K.ts(x['w']))]


def ix_slice_locs(np, pd, K, x):
    lo, hi = K.dti(x['xs']).slice_locs(K.ts(x['v']), K.ts(x['w']))
    return K.arr([lo, hi]) if False else lo * 1000 + hi


def ix_unique(np, pd, K, x):
    return K.dti(x['zs']).unique()


def ix_isin(np, pd, K, x):
    return K.dti(x['xs']).isin(K.dti(x['zs']))


def ix_append(np, pd, K, x):
    return K.dti(x['xs']).append([K.dti(x['ys']), K.dti(x['zs'])])


def ix_mask(np, pd, K, x):
    ix = K.dti(x['zs'])
    return ix[ix >= K.ts(x['v'])]


def ix_mask_naive(np, pd, K, x):
    ix = K.naive(x['zs'])
    return ix[ix < K.ts(x['v'], None)]


def ix_add(np, pd, K, x):
    return K.dti(x['zs']) + pd.Timedelta(days=1, hours=-3, minutes=2)


def ix_weekday(np, pd, K, x):
    return np.asarray(K.dti(x['days']).weekday)


def ix_year(np, pd, K, x):
    return np.asarray(K.dti(x['days']).year)


def ix_normalize(np, pd, K, x):
    return K.dti(x['zs']).normalize()


def ix_monotonic(np, pd, K, x):
    return K.dti(x['zs']).is_monotonic_increasing


def ix_is_unique(np, pd, K, x):
    return K.dti(x['zs']).is_unique


def ix_values(np, pd, K, x):
    return K.dti(x['zs']).values.astype('int64')


def ix_from_values(np, pd, K, x):
    return pd.DatetimeIndex(K.arr(x['zs']).view('datetime64[ns]'), tz='UTC')


def ix_localize_none(np, pd, K, x):
    return K.dti(x['zs']).tz_localize(None)


def ix_localize(np, pd, K, x):
    return K.naive(x['zs']).tz_localize('UTC')


def ix_localize_twice(np, pd, K, x):
    return K.dti(x['zs']).tz_localize('UTC')


def ix_zone(np, pd, K, x):
    return K.naive(x['days']).tz_localize('America/New_York').tz_convert('UTC')


def ix_equals(np, pd, K, x):
    return K.dti(x['zs']).equals(K.dti(x['ws']))


def ix_overwrite(np, pd, K, x):
    ix = K.dti(x['xs'])
    ix.values[K.arr(x['upos'])] = K.dti(x['uvals']).values
    return ix


# -- Series and frames
def se_loc(np, pd, K, x):
    return K.ser(x['xs'], x['vals']).loc[K.ts(x['v'])]


def se_loc_range(np, pd, K, x):
    return K.ser(x['xs'], x['vals']).loc[K.ts(x['v']):K.ts(x['w'])]


def se_mask(np, pd, K, x):
    s = K.ser(x['xs'], x['vals'])
    return s.loc[(s >= K.ts(x['v'])) & (s <= K.ts(x['w']))]


def se_index_mask(np, pd, K, x):
    s = K.ser(x['xs'], x['vals'])
    return s[K.arr(x['flags']) == 1]


def se_concat(np, pd, K, x):
    return pd.concat([K.ser(x['xs'], x['vals']), K.ser(x['ys'], x['ys'])])


def se_sort(np, pd, K, x):
    return K.ser(x['dz'], x['dz']).sort_index()


def se_isnull(np, pd, K, x):
    return K.ser(x['xs'], x['nats']).isnull().values


def se_minus(np, pd, K, x):
    d = K.ser(x['xs'], x['nats']) - K.ser(x['xs'], x['vals'])
    return d.fillna(pd.Timedelta(seconds=0)).values.astype('int64')


def se_floor(np, pd, K, x):
    d = K.ser(x['xs'], x['vals']) - K.ser(x['xs'], x['xs'])
    return (d.values.astype('int64') // 60000000000).sum()


def se_values(np, pd, K, x):
    return K.ser(x['xs'], x['nats']).values.astype('int64')


def fr_at(np, pd, K, x):
    return K.frame(x['xs'], x['vals'], x['nats']).at[K.ts(x['v']), 'b']


def fr_loc(np, pd, K, x):
    return K.frame(x['xs'], x['vals'], x['nats']).loc[K.ts(x['v']), 'a']


def fr_range(np, pd, K, x):
    return K.frame(x['xs'], x['vals'], x['nats']).loc[K.ts(x['v']):K.ts(x['w']), 'a']


def fr_column(np, pd, K, x):
    return K.frame(x['xs'], x['vals'], x['nats']).b.values.astype('int64')


def fr_localize(np, pd, K, x):
    return K.frame(x['xs'], x['vals'], x['nats']).a.dt.tz_localize('UTC')


def fr_iloc(np, pd, K, x):
    return K.frame(x['xs'], x['vals'], x['nats']).a.iloc[x['i']]


# -- scalars
def ts_add(np, pd, K, x):
    return K.ts(x['v']) + pd.Timedelta(minutes=1, hours=5, days=-2)


def ts_diff(np, pd, K, x):
    return (K.ts(x['v']) - K.ts(x['w'])).value


def ts_compare(np, pd, K, x):
    return K.ts(x['v']) < K.ts(x['w'])


def ts_mixed(np, pd, K, x):
    return K.ts(x['v']) < K.ts(x['w'], None)


def ts_floor(np, pd, K, x):
    return K.ts(x['v']).floor('1T')


def ts_normalize(np, pd, K, x):
    return K.ts(x['v']).normalize()


def ts_fields(np, pd, K, x):
    t = K.ts(x['day'])
    return t.year * 10000 + t.month * 100 + t.day


def ts_weekday(np, pd, K, x):
    return K.ts(x['day']).weekday()


def ts_nat(np, pd, K, x):
    return pd.isnull(K.ser(x['xs'], x['nats']).iloc[x['i']])


def ts_offset(np, pd, K, x):
    from pandas.tseries.offsets import Day
    return K.ts(x['day']) + Day(3)


def ts_years(np, pd, K, x):
    return K.ts(x['day'], None) + pd.DateOffset(years=x['n'])


def _obs(name):
    def f(np, pd, K, x):
        import pandas.tseries.holiday as h
        return getattr(h, name)(K.ts(x['day'], None))
    f.__name__ = 'obs_' + name
    return f


for _n in ('sunday_to_monday', 'weekend_to_monday', 'next_monday', 'previous_friday',
           'nearest_workday', 'next_monday_or_tuesday', 'previous_workday', 'next_workday'):
    globals()['obs_' + _n] = _obs(_n)


def names():
    return sorted(n for n in globals() if n[:3] in ('np_', 'ix_', 'se_', 'fr_', 'ts_', 'obs'))
