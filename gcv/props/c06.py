"""C06 the common contract of the climatology functions."""
import numpy as np, xarray as xr, datetime
import geocat.comp as gc
from .. import climo
from ..gen import pick, chance, parts, wrap_da, stamps, SEASONS, field
from ..core import tonp

QUICK = 3
ID = 'C06'
RULE = ('Random series (7 calendars) made irregular by dropping, moving or repeating interior samples, with non-date time axes, '
        'unknown frequencies and seasons (must raise), and regular series for which dataset and data array, renamed and '
        'moved time dimension must give the same numbers, extra coordinates survive and keep_attrs decides the attributes.')

FUNCS = ([('calendar_average', f) for f in ('hour', 'day', 'month', 'season', 'year')]
         + [('climatology_average', f) for f in ('hour', 'day', 'month', 'season')]
         + [('climate_anomaly', f) for f in ('day', 'month', 'season', 'year')]
         + [('month_to_season', s) for s in ('DJF', 'JJA', 'NDJ', 'FMA')])


def irregular(ctx):
    """A time axis that is neither uniform nor one sample per month must be refused."""
    rng = ctx.rng
    name, f = pick(rng, [x for x in FUNCS if x[0] != 'month_to_season'])
    cal = pick(rng, ['np', 'noleap', '360_day', 'standard', 'julian'])
    step, lo = pick(rng, [(climo.H, 30), (6 * climo.H, 60), (climo.D, 40), (climo.D, 400), (('M', 1, 1), 24), (('M', 1, 15), 24)])
    n = lo + int(rng.integers(0, 200 if lo >= 30 else 40))
    if f == 'hour' and not (isinstance(step, datetime.timedelta) and step <= climo.H):
        n = min(n, 48)
    t = stamps(cal, (int(rng.integers(1960, 2060)), 1, 1 if not isinstance(step, tuple) else step[2]), n, step)
    kind = pick(rng, ['drop', 'drop_many', 'shift', 'double'])
    i = int(rng.integers(2, n - 2))
    if kind == 'drop':
        t = np.delete(t, i)
    elif kind == 'drop_many':
        k = np.unique(rng.integers(1, n - 1, size=int(rng.integers(2, 6))))
        t = np.delete(t, k)
    elif kind == 'shift':
        d = (t[i + 1] - t[i]) / 3
        if isinstance(step, tuple):
            t = np.insert(t, i, t[i] - d) if cal != 'np' else np.insert(t, i, t[i] - (t[i] - t[i - 1]) // 3)
        else:
            t = np.array(t)
            t[i] = t[i] + d
    else:
        t = np.insert(t, i + 1, t[i] + (t[i + 1] - t[i]) / 2 if cal != 'np' else t[i] + (t[i + 1] - t[i]) // 2)
    ps = [parts(x) for x in t]
    months = [p[:2] for p in ps]
    gaps = np.diff(t)
    if len(set(gaps)) == 1:
        from ..core import Reject
        raise Reject('still uniform')
    if len(set(months)) == len(months) == (months[-1][0] - months[0][0]) * 12 + months[-1][1] - months[0][1] + 1:
        from ..core import Reject
        raise Reject('still one sample per month')
    ctx.note(fn=name, freq=f, kind=kind, step=str(step), calendar=cal)
    da = wrap_da(rng.standard_normal(len(t)), t)
    obj = da.to_dataset(name='T') if chance(rng, 0.3) else da
    ctx.raises(ValueError, getattr(gc, name), obj, f, what=f'{kind} in a {step} axis')


def not_dates(ctx):
    rng = ctx.rng
    name, f = pick(rng, FUNCS)
    n = 24
    kind = pick(rng, ['int', 'float', 'timedelta', 'str'])
    t = {'int': np.arange(n), 'float': np.arange(n) * 0.5, 'timedelta': np.arange(n).astype('timedelta64[D]').astype('timedelta64[ns]'),
         'str': np.array([f'2000-{i:02d}' for i in range(n)])}[kind]
    da = wrap_da(rng.standard_normal(n), t)
    ctx.note(fn=name, kind=kind)
    kw = {} if chance(rng, 0.5) else ({'time_coord_name': 'time'} if name == 'month_to_season' else {'time_dim': 'time'})
    ctx.raises(ValueError, getattr(gc, name), da, f, what=f'{kind} time axis', **kw)


def bad_args(ctx):
    rng = ctx.rng
    cal = pick(rng, ['np', 'noleap', '360_day'])
    n = 36
    t = stamps(cal, (2000, 1, 1), n, ('M', 1, 1))
    da = wrap_da(rng.standard_normal(n), t)
    kind = pick(rng, ['freq', 'season', 'custom', 'length'])
    if kind == 'freq':
        name = pick(rng, ['calendar_average', 'climatology_average', 'climate_anomaly'])
        bad = pick(rng, ['decade', 'hourly', 'months', 'Season', 'MS', 'D', '', 'week',
                         {'calendar_average': 'minute', 'climatology_average': 'year', 'climate_anomaly': 'hour'}[name]])
        ctx.note(fn=name, bad=bad)
        ctx.raises((ValueError, KeyError), getattr(gc, name), da, bad, what=f'freq={bad!r}')
    elif kind == 'season':
        bad = pick(rng, ['XXX', 'djf', 'JF', 'JFMA', 'JJJ', '', 'DJFM', 'MMA'])
        ctx.note(fn='month_to_season', bad=bad)
        ctx.raises((ValueError, KeyError), gc.month_to_season, da, bad, what=f'season={bad!r}')
    elif kind == 'custom':
        good = [str(s) for s in rng.permutation(list(SEASONS))[:int(rng.integers(0, 4))]]
        bad = pick(rng, ['XXX', 'djf', 'JF', 'JFMA', 'DJFM'])
        lst = list(good)
        lst.insert(int(rng.integers(len(good) + 1)), bad)
        ctx.note(fn='climatology_average', bad=bad, at=lst.index(bad))
        ctx.raises((ValueError, KeyError), gc.climatology_average, da, 'season', what=f'custom_seasons={lst}', custom_seasons=lst)
    else:
        k = int(rng.integers(1, 36))
        if k % 12 == 0:
            k += 1
        ctx.note(fn='month_to_season', length=k)
        ctx.raises(ValueError, gc.month_to_season, da.isel(time=slice(0, k)), pick(rng, sorted(SEASONS)), what=f'{k} months')


def same(ctx):
    """Dataset / data array / transposed / renamed time give the same values; metadata contract."""
    rng = ctx.rng
    name, f = pick(rng, [x for x in FUNCS])
    cal = pick(rng, ['np', 'noleap', '360_day', 'standard', 'julian'])
    y = int(rng.integers(1960, 2060))
    if f == 'hour':
        t = stamps(cal, (y, 3, 1, 0), int(rng.integers(30, 200)), climo.H)
    elif f == 'day':
        t = stamps(cal, (y, 3, 1, 0), int(rng.integers(30, 500)), pick(rng, [climo.D, 6 * climo.H]))
    else:
        t = stamps(cal, (y, 1, 1), 12 * int(rng.integers(1, 5)), ('M', 1, 1))
    n = len(t)
    tkw = 'time_coord_name' if name == 'month_to_season' else 'time_dim'
    a, nan = climo.values(rng, n, (2, 3))
    attrs = {'units': 'K', 'long_name': 'a name'}
    da = wrap_da(a, t, space=['lat', 'lon'], axis=0, attrs=attrs, name='T')
    da = da.assign_coords(label=('lon', np.array(list('abc'))), area=(('lat', 'lon'), rng.random((2, 3))))
    fn = getattr(gc, name)
    ctx.note(fn=name, freq=f, calendar=cal, nan=nan)
    keep = pick(rng, [None, True, False, 'omit'])
    kk = {} if keep == 'omit' else {'keep_attrs': keep}
    ref = ctx.call(fn, da, f, **kk)
    ctx.note(keep_attrs=keep)
    od = ref.dims
    ctx.ok(set(od) - {'season', 'time'} == {'lat', 'lon'}, f'dims {od}')
    ctx.equal(dict(ref.attrs), {} if keep is False else attrs, f'attributes with keep_attrs={keep}')
    for c in ('lat', 'lon', 'label', 'area'):
        ctx.ok(c in ref.coords, f'coordinate {c} lost by {name}({f})')
        ctx.ok(np.array_equal(ref[c].values, da[c].values), f'coordinate {c} changed by {name}({f})')
    sc = np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1
    # time moved
    axis = [['lat', 'time', 'lon'], ['lat', 'lon', 'time'], ['lon', 'time', 'lat']][int(rng.integers(3))]
    r2 = ctx.call(fn, da.transpose(*axis), f)
    ctx.close(r2.transpose(*od), ref, f'{name}({f}) with dims {axis}', rtol=1e-10, scale=sc)
    # time renamed
    if name == 'climate_anomaly' or True:
        r3 = ctx.call(fn, da.rename(time='valid_time'), f, **{tkw: 'valid_time'})
        r3 = r3.rename({d: 'time' for d in r3.dims if d == 'valid_time'})
        ctx.close(r3.transpose(*od), ref, f'{name}({f}) with time renamed', rtol=1e-10, scale=sc)
        if 'time' in od:
            ctx.equal([parts(x) for x in r3['time'].values], [parts(x) for x in ref['time'].values], 'stamps with time renamed')
    # a named time axis is the one that is used, also beside other date axes
    if chance(rng, 0.5):
        other = pick(rng, ['time', 'forecast_reference_time'])
        dec = stamps(pick(rng, [cal, cal, 'np']), (1999, 1, 1), 2, climo.D)
        both = xr.concat([da.rename(time='valid_time'), da.rename(time='valid_time') * 2 + 1], dim=xr.DataArray(dec, dims=[other], name=other), join='override')
        both = both.transpose(*[str(d) for d in rng.permutation(both.dims)])
        if chance(rng, 0.5):
            both[other].attrs['standard_name'] = 'time'
        r5 = ctx.call(fn, both, f, **{tkw: 'valid_time'})
        for i, want in enumerate([ref, ref * 2 + (name != 'climate_anomaly')]):
            g = r5.isel({other: i}, drop=True)
            g = g.rename({d: 'time' for d in g.dims if d == 'valid_time'})
            ctx.close(g.transpose(*od), want, f'{name}({f}) along the named one of two date axes', rtol=1e-10, scale=2 * sc + 1)
    # dataset
    ds = da.to_dataset(name='T')
    ds['U'] = da.transpose('lat', 'lon', 'time') * 3 - 1
    ds.attrs = {'title': 'dataset'}
    r4 = ctx.call(fn, ds, f, **kk)
    ctx.equal(sorted(r4.data_vars), ['T', 'U'], 'variables of the dataset result')
    ctx.close(r4['T'].transpose(*od), ref, f'{name}({f}) of a dataset', rtol=1e-10, scale=sc)
    rU = ctx.call(fn, ds['U'], f)
    ctx.close(r4['U'].transpose(*od), rU.transpose(*od), f'{name}({f}) of the second variable', rtol=1e-10, scale=3 * sc + 1)
    ctx.equal(dict(r4.attrs), {} if keep is False else {'title': 'dataset'}, f'dataset attributes with keep_attrs={keep}')


def mixed(ctx):
    """A dataset of variables of all kinds: each one comes out as it would alone, and variables without a time keep their values."""
    rng = ctx.rng
    name, f = pick(rng, FUNCS)
    cal = pick(rng, ['np', 'noleap', '360_day', 'standard', 'julian'])
    y = int(rng.integers(1960, 2060))
    if f == 'hour':
        t = stamps(cal, (y, 3, 1, 0), int(rng.integers(30, 200)), climo.H)
    elif f == 'day':
        t = stamps(cal, (y, 3, 1, 0), int(rng.integers(30, 500)), pick(rng, [climo.D, 6 * climo.H]))
    else:
        t = stamps(cal, (y, 1, 1), 12 * int(rng.integers(1, 5)), ('M', 1, 1))
    n = len(t)
    fn = getattr(gc, name)
    kinds = {
        'T': (('time', 'lat'), rng.standard_normal((n, 2)) + 280), 'index': ('time', rng.standard_normal(n)), 'count': (('lat', 'time'), rng.integers(0, 99, (2, n))),
        'wet': (('time', 'lon'), rng.random((n, 3)) < 0.5), 'single': (('lon', 'time'), rng.standard_normal((3, n)).astype(np.float32)),
        'gappy': (('time', 'lat'), np.where(rng.random((n, 2)) < 0.3, np.nan, rng.standard_normal((n, 2)))),
        'area': (('lat', 'lon'), rng.random((2, 3)) + 1), 'hyam': ('lev', rng.random(4)), 'P0': ((), 1e5), 'mask': ('lat', np.array([1, 0]))}
    names = [str(k) for k in rng.permutation(list(kinds))[:int(rng.integers(2, 7))]]
    if not any('time' in np.atleast_1d(kinds[k][0]) for k in names):
        names.insert(0, 'T')
    ds = xr.Dataset({k: kinds[k] for k in names}, coords={'time': t, 'lat': [10.0, 20.0], 'lon': [0.0, 1.0, 2.0]})
    ctx.note(fn=name, freq=f, variables=len(names), static=sum('time' not in ds[k].dims for k in names))
    out = ctx.call(fn, ds, f)
    for k in names:
        ctx.ok(k in out.data_vars, f'{name}({f}): variable {k} lost')
        r = out[k]
        if 'time' in ds[k].dims:
            alone = ctx.call(fn, ds[k], f)
            ctx.equal(set(r.dims), set(alone.dims), f'{name}({f}): dimensions of {k} in a dataset')
            sc = np.nanmax(np.abs(ds[k].values.astype(float)))
            ctx.close(r.transpose(*alone.dims), alone, f'{name}({f}): {k} in a dataset of {names} and alone', rtol=1e-5 if k == 'single' else 1e-10, scale=sc)
        else:
            want = ds[k] * 0 if name == 'climate_anomaly' else ds[k]
            extra = [d for d in r.dims if d not in ds[k].dims]
            ctx.ok(set(extra) <= {'time', 'season'} and set(ds[k].dims) <= set(r.dims), f'{name}({f}): dimensions {r.dims} of {k} without time')
            v = r.transpose(*extra, *ds[k].dims).values
            ctx.close(v, np.broadcast_to(want.values, v.shape), f'{name}({f}): {k}, which has no time', rtol=0, atol=1e-9 * float(abs(ds[k]).max()))


def disorder(ctx):
    """Uniform stamps in another order: exchanged ones are refused, decreasing ones are refused or give the same."""
    rng = ctx.rng
    name, f = pick(rng, [x for x in FUNCS if x[0] != 'month_to_season'])
    cal = pick(rng, ['np', 'noleap', '360_day', 'standard', 'julian'])
    step, n = pick(rng, [(climo.D, 500), (('M', 1, 1), 36), (('M', 1, 15), 24)] if f not in ('hour', 'day') else [(climo.H, 60), (climo.D, 400)] if name == 'climatology_average' else [(climo.H, 60)])
    n += int(rng.integers(0, 30))
    t = stamps(cal, (int(rng.integers(1960, 2060)), 1, 1 if not isinstance(step, tuple) else step[2]), n, step)
    da = wrap_da(rng.standard_normal(n), t)
    how = pick(rng, ['swap', 'shuffle', 'rotate', 'reverse'])
    ctx.note(fn=name, freq=f, kind=how, step=str(step), calendar=cal)
    o = np.arange(n)
    if how == 'swap':
        i, j = rng.choice(n, 2, replace=False)
        o[[i, j]] = o[[j, i]]
    elif how == 'shuffle':
        o = rng.permutation(n)
    elif how == 'rotate':
        o = np.roll(o, int(rng.integers(1, n - 1)))
    else:
        o = o[::-1]
    x = da.isel(time=o)
    x = x.to_dataset(name='T') if chance(rng, 0.3) else x
    if how != 'reverse':
        ctx.raises(ValueError, getattr(gc, name), x, f, what=f'stamps in another order ({how})')
        return
    try:
        r = ctx.call(getattr(gc, name), x, f)
    except Exception as e:                      # refusing is fine
        ctx.ok('ValueError' in str(e) or isinstance(e, ValueError), f'{name}({f}) of decreasing stamps raised {type(e).__name__}: {e}')
        return
    r = r['T'] if isinstance(r, xr.Dataset) else r
    want = ctx.call(getattr(gc, name), da, f)
    r = r.sortby('time') if 'time' in r.dims else r
    ctx.ok(r.dims == want.dims and r.shape == want.shape, f'{name}({f}) of decreasing stamps: {r.sizes}, of increasing ones {want.sizes}')
    ctx.close(r.values, want.values, f'{name}({f}) of decreasing stamps', rtol=1e-10, atol=1e-10)


WORKLOADS = {
    'irregular': (irregular, 120, 2500),
    'not_dates': (not_dates, 60, 600),
    'bad_args': (bad_args, 80, 800),
    'same': (same, 100, 2000),
    'mixed': (mixed, 100, 2000),
    'disorder': (disorder, 80, 1200),
}
