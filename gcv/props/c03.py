"""C03 climatology_average: the mean of each slot of the year over all years."""
import numpy as np
import geocat.comp as gc
from .. import climo
from ..gen import pick, chance, parts, wrap_da, SEASONS
from ..core import Reject

QUICK = 2
ID = 'C03'
RULE = ('Random uniformly spaced time axes (7 calendars, 30-minute to monthly sampling, whole years and partial ones) '
        'with 0-2 space dimensions, time on any axis, and missing values (scattered, whole cells, whole periods); '
        'seasonal climatologies with the default seasons and with random lists of the 12 seasons.')
ASSUMPTIONS = ['means are compared to 1e-9 of the largest value of the series']


def make(ctx, res_choices, maxy, maxn=3000):
    rng = ctx.rng
    wy = int(rng.integers(1, maxy)) if chance(rng, 0.6) else None
    cal, res, t = climo.series(rng, res=pick(rng, res_choices), whole_years=wy, maxn=maxn)
    space = [(), (2,), (2, 3)][int(rng.integers(3))]
    a, nan = climo.values(rng, len(t), space)
    axis = int(rng.integers(len(space) + 1))
    tdim = pick(rng, ['time', 'time', 'when'])
    sp = ['lat', 'lon'][:len(space)]
    da = wrap_da(np.moveaxis(a, 0, axis), t, space=sp, axis=axis, time_dim=tdim)
    ctx.note(res=res, calendar=cal, nan=nan, time_axis=axis, rank=a.ndim, whole_years=bool(wy))
    kw = {'time_dim': tdim} if tdim != 'time' or chance(rng, 0.3) else {}
    sc = (np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1) + 1
    return cal, res, [parts(x) for x in t], a, da, sp, tdim, kw, sc


def slots(ctx, freq, res, maxy):
    cal, res, ps, a, da, sp, tdim, kw, sc = make(ctx, res, maxy)
    ctx.note(freq=freq)
    _, want = climo.climatology(a, ps, freq)
    if chance(ctx.rng, 0.25):
        ds = da.to_dataset(name='T')
        ds['U'] = 1 - da
        o = ctx.call(gc.climatology_average, ds, freq, **kw)
        ctx.close(o['U'].transpose(tdim, *sp), 1 - want, 'second variable of a dataset', scale=sc)
        o = o['T']
    else:
        o = ctx.call(gc.climatology_average, da, freq, **kw)
    ctx.ok(set(o.dims) == set(da.dims), f'dims {o.dims}')
    ctx.close(o.transpose(tdim, *sp), want, f'climatology_average({freq!r})', scale=sc)


def seasons(ctx, custom):
    rng = ctx.rng
    cal, res, ps, a, da, sp, tdim, kw, sc = make(ctx, ['6h', 'D', 'D', '5D', 'M', 'M', 'M15'], 7)
    months = {p[1] for p in ps}
    have = [s for s in SEASONS if months & set(SEASONS[s])]
    if custom:
        names = list(rng.permutation(have)[:int(rng.integers(1, 13))])
        names = [str(s) for s in names]
        arg = names[0] if len(names) == 1 and chance(rng, 0.5) else names
        ctx.note(seasons=len(names), first=names[0])
        o = ctx.call(gc.climatology_average, da, 'season', custom_seasons=arg, **kw)
        ctx.equal([str(s) for s in o['season'].values], names, 'season labels')
    else:
        names = ['DJF', 'JJA', 'MAM', 'SON']
        if not set(names) <= set(have):
            raise Reject('a season without any sample')
        o = ctx.call(gc.climatology_average, da, 'season', **kw)
        ctx.equal(sorted(str(s) for s in o['season'].values), names, 'season labels')
        o = o.sel(season=names)
    ctx.ok(set(o.dims) == {'season', *sp}, f'dims {o.dims}')
    want = climo.season_climatology(a, ps, cal, names)
    ctx.close(o.transpose('season', *sp), want, f'seasonal climatology {names}', scale=sc)


WORKLOADS = {
    'month': (lambda c: slots(c, 'month', ['6h', 'D', '5D', 'M', 'M15'], 8), 80, 2000),
    'day': (lambda c: slots(c, 'day', ['6h', '12h', 'D', 'D', 'D', '5D'], 5), 60, 1200),
    'hour': (lambda c: slots(c, 'hour', ['30min', 'h', '3h', '6h', '12h'], 2), 32, 300),
    'season': (lambda c: seasons(c, False), 60, 1500),
    'custom': (lambda c: seasons(c, True), 80, 2000),
}
