"""C04 climate_anomaly removes the climatology of each point's slot and nothing else."""
import numpy as np
import geocat.comp as gc
from .. import climo
from ..gen import pick, chance, parts, wrap_da
from ..core import tonp, Reject

QUICK = 3
ID = 'C04'
RULE = ('Random uniformly spaced time axes (7 calendars, 6-hourly to monthly sampling, up to 9 years, partial years, '
        'years sharing their last two digits) with 0-2 space dimensions, time on any axis, and missing values.')
ASSUMPTIONS = ['anomalies are compared to 1e-9 of the largest value of the series']


def run(ctx, freq, res_choices, century=False):
    rng = ctx.rng
    if century:
        from ..gen import stamps, CALENDARS
        cal, res = pick(rng, ['noleap', '360_day', 'proleptic_gregorian', 'np']), 'M'
        t = stamps(cal, (int(rng.integers(1890, 1910)), 1, 1), 12 * 130, ('M', 1, 1))
    else:
        cal, res, t = climo.series(rng, res=pick(rng, res_choices), maxn=2500,
                                   whole_years=int(rng.integers(1, 6)) if chance(rng, 0.4) else None)
    n = len(t)
    space = [(), (2,), (2, 3)][int(rng.integers(3))]
    a, nan = climo.values(rng, n, space)
    axis = int(rng.integers(len(space) + 1))
    tdim = pick(rng, ['time', 'time', 'when'])
    sp = ['lat', 'lon'][:len(space)]
    da = wrap_da(np.moveaxis(a, 0, axis), t, space=sp, axis=axis, time_dim=tdim)
    ps = [parts(x) for x in t]
    ctx.note(freq=freq, res=res, calendar=cal, nan=nan, time_axis=axis, rank=a.ndim)
    kw = {'time_dim': tdim} if tdim != 'time' or chance(rng, 0.3) else {}
    if freq in ('day', 'month'):
        s, m = climo.climatology(a, ps, freq)
        idx = [s.index(climo.slot_of(p, freq)) for p in ps]
    elif freq == 'season':
        names = ['DJF', 'MAM', 'JJA', 'SON']
        if len({p[1] % 12 // 3 for p in ps}) < 4:
            raise Reject('a season without any sample')
        m = climo.season_climatology(a, ps, cal, names)
        idx = [p[1] % 12 // 3 for p in ps]
    else:
        s, m = climo.calendar_average(a, ps, 'year', cal)
        idx = [s.index((p[0],)) for p in ps]
    want = a - m[idx]
    if chance(rng, 0.2):
        ds = da.to_dataset(name='T')
        ds['U'] = 3 * da
        o = ctx.call(gc.climate_anomaly, ds, freq, **kw)
        sc = (np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1)
        ctx.close(o['U'].transpose(tdim, *sp), 3 * want, 'second variable of a dataset', scale=3 * sc + 1)
        o = o['T']
    else:
        o = ctx.call(gc.climate_anomaly, da, freq, **kw)
    ctx.ok(set(o.dims) == set(da.dims), f'dims {o.dims}')
    ctx.equal([parts(x) for x in o[tdim].values], ps, 'time stamps of the anomaly')
    for d in sp:
        ctx.close(o[d], da[d], f'coordinate {d}')
    sc = (np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1)
    got = tonp(o.transpose(tdim, *sp))
    ctx.close(got, want, f'climate_anomaly({freq!r}) of {res} data', scale=sc + 1)
    if freq in ('day', 'month'):
        # the climatology of the anomaly is zero
        for j in range(m.shape[0]):
            g = climo.nanmean(got[[i for i in range(n) if idx[i] == j]])
            ctx.ok(not np.any(np.abs(g) > 1e-9 * (sc + 1)), f'mean anomaly of slot {j} is {g}')


WORKLOADS = {
    'day': (lambda c: run(c, 'day', ['6h', 'D', 'D', '5D']), 50, 800),
    'month': (lambda c: run(c, 'month', ['6h', 'D', '5D', 'M', 'M', 'M15']), 80, 1500),
    'season': (lambda c: run(c, 'season', ['D', '5D', 'M', 'M', 'M15']), 80, 1500),
    'year': (lambda c: run(c, 'year', ['D', '5D', 'M', 'M', 'M15']), 80, 1500),
    'century': (lambda c: run(c, 'year', ['M'], century=True), 8, 60),
}
