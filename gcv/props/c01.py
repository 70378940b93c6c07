"""C01 calendar_average: the mean of each calendar period."""
import numpy as np, xarray as xr, datetime
import geocat.comp as gc
from .. import climo
from ..gen import pick, chance, parts, wrap_da, moment
from ..core import Reject, tonp

ID = 'C01'
RULE = ('Random uniformly spaced time axes (7 calendars, 30-minute to monthly sampling, mid-month stamps, partial first '
        'and last periods, years 1-3000) with 0-2 space dimensions, time on any axis, and missing values (scattered, '
        'whole cells, whole periods); DataArray and Dataset.')
ASSUMPTIONS = ['means are compared to 1e-9 of the largest value of the series']


def run(ctx, freq, res_choices):
    rng = ctx.rng
    res = pick(rng, res_choices)
    cal, res, t = climo.series(rng, res=res, maxn=3000 if freq in ('season', 'year') else 1500)
    n = len(t)
    if freq == 'hour' and res in ('D', '5D'):
        t = t[:40]
    n = len(t)
    space = [(), (3,), (2, 3)][int(rng.integers(3))]
    a, nan = climo.values(rng, n, space)
    axis = int(rng.integers(len(space) + 1))
    tdim = pick(rng, ['time', 'time', 'when'])
    sp = ['lat', 'lon'][:len(space)]
    da = wrap_da(np.moveaxis(a, 0, axis), t, space=sp, axis=axis, time_dim=tdim)
    ps = [parts(x) for x in t]
    ctx.note(freq=freq, res=res, calendar=cal, nan=nan, time_axis=axis, rank=a.ndim, n=int(np.log2(n)))
    per, want = climo.calendar_average(a, ps, freq, cal)
    kw = {'time_dim': tdim} if tdim != 'time' or chance(rng, 0.3) else {}
    as_ds = chance(rng, 0.25)
    ctx.note(dataset=as_ds)
    if as_ds:
        ds = da.to_dataset(name='T')
        ds['U'] = da * 2 + 1
        out = ctx.call(gc.calendar_average, ds, freq, **kw)
        outs = [(out['T'], want), (out['U'], want * 2 + 1)]
    else:
        outs = [(ctx.call(gc.calendar_average, da, freq, **kw), want)]
    sc = np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1
    for o, w in outs:
        ctx.ok(set(o.dims) == set(da.dims), f'dims {o.dims}, expected those of the input {da.dims}')
        ctx.close(o.transpose(tdim, *sp), w, f'calendar_average({freq!r}) of {res} data', rtol=1e-9, scale=2 * sc + 1)


FINE = ['30min', 'h', '3h', '6h', '12h']
WORKLOADS = {
    'hour': (lambda c: run(c, 'hour', ['30min', '30min', 'h', '3h', '6h', 'D']), 60, 1500),
    'day': (lambda c: run(c, 'day', FINE + ['D', '5D']), 60, 1500),
    'month': (lambda c: run(c, 'month', FINE + ['D', 'D', '5D', 'M', 'M15']), 80, 2500),
    'season': (lambda c: run(c, 'season', ['D', 'D', '6h', '5D', 'M', 'M', 'M15']), 100, 3000),
    'year': (lambda c: run(c, 'year', ['D', 'D', '6h', '5D', 'M', 'M', 'M15']), 100, 3000),
}
