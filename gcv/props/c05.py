"""C05 month_to_season: one three-month mean per year, stamped with its middle month."""
import numpy as np
import geocat.comp as gc
from .. import climo
from ..gen import pick, chance, parts, wrap_da, stamps, SEASONS, next_month

ID = 'C05'
RULE = ('Monthly series of 1-12 whole years starting in any month (7 calendars, month-start or mid-month stamps) with '
        '0-2 space dimensions, time on any axis and missing values, for each of the 12 three-month seasons; the oracle '
        'averages the months of each season by plain arithmetic and drops the means whose middle month is outside the data.')


def run(ctx, start_jan):
    rng = ctx.rng
    cal = pick(rng, ['np', 'np', 'noleap', '360_day', 'standard', 'proleptic_gregorian', 'julian', 'all_leap'])
    ny = int(rng.integers(1, 13))
    m0 = 1 if start_jan else int(rng.integers(1, 13))
    y0 = int(rng.integers(1, 2900)) if cal != 'np' and chance(rng, 0.2) else int(rng.integers(1950, 2090))
    if cal == 'standard' and y0 < 1600:
        y0 += 1600
    day = int(pick(rng, [1, 1, 15, 16, 28]))
    t = stamps(cal, (y0, m0, day), 12 * ny, ('M', 1, day))
    ps = [parts(x) for x in t]
    space = [(), (3,), (2, 3)][int(rng.integers(3))]
    a, nan = climo.values(rng, 12 * ny, space)
    axis = int(rng.integers(len(space) + 1))
    tdim = pick(rng, ['time', 'time', 'when'])
    sp = ['lat', 'lon'][:len(space)]
    da = wrap_da(np.moveaxis(a, 0, axis), t, space=sp, axis=axis, time_dim=tdim)
    kw = {'time_coord_name': tdim} if tdim != 'time' or chance(rng, 0.3) else {}
    season = pick(rng, sorted(SEASONS))
    ctx.note(season=season, calendar=cal, years=ny, start_month=m0, nan=nan, time_axis=axis, day=day)
    idx = {p[:2]: i for i, p in enumerate(ps)}
    first, mid, last = SEASONS[season]
    want, when = [], []
    for (y, m) in idx:
        if m == mid:
            # the three months around the middle month, those present in the data
            trio = [((y - 1, 12) if m == 1 else (y, m - 1)), (y, m), next_month(y, m)]
            want.append(climo.nanmean(a[[idx[k] for k in trio if k in idx]]))
            when.append((y, m))
    want = np.stack(want)
    sc = (np.nanmax(np.abs(a)) if np.isfinite(a).any() else 1)
    if chance(rng, 0.25):
        ds = da.to_dataset(name='T')
        ds['U'] = da + 1
        o = ctx.call(gc.month_to_season, ds, season, **kw)
        ctx.close(o['U'].transpose(tdim, *sp), want + 1, 'second variable of a dataset', scale=sc + 1)
        o = o['T']
    else:
        o = ctx.call(gc.month_to_season, da, season, **kw)
    ctx.ok(set(o.dims) == set(da.dims), f'dims {o.dims}')
    ctx.equal([parts(x)[:2] for x in o[tdim].values], when, f'{season} time stamps (year, month)')
    ctx.ok(all(parts(x)[2:] == (1, 0, 0, 0, 0) for x in o[tdim].values), 'stamps are not at the start of the month')
    ctx.close(o.transpose(tdim, *sp), want, f'month_to_season({season})', scale=sc + 1)


WORKLOADS = {
    'calendar_years': (lambda c: run(c, True), 160, 4000),
    'any_start': (lambda c: run(c, False), 100, 3000),
}
