"""C02 time stamps are the midpoints of the periods they stand for."""
import cftime
import numpy as np
import geocat.comp as gc
from .. import climo
from ..gen import pick, chance, parts, wrap_da, moment
from ..core import tonp

QUICK = 2
ID = 'C02'
RULE = ('Random uniformly spaced time axes (7 calendars, 30-minute to monthly sampling, partial periods, February 29, '
        'years 1-3000); every stamp of the output is compared with the midpoint of its period computed with calendar '
        'arithmetic.')


def same_calendar(ctx, t, cal, typed=False):
    x = t[0]
    if cal == 'np' and typed:
        ctx.ok(isinstance(x, np.datetime64), f'time stamps of type {type(x).__name__} for numpy input')
    if not isinstance(x, np.datetime64):
        ctx.ok(cal == 'np' or isinstance(x, cftime.datetime), f'time stamps of type {type(x).__name__}')
        want = 'proleptic_gregorian' if cal == 'np' else cal
        ctx.equal(x.calendar, want, 'calendar of the output time axis')


def as_stamps(out, tdim):
    return [parts(x) for x in out[tdim].values]


def cal_run(ctx, freq, res_choices):
    rng = ctx.rng
    cal, res, t = climo.series(rng, res=pick(rng, res_choices), maxn=1200)
    if freq == 'hour' and res in ('D', '5D'):
        t = t[:40]
    a = rng.standard_normal(len(t))
    da = wrap_da(a, t)
    ctx.note(freq=freq, res=res, calendar=cal)
    out = ctx.call(gc.calendar_average, da, freq)
    ps = [parts(x) for x in t]
    per, _ = climo.calendar_average(a, ps, freq, cal)
    got = as_stamps(out, 'time')
    ctx.equal(len(got), len(per), f'number of {freq} periods')
    same_calendar(ctx, out['time'].values, cal, True)
    for k, g in zip(per, got):
        ctx.equal(g, climo.midpoint(k, freq, cal), f'time stamp of {freq} {k}')


def clim_run(ctx, freq, res_choices):
    rng = ctx.rng
    wy = int(rng.integers(1, 8 if freq != 'hour' else 3)) if chance(rng, 0.6) else None
    cal, res, t = climo.series(rng, res=pick(rng, res_choices), maxn=3000, whole_years=wy)
    ps = [parts(x) for x in t]
    a = rng.standard_normal(len(t))
    da = wrap_da(a, t)
    ctx.note(freq=freq, res=res, calendar=cal, whole_years=bool(wy))
    out = ctx.call(gc.climatology_average, da, freq)
    slots, _ = climo.climatology(a, ps, freq)
    got = as_stamps(out, 'time')
    ctx.equal(len(got), len(slots), f'number of {freq} slots')
    same_calendar(ctx, out['time'].values, cal)
    med = np.median([p[0] for p in ps])
    ok_years = {int(np.floor(med)), int(np.ceil(med))}
    year = got[0][0]
    if freq != 'month' and any(p[1:3] == (2, 29) for p in ps):
        # February 29 exists in leap years only: the leap year of the data closest to the median
        leap = sorted({p[0] for p in ps if p[1:3] == (2, 29)})
        if not ok_years & set(leap):
            best = min(abs(y - med) for y in leap)
            ok_years = {y for y in leap if abs(y - med) == best}
        else:
            ok_years &= set(leap)
            ctx.note(leap_in_median=True)
    if freq == 'hour' and slots[-1] == (12, 31, 23):
        pass
    ctx.ok(year in ok_years, f'representative year {year}, expected one of {ok_years} (median {med})')
    for s, g in zip(slots, got):
        key = (year,) + tuple(s)
        ctx.equal(g, climo.midpoint(key, freq, cal), f'time stamp of slot {s}')


FINE = ['30min', 'h', '3h', '6h', '12h']
WORKLOADS = {
    'cal_hour': (lambda c: cal_run(c, 'hour', ['30min', 'h', '3h', '6h']), 30, 600),
    'cal_day': (lambda c: cal_run(c, 'day', FINE + ['D', '5D']), 40, 1000),
    'cal_month': (lambda c: cal_run(c, 'month', ['6h', 'D', '5D', 'M', 'M15']), 60, 1500),
    'cal_season': (lambda c: cal_run(c, 'season', ['6h', 'D', '5D', 'M', 'M15']), 60, 1500),
    'cal_year': (lambda c: cal_run(c, 'year', ['6h', 'D', '5D', 'M', 'M15']), 60, 1500),
    'clim_month': (lambda c: clim_run(c, 'month', ['D', '5D', 'M', 'M15']), 60, 1500),
    'clim_day': (lambda c: clim_run(c, 'day', ['6h', '12h', 'D', 'D', '5D']), 60, 1500),
    'clim_hour': (lambda c: clim_run(c, 'hour', ['30min', 'h', '3h', '6h', '12h']), 24, 300),
}
