"""C35 invalid input is rejected with the documented error, and its valid neighbour is accepted."""
import contextlib, io, warnings
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..catalog import CATALOG, POINTWISE, Call
from ..compare import parts, npv
from ..core import Reject
from .c22 import invalid as zonal_invalid, prepare  # noqa: F401

QUICK = 1
ID = 'C35'
RULE = ('A random valid call, made first as a control (it must be accepted), then made invalid in exactly one random place (one element, '
        'one axis, one argument, one type); oracle: the documented error class is raised, or the documented warning is issued exactly '
        'when its condition holds.')
CASES = {}


def case(name, *sources):
    def deco(f):
        CASES[name] = (f, sources)
        return f
    return deco


# ------------------------------------------------------------------ climatologies
CLIMO = [f'{f}.{k}' for f in ('calendar_average', 'climatology_average', 'climate_anomaly') for k in ('monthly', 'daily', 'hourly')]


@case('climo.freq', *CLIMO)
def _(rng, c):
    c.args[1] = pick(rng, ['weekly', 'monthly', 'Month', 'days', '', None, 3, 'MS', 'D', 'SEASON', 'years', 'DJF', 'decade'])
    return ValueError, f'freq={c.args[1]!r}'


@case('climo.time_type', *CLIMO, 'month_to_season.monthly')
def _(rng, c):
    n = c.args[0].sizes['time']
    t = pick(rng, [np.arange(n) * 1.0, np.arange(n), np.array([f's{i}' for i in range(n)])])
    c.args[0] = c.args[0].assign_coords(time=('time', t, {'standard_name': 'time'}))
    if c.fn is gc.month_to_season:
        c.kw['time_coord_name'] = pick(rng, ['time', None])
    else:
        c.kw['time_dim'] = pick(rng, ['time', None])
    return ValueError, f'time of type {t.dtype}'


@case('climo.gap', *CLIMO)
def _(rng, c):
    n = c.args[0].sizes['time']
    i = int(rng.integers(2, n - 2))
    keep = np.delete(np.arange(n), np.arange(i, min(i + int(rng.integers(1, 3)), n - 2)))
    c.args[0] = c.args[0].isel(time=keep)
    return ValueError, f'time axis with a gap at {i} of {n}'


@case('climo.duplicate', *CLIMO)
def _(rng, c):
    n = c.args[0].sizes['time']
    i = int(rng.integers(1, n - 1))
    c.args[0] = c.args[0].isel(time=np.insert(np.arange(n), i, i))
    return ValueError, f'time stamp {i} of {n} twice'


@case('climo.no_time', *CLIMO, 'month_to_season.monthly')
def _(rng, c):
    if chance(rng, 0.5):
        c.args[0] = c.args[0].drop_vars('time').rename(time='q')
    else:
        c.kw['time_coord_name' if c.fn is gc.month_to_season else 'time_dim'] = 'nonsense'
    return KeyError, 'no such time coordinate'


@case('climatology.custom_seasons', 'climatology_average.monthly', 'climatology_average.daily')
def _(rng, c):
    good = list(rng.permutation(['DJF', 'JFM', 'MAM', 'JJA', 'OND', 'NDJ']))[:int(rng.integers(0, 4))]
    good.insert(int(rng.integers(len(good) + 1)), pick(rng, ['djf', 'DJFM', 'XYZ', '', 'JAN', 'FJD']))
    c.args[1] = 'season'
    c.kw['custom_seasons'] = good if len(good) > 1 or not good[0] or chance(rng, 0.5) else good[0]
    return ValueError, f'custom_seasons={c.kw["custom_seasons"]!r}'


@case('month_to_season.season', 'month_to_season.monthly')
def _(rng, c):
    c.args[1] = pick(rng, ['djf', 'DJFM', 'XYZ', '', 'JAN', 'FJD', 'year'])
    return (KeyError, ValueError), f'season={c.args[1]!r}'


@case('month_to_season.length', 'month_to_season.monthly')
def _(rng, c):
    n = c.args[0].sizes['time']
    k = int(rng.integers(1, 12))
    c.args[0] = c.args[0].isel(time=slice(k, None) if chance(rng, 0.5) else slice(0, n - k))
    return ValueError, f'{c.args[0].sizes["time"]} months'


# ------------------------------------------------------------------ vertical coordinates
H2P, S2H = 'interp_hybrid_to_pressure.x', 'interp_sigma_to_hybrid.x'


@case('hybrid.method', H2P, S2H)
def _(rng, c):
    c.kw['method'] = pick(rng, ['loglog', 'cubic', 'Linear', '', 'nearest', 'LOG'])
    return ValueError, f'method={c.kw["method"]!r}'


@case('hybrid.type', H2P)
def _(rng, c):
    i = int(rng.integers(4))
    v = c.args[i]
    c.args[i] = pick(rng, [v.values, v.values.tolist(), v.to_dataset(name='q')])
    return TypeError, f'argument {i} is a {type(c.args[i]).__name__}'


@case('hybrid.no_variable', H2P)
def _(rng, c):
    c.kw.update(extrapolate=True, variable=None)
    return ValueError, 'extrapolate without variable'


@case('hybrid.no_surface', H2P)
def _(rng, c):
    ps = c.args[1]
    c.kw.update(extrapolate=chance(rng, 0.7), variable=pick(rng, ['temperature', 'geopotential']), t_bot=ps * 0 + 280, phi_sfc=ps * 0 + 100)
    k = pick(rng, [['t_bot'], ['phi_sfc'], ['t_bot', 'phi_sfc']])
    for q in k:
        c.kw[q] = None
    return ValueError, f'{c.kw["variable"]} without {k}'


@case('hybrid.variable', H2P)
def _(rng, c):
    c.kw.update(extrapolate=chance(rng, 0.7), variable=pick(rng, ['Temperature', 'humidity', '', 'geopotential height', 'T', 'none']))
    return ValueError, f'variable={c.kw["variable"]!r}'


@case('hybrid.no_level', H2P, S2H)
def _(rng, c):
    c.kw['lev_dim'] = None
    m = {'lev': 'q'}
    c.args = [a.drop_vars('lev', errors='ignore').rename(m) if 'lev' in a.dims else a.drop_vars('lev', errors='ignore') for a in c.args]
    return ValueError, 'no recognisable level dimension'


@case('hybrid_levels.type', 'pressure_at_hybrid_levels.x', 'pressure_at_hybrid_levels.n')
def _(rng, c):
    i = int(rng.integers(3))
    v = c.args[i]
    c.args[i] = pick(rng, [npv(v).tolist(), npv(v) if isinstance(v, xr.DataArray) else xr.DataArray(v), None, 3.0])
    return TypeError, f'argument {i} is a {type(c.args[i]).__name__}'


@case('hybrid_levels.shape', 'pressure_at_hybrid_levels.x', 'pressure_at_hybrid_levels.n', 'delta_pressure_hybrid.x', 'delta_pressure_hybrid.n')
def _(rng, c):
    i = 1 + int(rng.integers(2))
    c.args[i] = c.args[i][:-1] if chance(rng, 0.5) else c.args[i][1:]
    return ValueError, f'coefficients of shapes {c.args[1].shape} and {c.args[2].shape}'


@case('hybrid_levels.rank', 'pressure_at_hybrid_levels.n', 'delta_pressure_hybrid.n', 'delta_pressure_hybrid.x')
def _(rng, c):
    if isinstance(c.args[1], np.ndarray):
        a = int(rng.integers(2))
        c.args[1:] = [np.stack([v, v], axis=a) for v in c.args[1:]]
    else:
        c.args[1:] = [xr.concat([v, v], 'q') for v in c.args[1:]]
    return ValueError, f'coefficients of shape {c.args[1].shape}'


@case('delta_pressure_hybrid.type', 'delta_pressure_hybrid.x', 'delta_pressure_hybrid.n')
def _(rng, c):
    k = int(rng.integers(3))
    if k == 0:
        i = int(rng.integers(3))
        v = c.args[i]
        c.args[i] = pick(rng, [npv(v).tolist(), None, xr.DataArray(npv(v)).to_dataset(name='q')])
        return TypeError, f'argument {i} is a {type(c.args[i]).__name__}'
    if k == 1:
        c.kw['p0'] = pick(rng, [[1e5], np.array([1e5]), np.array(1e5), '100000', xr.DataArray(1e5), None, [1e5, 1e5]])
        return TypeError, f'p0={c.kw["p0"]!r}'
    i = 1 + int(rng.integers(2))
    c.args[i] = npv(c.args[i]) if isinstance(c.args[i], xr.DataArray) else xr.DataArray(c.args[i], dims=['lev'])
    return TypeError, 'coefficients of different types'


DELTA = ('delta_pressure.x', 'delta_pressure.n')


@case('delta_pressure.surface', *DELTA)
def _(rng, c):
    ps = c.args[1].copy(deep=True) if isinstance(c.args[1], xr.DataArray) else c.args[1].copy()
    top = c.kw.get('pressure_top', float(np.min(npv(c.args[0]))))
    bad = top - float(rng.uniform(0.01, 1)) * max(top, 1.0)
    npv(ps).flat[int(rng.integers(ps.size))] = bad
    if isinstance(ps, np.ndarray) and chance(rng, 0.3):
        ps = bad
    c.args[1] = ps
    return ValueError, 'one surface pressure above the top of the atmosphere'


@case('delta_pressure.negative', *DELTA)
def _(rng, c):
    p = npv(c.args[0]).copy()
    p[np.argmin(p)] = -float(rng.uniform(1e-3, 100))
    c.kw.pop('pressure_top', None)
    c.args[0] = c.args[0].copy(data=p) if isinstance(c.args[0], xr.DataArray) else p
    return ValueError, 'a negative pressure level'


@case('delta_pressure.top', *DELTA)
def _(rng, c):
    m = float(np.min(npv(c.args[0])))
    c.kw['pressure_top'] = pick(rng, [m * (1 + float(rng.uniform(1e-6, 0.5))), -float(rng.uniform(1e-3, 100))])
    return ValueError, f'pressure_top={c.kw["pressure_top"]} with levels from {m}'


# ------------------------------------------------------------------ meteorology
MULTI = ['dewtemp', 'heat_index', 'relhum', 'relhum_ice', 'relhum_water']


@case('met.shape', *[f'{m}.{k}' for m in MULTI for k in ('x', 'n', 'l')])
def _(rng, c):
    i = int(rng.integers(len(c.args)))
    v = c.args[i]
    lst = isinstance(v, list)
    a = np.asarray(v) if lst else v
    k = pick(rng, ['short', 'extra', 'other'])
    if k == 'short':
        ax = int(rng.integers(a.ndim))
        n = a.shape[ax] + 1
        ind = np.arange(n) % a.shape[ax]
        b = a.isel({a.dims[ax]: ind}) if isinstance(a, xr.DataArray) else np.take(a, ind, axis=ax)
    elif k == 'extra':
        b = a.expand_dims('extra') if isinstance(a, xr.DataArray) else a[None]
    else:
        sh = tuple(int(q) for q in rng.permutation(a.shape)) + (1,)
        b = np.asarray(a).reshape(sh)
        if isinstance(a, xr.DataArray):
            b = xr.DataArray(b, dims=[f'q{j}' for j in range(b.ndim)])
    c.args[i] = b.tolist() if lst else b
    return ValueError, f'argument {i} of shape {b.shape} with {a.shape}'


@case('met.type', 'dewtemp.x', *[f'{m}.{k}' for m in ('heat_index', 'relhum_ice', 'relhum_water') for k in ('x', 'n', 'l')])
def _(rng, c):
    i = int(rng.integers(len(c.args)))
    v = c.args[i]
    if isinstance(v, xr.DataArray):
        c.args[i] = v.values if chance(rng, 0.5) else v.values.tolist()
    elif isinstance(v, list):
        c.args[i] = np.asarray(v)
    else:
        c.args[i] = pick(rng, [v.tolist(), xr.DataArray(v)])
    if c.fn is gc.dewtemp and chance(rng, 0.5):
        c.args[1 - i], c.args[i] = npv(c.args[1 - i]), v
    return TypeError, f'inputs of types {[type(a).__name__ for a in c.args]}'


@case('heat_index.range', 'heat_index.x', 'heat_index.n', 'heat_index.l')
def _(rng, c):
    v = c.args[1]
    a = np.array(npv(v), dtype=float)
    if chance(rng, 0.4) and a.size > 1:
        a.flat[int(rng.integers(a.size))] = np.nan
    bad = pick(rng, [-1e-6, -0.5, -40.0, 100.0001, 101.0, 1000.0, np.inf, -np.inf])
    a.flat[int(rng.integers(a.size))] = bad
    c.args[1] = v.copy(data=a) if isinstance(v, xr.DataArray) else (a.tolist() if isinstance(v, list) else a)
    return ValueError, f'relative humidity {bad}'


@case('max_daylight.rank', 'max_daylight.n', 'max_daylight.x')
def _(rng, c):
    i = int(rng.integers(2))
    v = c.args[i]
    b = np.stack([npv(v)] * int(rng.integers(1, 3)), axis=int(rng.integers(2)))
    c.args[i] = xr.DataArray(b, dims=['p', 'q']) if isinstance(v, xr.DataArray) else pick(rng, [b, b.tolist()])
    return ValueError, f'argument {i} of shape {b.shape}'


# ------------------------------------------------------------------ gradient, interpolation, statistics
@case('gradient.no_coordinates', 'gradient.n')
def _(rng, c):
    k = pick(rng, [[], ['lat'], ['lon']])
    c.kw = {n: v for n, v in zip(('lon', 'lat'), c.args[1:3]) if n in k}
    c.args = c.args[:1]
    return Exception, f'numpy data with {k}'


@case('gradient.missing_coordinate', 'gradient.x')
def _(rng, c):
    v = c.args[0]
    if not {'lat', 'lon'} <= set(v.coords):
        return None, None
    k = pick(rng, [['lat'], ['lon'], ['lat', 'lon']])
    given = pick(rng, [[], ['lat'], ['lon']])
    if not set(k) - set(given):
        given = []
    c.args, c.kw = [v.drop_vars(k)], {n: v[n] for n in given if n not in k}
    return Exception, f'data array without {k}'


@case('gradient.type', 'gradient.n')
def _(rng, c):
    c.args = [pick(rng, [c.args[0].tolist(), 3.0, 'x', None])]
    return Exception, f'data of type {type(c.args[0]).__name__}'


@case('gradient.rank', 'gradient.n', 'gradient.x')
def _(rng, c):
    v = c.args[0]
    ny, nx = v.shape[-2:]
    lat, lon = np.linspace(-60, 60, ny), np.linspace(0, 350, nx)
    lo2, la2 = np.meshgrid(lon, lat)
    c.args, c.kw = [v], pick(rng, [{'lat': lat, 'lon': lo2}, {'lat': la2, 'lon': lon}, {'lat': la2[None], 'lon': lo2[None]}])
    return ValueError, f'lat of rank {c.kw["lat"].ndim}, lon of rank {c.kw["lon"].ndim}'


@case('interp_multidim.coordinates', 'interp_multidim.n')
def _(rng, c):
    for k in pick(rng, [['lat_in'], ['lon_in'], ['lat_in', 'lon_in']]):
        if chance(rng, 0.5):
            c.kw[k] = None
        else:
            del c.kw[k]
    return ValueError, 'numpy data without coordinates'


@case('nmse.type', 'nmse.x')
def _(rng, c):
    i = int(rng.integers(2))
    v = c.args[i]
    if isinstance(v, xr.Dataset):
        c.args[i] = pick(rng, [v['T'], v['T'].values])
    else:
        c.args[i] = pick(rng, [v.values, v.to_dataset(name='T'), v.values.tolist()])
        if chance(rng, 0.3):
            c.args = [a.values if isinstance(a, xr.DataArray) else a for a in c.args]
    return TypeError, f'{[type(a).__name__ for a in c.args]}'


@case('nmse.names', 'nmse.x')
def _(rng, c):
    i = int(rng.integers(2))
    k = pick(rng, ['lat', 'lon', 'extra'])
    if k == 'extra':
        c.args[i] = c.args[i].assign_coords(height=2.0)
    else:
        c.args[i] = c.args[i].rename({k: {'lat': 'latitude', 'lon': 'longitude'}[k]})
    return KeyError, f'coordinate names differ ({k})'


@case('nmse.no_latlon', 'nmse.x')
def _(rng, c):
    k = pick(rng, ['lat', 'lon'])
    c.args = [a.rename({k: 'qq'}) for a in c.args]
    return ValueError, f'no {k}'


@case('nmse.one_sided', 'nmse.x')
def _(rng, c):
    i = int(rng.integers(2))
    c.args = [a.rename(lat='p', lon='q') for a in c.args]
    known = pick(rng, [['p', 'q'], ['p'], ['q']])
    meaning = {'p': ('latitude', 'degrees_north'), 'q': ('longitude', 'degrees_east')}
    for j in (i, 1 - i):
        for k in (known if j == i else ['p', 'q']):
            if j == i and len(known) == 2:
                continue
            name, unit = meaning[k]
            c.args[j] = c.args[j].assign_coords({k: c.args[j][k].assign_attrs(standard_name=name, units=unit)})
    return ValueError, f'latitude and longitude of operand {i} not recognisable'


@case('nmse.uneven', 'nmse.x')
def _(rng, c):
    k = pick(rng, ['lat', 'lon'])
    v = c.args[0][k].values.copy()
    j = int(rng.integers(v.size))
    v[j] += float(pick(rng, [-1, 1])) * rng.uniform(0.05, 0.4) * abs(v[1] - v[0])
    c.args = [a.assign_coords({k: v}) for a in c.args]
    return ValueError, f'uneven {k}: {np.round(v, 2).tolist()}'


@case('nmse.mismatch', 'nmse.x')
def _(rng, c):
    k = pick(rng, ['lat', 'lon', 'time'])
    if c.args[0].sizes[k] < 4:
        k = 'lat' if c.args[0].sizes['lat'] > 3 else 'lon'
    if c.args[0].sizes[k] < 4:
        return None, None
    i = int(rng.integers(2))
    c.args[i] = c.args[i].isel({k: slice(1, None) if chance(rng, 0.5) else slice(None, -1)})
    return ValueError, f'{k} of different lengths'


@case('eof.modes', 'eofunc_eofs.x', 'eofunc_eofs.n', 'eofunc_pcs.x', 'eofunc_pcs.n', 'eofunc.x', 'eofunc.n')
def _(rng, c):
    c.args[1] = -int(rng.integers(0, 4))
    return ValueError, f'{c.args[1]} modes'


@case('eof.time_dim', 'eofunc_eofs.n', 'eofunc_pcs.n', 'eofunc.n', 'eofunc_ts.n')
def _(rng, c):
    nd = c.args[0].ndim
    c.kw['time_dim'] = pick(rng, [nd, nd + 1, nd + 5, -nd - 1, -nd - 3])
    if chance(rng, 0.3):
        c.args[0] = c.args[0].tolist()
    return ValueError, f'time_dim={c.kw["time_dim"]} of {nd} dimensions'


def run(ctx, name):
    rng = ctx.rng
    f, sources = CASES[name]
    src = pick(rng, list(sources))
    c = CATALOG[src](rng)
    ctx.note(rejection=name, function=c.fn.__name__)
    r = ctx.call(c.fn, *c.args, **c.kw)       # the valid neighbour
    ctx.ok(r is not None, f'{c.fn.__name__} returned None for valid input')
    bad = c.map(lambda a: a)
    exc, what = f(rng, bad)
    if exc is None:
        return
    ctx.raises(exc, bad.fn, *bad.args, what=f'{name}: {what}', **bad.kw)


# ------------------------------------------------------------------ warnings, and answers withheld
def caught(ctx, fn, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = ctx.call(fn, *a, **k)
    return r, [str(x.message) for x in w if x.category is UserWarning]


def daylight(ctx):
    rng = ctx.rng
    band = pick(rng, ['low', 'middle', 'high'])
    n = int(rng.integers(1, 6))
    near = 1.0 if chance(rng, 0.7) else 0.05       # all close to one end of the band
    v = {'low': 55 - rng.uniform(0, 55, n) * near, 'middle': 55.01 + rng.uniform(0, 10.99, n) * near, 'high': 66.01 + rng.uniform(0, 22.9, n) * near}[band]
    if band == 'middle' and chance(rng, 0.5):
        v = 121.01 - v
    if chance(rng, 0.2):
        v[0] = {'low': 55.0, 'middle': 66.0, 'high': 89.0}[band]
    v = v * rng.choice([-1, 1], n)
    d = rng.uniform(80, 280, int(rng.integers(1, 5)))
    kind = pick(rng, ['numpy', 'list', 'number', 'data array'])
    if kind == 'number':
        d, v = float(d[0]), float(v[0])
    elif kind == 'list':
        d, v = d.tolist(), v.tolist()
    elif kind == 'data array':
        d, v = xr.DataArray(d, dims=['d']), xr.DataArray(v, dims=['l'])
    ctx.note(band=band, container=kind)
    r, w = caught(ctx, gc.max_daylight, d, v)
    a, b = any('limited validity' in m for m in w), any('not possible' in m for m in w)
    ctx.ok((a, b) == (band == 'middle', band == 'high'), f'max_daylight at latitudes {v}: warnings {w}')


def fractional(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    t = rng.uniform(60, 110, n)
    frac = chance(rng, 0.5)
    h = rng.uniform(0, 1, n) if frac else np.append(rng.uniform(0, 1, n - 1), rng.uniform(1.001, 100))
    if frac and chance(rng, 0.3):
        h[-1] = 1.0
    h = rng.permutation(h)
    wrap = pick(rng, [lambda a: a, lambda a: a.tolist(), lambda a: xr.DataArray(a, dims=['x'])])
    ctx.note(fractional=frac)
    r, w = caught(ctx, gc.heat_index, wrap(t), wrap(h))
    ctx.ok(any('fractional' in m for m in w) == frac, f'heat_index with relative humidity {h}: warnings {w}')
    ctx.ok(np.shape(npv(r)) == (n,), 'heat_index: shape')


def limits(ctx):
    """The ends of the valid range are valid."""
    rng = ctx.rng
    t = rng.uniform(60, 110, 4)
    h = rng.permutation(np.array([0.0, 100.0, 50.0, float(rng.uniform(0, 100))]))
    wrap = pick(rng, [lambda a: a, lambda a: a.tolist(), lambda a: xr.DataArray(a, dims=['x'])])
    ctx.call(gc.heat_index, wrap(t), wrap(h))
    ctx.note(limit='humidity 0 and 100')
    p = np.array([0.0, 500.0, 1000.0])[::int(pick(rng, [-1, 1]))]
    o = npv(ctx.call(gc.delta_pressure, p, np.array([float(rng.uniform(1001, 1100))]), **pick(rng, [{}, {'pressure_top': 0.0}])))
    ctx.ok(np.isfinite(o).all(), 'delta_pressure with the top at 0')


def seasons_ignored(ctx):
    rng = ctx.rng
    c = CATALOG['climatology_average.monthly'](rng)
    c.args[1] = 'month'
    s = pick(rng, ['JFM', ['JFM', 'NDJ'], ['bad']])
    ctx.note(custom_seasons=str(s))
    r, w = caught(ctx, c.fn, *c.args, custom_seasons=s)
    ctx.ok(any('custom_seasons' in m for m in w), f'custom_seasons without season: warnings {w}')
    p, w = caught(ctx, c.fn, *c.args)
    ctx.ok(not any('custom_seasons' in m for m in w), f'no custom_seasons: warnings {w}')
    for (l, x), (_, y) in zip(parts(r), parts(p)):
        ctx.close(npv(x), npv(y), f'climatology with ignored custom_seasons {l}', rtol=1e-12)


def dims_renamed(ctx):
    rng = ctx.rng
    c = CATALOG['pressure_at_hybrid_levels.x'](rng)
    r, w = caught(ctx, c.fn, *c.args)
    ctx.ok(not any('different dimension names' in m for m in w), f'same names: warnings {w}')
    b = [a.drop_vars('lev', errors='ignore') for a in c.args]
    b[2] = b[2].rename(lev='other')
    q, w = caught(ctx, c.fn, *b)
    ctx.ok(any('different dimension names' in m for m in w), f'different names: warnings {w}')
    ctx.close(q.transpose(*r.dims), npv(r), 'pressures with renamed coefficients', rtol=1e-12)


def weights(ctx):
    """Weights that do not fit never produce a coefficient."""
    rng = ctx.rng
    x = chance(rng, 0.5)
    c = CATALOG['pearson_r.x' if x else 'pearson_r.n'](rng)
    n = c.args[0].shape[0]
    if n < 3:
        raise Reject()
    if x:
        c.kw['dim'] = 'time'
    ctx.call(c.fn, *c.args, **{k: v for k, v in c.kw.items() if k != 'weights'})
    m = n + int(pick(rng, [-1, 1, 3]))
    if x:
        c.kw['weights'] = xr.DataArray(rng.uniform(0.1, 1, m), dims=['time'])
    else:
        c.kw['axis'] = 0
        c.kw['weights'] = rng.uniform(0.1, 1, m)
    ctx.note(weights='data array' if x else 'numpy')
    try:
        with contextlib.redirect_stdout(io.StringIO()):     # it prints a message
            r = c.fn(*c.args, **c.kw)
    except (ValueError, IndexError):
        r = None
    ctx.compared += 1
    ctx.finite += 1
    ctx.ok(r is None, f'pearson_r accepted {m} weights for {n} values')


def unused(ctx):
    """pearson_r says which of dim and axis it does not use; nothing is said when one is given."""
    rng = ctx.rng
    x = chance(rng, 0.5)
    c = CATALOG['pearson_r.x' if x else 'pearson_r.n'](rng)
    a, b = c.args[:2]
    n = a.ndim
    both = chance(rng, 0.5)
    kw = {'dim': a.dims[0] if x else 'time'} if x or both else {}
    if both or not x:
        kw['axis'] = int(rng.integers(n))
    if chance(rng, 0.3):
        kw.pop('axis' if chance(rng, 0.5) else 'dim', None)
    both = len(kw) == 2
    ctx.note(unused='data array' if x else 'numpy', both=both)
    r, w = caught(ctx, c.fn, a, b, **kw)
    said = [m for m in w if 'unused' in m]
    ctx.equal(len(said), int(both), f'pearson_r with {sorted(kw)}: warnings {w}')
    if both:
        ctx.ok(('`axis`' if x else '`dim`') in said[0], f'pearson_r names the wrong argument: {said}')
        kw.pop('axis' if x else 'dim')
        q, _ = caught(ctx, c.fn, a, b, **kw)
        ctx.close(npv(r), npv(q), 'pearson_r with an unused argument', rtol=1e-12)


def level_chunks(ctx):
    """The advice against chunks along the levels is given exactly when there are several."""
    rng = ctx.rng
    c = CATALOG['interp_hybrid_to_pressure.x'](rng)
    d = c.args[0]
    lev = c.kw.get('lev_dim') or 'lev'
    n = d.sizes[lev]
    k = int(rng.integers(1, n + 1))
    how = pick(rng, ['levels', 'levels', 'others', 'none'])
    if how == 'levels':
        c.args[0] = d.chunk({lev: k})
    elif how == 'others':
        c.args[0] = d.chunk({v: 1 for v in d.dims if v != lev})
    several = how == 'levels' and k < n
    ctx.note(chunked=how, several=several)
    _, w = caught(ctx, c.fn, *c.args, **c.kw)
    ctx.equal(any('Chunking along' in m for m in w), several, f'{n} levels, {how} chunked by {k}: warnings {w}')


WORKLOADS = {n: ((lambda ctx, n=n: run(ctx, n)), 40, 600) for n in CASES}
WORKLOADS.update({'daylight_warnings': (daylight, 120, 2000), 'fractional_humidity': (fractional, 120, 2000), 'limits': (limits, 60, 600),
                  'ignored_seasons': (seasons_ignored, 20, 200), 'renamed_coefficients': (dims_renamed, 40, 400), 'misfit_weights': (weights, 60, 600), 'unused_argument': (unused, 80, 800),
                  'level_chunks': (level_chunks, 60, 600),
                  'zonal': (zonal_invalid, 20, 200)})
