"""C21 max_daylight."""
import warnings
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import span, pick, chance
from ..core import tonp

ID = 'C21'
RULE = ('Days 1-366 and latitudes within 66 degrees (scalars, lists, numpy, data arrays of different lengths), FAO-56 equation 34 for '
        'each pair, hemispheric symmetry, twelve hours on the equator, and the validity warnings beyond 55 and 66 degrees.')


def formula(j, lat):
    d = 0.409 * np.sin(2 * np.pi / 365 * j - 1.39)
    return 24 / np.pi * np.arccos(-np.tan(np.deg2rad(lat))[None, :] * np.tan(d)[:, None])


def run(ctx):
    rng = ctx.rng
    nj, nl = int(rng.integers(1, 60)), int(rng.integers(1, 40))
    j = pick(rng, [lambda: rng.integers(1, 367, nj).astype(float), lambda: span(rng, 1, 366, nj), lambda: np.arange(1, nj + 1.0)])()
    lim = pick(rng, [55, 66, 30])
    lat = span(rng, -lim, lim, nl)
    if chance(rng, 0.3):
        lat[int(rng.integers(nl))] = 0.0
    cont = pick(rng, ['numpy', 'xarray', 'list', 'number', 'int'])
    if cont == 'number':
        j, lat = j[:1], lat[:1]
    if cont == 'int':
        j = np.round(j)
    want = formula(j, lat)
    tol = 1e-9
    if cont == 'numpy':
        a, b = j, lat
    elif cont == 'int':
        a, b = j.astype(int), lat
    elif cont == 'xarray':
        a = xr.DataArray(j, dims=['doy'], coords={'doy': j})
        b = xr.DataArray(lat, dims=['lat'], coords={'lat': lat})
        tol = 2e-5                                      # as are data arrays
    elif cont == 'list':
        a, b, tol = j.tolist(), lat.tolist(), 2e-5     # lists are read in single precision
    else:
        a, b, tol = float(j[0]), float(lat[0]), 2e-5
    ctx.note(container=cont, limit=lim)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        o = ctx.call(gc.max_daylight, a, b)
    ctx.close(o, want, 'daylight hours', rtol=0, atol=tol * 24)
    if cont == 'xarray':
        ctx.equal(o.dims, ('doy', 'lat'), 'dims')
        ctx.close(o['doy'], j, 'days', rtol=1e-6)
        ctx.close(o['lat'], lat, 'latitudes', rtol=1e-6, atol=1e-6)
    s = tonp(ctx.call(gc.max_daylight, j, -lat))
    n = tonp(ctx.call(gc.max_daylight, j, lat))
    ctx.close(n + s, np.full(n.shape, 24.0), 'both hemispheres together', rtol=1e-9)
    ctx.close(ctx.call(gc.max_daylight, j, np.zeros(2)), np.full((j.size, 2), 12.0), 'equator', rtol=1e-12)
    ctx.ok(np.all((n >= 0) & (n <= 24)), 'hours outside 0..24')


def validity(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    reg = pick(rng, ['ok', 'limited', 'polar', 'mixed'])
    sgn = rng.choice([-1, 1], n)
    lat = {'ok': rng.uniform(0, 54.9, n), 'limited': rng.uniform(55.1, 65.9, n), 'polar': rng.uniform(66.1, 89, n),
           'mixed': np.concatenate([rng.uniform(0, 54, n), rng.uniform(56, 65, 2)])}[reg]
    lat = lat * (sgn if reg != 'mixed' else 1)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        ctx.call(gc.max_daylight, np.array([100.0, 200.0]), lat)
    msgs = [str(x.message) for x in w if 'max_daylight' in str(x.message)]
    ctx.note(region=reg)
    if reg in ('limited', 'polar'):
        ctx.ok(len(msgs) >= 1, f'no warning for latitudes {lat}')
    elif reg == 'ok':
        ctx.ok(not msgs, f'unexpected warning {msgs} for latitudes {lat}')
    ctx.raises(ValueError, gc.max_daylight, np.ones((2, 2)), lat, what='two-dimensional days')
    ctx.raises(ValueError, gc.max_daylight, np.ones(2), np.ones((2, 2)), what='two-dimensional latitudes')


WORKLOADS = {'values': (run, 300, 6000), 'validity': (validity, 60, 600)}
