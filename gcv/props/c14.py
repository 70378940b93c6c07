"""C14 pressure and layer thickness at hybrid levels."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..vert import coefficients, surface
from ..core import tonp

ID = 'C14'
RULE = ('Random coefficients (1-60 levels, either direction, arbitrary or monotonic) and surface pressures of rank 0-4 with sizes '
        'that may equal the number of levels, numpy and data arrays (coefficients with and without level coordinates, at mid points or '
        'interfaces, differently named), p0 of both formulations; oracle: p = a p0 + b ps and |difference of neighbours|.')


def make(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 60)) if chance(rng, 0.7) else int(rng.integers(2, 5))
    if chance(rng, 0.7):
        a, b = coefficients(rng, n, full=True)
    else:
        a, b = rng.random(n), rng.random(n)
    if chance(rng, 0.3):
        a, b = a[::-1].copy(), b[::-1].copy()
    rank = int(rng.integers(0, 5))
    shape = tuple(int(v) for v in rng.integers(1, 5, rank))
    if rank and chance(rng, 0.4):
        i = int(rng.integers(rank))
        shape = shape[:i] + (min(n, 12),) + shape[i + 1:]
    ps = surface(rng, shape)
    if rank and chance(rng, 0.3):
        ps[tuple(int(rng.integers(s)) for s in shape)] = np.nan
    p0 = pick(rng, [100000.0, 100000.0, 101325.0, 1.0, 100000])
    if p0 == 1.0:
        a = a * 1e5
    kw = {} if p0 == 100000.0 and chance(rng, 0.5) else {'p0': p0}
    c = (-1,) + (1,) * rank
    p = a.reshape(c) * p0 + b.reshape(c) * ps
    ctx.note(rank=rank, levels_equal_size=n in shape, p0=p0, nan=bool(np.isnan(ps).any()))
    return rng, n, a, b, ps, p0, kw, p


def numpy_in(ctx):
    rng, n, a, b, ps, p0, kw, p = make(ctx)
    r = ctx.call(gc.pressure_at_hybrid_levels, ps, a, b, **kw)
    ctx.ok(isinstance(r, np.ndarray), f'{type(r)} from numpy input')
    ctx.close(r, p, 'pressure', rtol=1e-12)
    d = ctx.call(gc.delta_pressure_hybrid, ps, a, b, **kw)
    ctx.ok(isinstance(d, np.ndarray), f'{type(d)} from numpy input')
    ctx.close(d, np.abs(np.diff(p, axis=0)), 'thickness', rtol=1e-9, atol=1e-6)
    ctx.ok(not np.any(d < 0), 'negative thickness')


def xarray_in(ctx):
    rng, n, a, b, ps, p0, kw, p = make(ctx)
    dims = ['time', 'lat', 'lon', 'member'][:ps.ndim]
    co = {d: (np.linspace(-40, 40, s) if s > 1 else [1.0]) for d, s in zip(dims, ps.shape) if chance(rng, 0.7)}
    psda = xr.DataArray(ps, dims=dims, coords=co, name='PS', attrs={'units': 'Pa', 'x': 1})
    lev = pick(rng, ['lev', 'ilev', 'level'])
    withc = chance(rng, 0.6)
    c = {lev: pick(rng, [np.arange(n) + 0.5, np.linspace(3, 1000, n), np.arange(n)[::-1] * 1.0])} if withc else {}
    hya = xr.DataArray(a, dims=[lev], coords=c, name='hyai', attrs={'long_name': 'A'})
    hyb = xr.DataArray(b, dims=[lev], coords=c, name='hybi')
    ctx.note(level_coords=withc)
    r = ctx.call(gc.pressure_at_hybrid_levels, psda, hya, hyb, **kw)
    ctx.equal(set(r.dims), {lev, *dims}, 'dims')
    ctx.close(r.transpose(lev, *dims), p, 'pressure', rtol=1e-12)
    for k, v in co.items():
        ctx.close(r[k], v, f'coordinate {k}')
    hb2 = hyb
    if chance(rng, 0.3):
        hb2 = xr.DataArray(b, dims=['other'], coords={'other': np.arange(n) * 7.0} if withc else {})
        ctx.note(renamed=True)
    d = ctx.call(gc.delta_pressure_hybrid, psda, hya, hb2, **kw)
    ctx.ok(isinstance(d, xr.DataArray), 'thickness of a data array')
    ctx.equal(set(d.dims), {lev, *dims}, 'dims of the thickness')
    ctx.close(d.transpose(lev, *dims), np.abs(np.diff(p, axis=0)), 'thickness', rtol=1e-9, atol=1e-6)
    ctx.equal(d.name, 'dph', 'name')
    ctx.equal(dict(d.attrs), {'long_name': 'pressure layer thickness', 'units': 'Pa'}, 'attrs')
    for k, v in co.items():
        ctx.close(d[k], v, f'coordinate {k} of the thickness')
    # mixtures of numpy and data arrays, the type of ps decides
    m = ctx.call(gc.delta_pressure_hybrid, ps, hya, hyb, **kw)
    ctx.ok(isinstance(m, np.ndarray), 'numpy ps, data array coefficients')
    ctx.close(m, np.abs(np.diff(p, axis=0)), 'thickness, mixed input', rtol=1e-9, atol=1e-6)
    m = ctx.call(gc.delta_pressure_hybrid, psda, a, b, **kw)
    ctx.ok(isinstance(m, xr.DataArray), 'data array ps, numpy coefficients')
    ld = [x for x in m.dims if x not in dims]
    ctx.equal(len(ld), 1, 'level dimension')
    ctx.close(m.transpose(*ld, *dims), np.abs(np.diff(p, axis=0)), 'thickness, mixed input', rtol=1e-9, atol=1e-6)


def telescope(ctx):
    """With monotonic interfaces from model top to the ground the thicknesses add up to the depth of the atmosphere."""
    rng = ctx.rng
    n = int(rng.integers(3, 70))
    a, b = coefficients(rng, n, full=True)
    rank = int(rng.integers(0, 4))
    ps = surface(rng, tuple(int(v) for v in rng.integers(1, 6, rank)))
    ctx.note(telescope=True, rank=rank)
    d = ctx.call(gc.delta_pressure_hybrid, ps, a, b)
    p = ctx.call(gc.pressure_at_hybrid_levels, ps, a, b)
    ctx.close(np.sum(d, axis=0), (a[-1] - a[0]) * 1e5 + (b[-1] - b[0]) * ps, 'sum of thicknesses', rtol=1e-9)
    ctx.close(np.diff(p, axis=0), d, 'thickness against the difference of pressures', rtol=1e-9, atol=1e-6)


WORKLOADS = {'numpy': (numpy_in, 250, 5000), 'xarray': (xarray_in, 250, 5000), 'telescope': (telescope, 60, 1000)}
