"""C17 dewtemp."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import span, pick, chance
from ..core import tonp

ID = 'C17'
RULE = ('Temperatures 180-340 K and humidities 0.01-100 % (dense, extreme, saturated, missing) of rank 0-4 as numbers, lists, '
        'numpy and data arrays; oracle: the published formula, evaluated separately, and its physical bounds.')


def formula(t, rh):
    R = 461.5 / (1000 * 4.186)
    L = (597.3 - 0.57 * (t - 273.0)) / R
    return t * L / (L - t * np.log(rh / 100.0))


def sample(rng):
    rank = int(rng.integers(0, 5))
    shape = tuple(int(v) for v in rng.integers(1, 7, rank))
    t = span(rng, *pick(rng, [(180, 340), (270, 310), (200, 260)]), shape)
    rh = span(rng, *pick(rng, [(0.01, 100), (0.01, 2), (95, 100), (30, 90)]), shape)
    return rank, shape, t, rh


def wrap(rng, cont, *arrs):
    """The same values in a container."""
    if cont == 'numpy':
        return arrs
    if cont == 'xarray':
        dims = [f'd{i}' for i in range(arrs[0].ndim)]
        return tuple(xr.DataArray(a, dims=dims, coords={d: np.arange(s) * 2.0 for d, s in zip(dims, a.shape)}, attrs={'orig': 1}) for a in arrs)
    if cont == 'list':
        return tuple(a.tolist() for a in arrs)
    raise ValueError(cont)


def run(ctx):
    rng = ctx.rng
    rank, shape, t, rh = sample(rng)
    if rank and chance(rng, 0.2):
        rh.flat[int(rng.integers(rh.size))] = 100.0
    if rank and chance(rng, 0.2):
        t.flat[int(rng.integers(t.size))] = np.nan
    if rank and chance(rng, 0.2):
        rh.flat[int(rng.integers(t.size))] = np.nan
    cont = pick(rng, ['numpy', 'xarray', 'list'])
    ctx.note(rank=rank, container=cont, nan=bool(np.isnan(t).any() or np.isnan(rh).any()))
    a, b = wrap(rng, cont, t, rh)
    d = ctx.call(gc.dewtemp, a, b)
    ctx.close(d, formula(t, rh), 'dew point', rtol=1e-9)
    v = tonp(d)
    ctx.ok(not np.any(v > t * (1 + 1e-12)), 'dew point above the temperature')
    s = ctx.call(gc.dewtemp, t, np.full(shape, 100.0))
    ctx.close(s, t, 'dew point at saturation', rtol=1e-12)
    if rank:
        k = rng.uniform(0.3, 0.999)
        lower = tonp(ctx.call(gc.dewtemp, t, rh * k))
        ctx.ok(not np.any(lower >= v), 'dew point does not rise with humidity')
    ctx.raises(ValueError, gc.dewtemp, np.ones(4) * 280, np.ones(int(pick(rng, [1, 3, 5]))) * 50, what='different shapes')


WORKLOADS = {'values': (run, 400, 8000)}
