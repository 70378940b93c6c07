"""C20 FAO-56 vapour pressures, slope, psychrometric constant."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import span, pick, chance
from ..core import tonp
from .c17 import wrap

ID = 'C20'
RULE = ('Temperatures -60..180 F with values exactly at, just above and just below freezing, missing values, several fill values, '
        'rank 0-4, numpy / data array / list / numbers; oracle: FAO-56 equations 8, 11, 13 and 14 point by point, the slope also '
        'against a finite difference of the pressure itself.')


def run(ctx):
    rng = ctx.rng
    rank = int(rng.integers(0, 5))
    shape = tuple(int(v) for v in rng.integers(1, 6, rank))
    f = span(rng, *pick(rng, [(-60, 180), (20, 110), (30, 34)]), shape)
    f = np.asarray(f)
    if rank and chance(rng, 0.4):
        f.flat[int(rng.integers(f.size))] = pick(rng, [32.0, 32.0, 32 + 1e-9, 32 - 1e-9, np.nan])
    fill = pick(rng, [None, -9999.0, 0.0, np.nan, -99.0, 77.0])
    if fill is not None and chance(rng, 0.15):         # temperatures that are the fill value themselves
        f = np.where(rng.random(f.shape) < pick(rng, [0.2, 1.1]), fill, f)
    cont = pick(rng, ['numpy', 'xarray', 'list'])
    ctx.note(rank=rank, fill=str(fill), container=cont, frozen=bool((f <= 32).any()), nan=bool(np.isnan(f).any()))
    kw = {} if fill is None else {'tfill': fill}
    fv = np.nan if fill is None else fill
    c = (f - 32) / 1.8
    warm = c > 0
    with np.errstate(all='ignore'):
        e = np.where(warm, 0.6108 * np.exp(17.27 * c / (c + 237.3)), fv)
        s = np.where(warm, 4096 * 0.6108 * np.exp(17.27 * c / (c + 237.3)) / (c + 237.3) ** 2, fv)
    (a,) = wrap(rng, cont, f)
    ctx.close(ctx.call(gc.saturation_vapor_pressure, a, **kw), e, 'saturation vapour pressure', rtol=1e-9)
    ctx.close(ctx.call(gc.actual_saturation_vapor_pressure, a, **kw), e, 'actual vapour pressure', rtol=1e-9)
    ctx.close(ctx.call(gc.saturation_vapor_pressure_slope, a, **kw), s, 'slope', rtol=1e-9)
    # the slope is the derivative (per degree Celsius) of the pressure
    g = np.asarray(rng.uniform(34, 150, (5,)))
    h = 0.01
    d = (tonp(ctx.call(gc.saturation_vapor_pressure, g + h)) - tonp(ctx.call(gc.saturation_vapor_pressure, g - h))) / (2 * h / 1.8)
    ctx.close(ctx.call(gc.saturation_vapor_pressure_slope, g), d, 'slope against finite differences', rtol=1e-3)
    p = span(rng, *pick(rng, [(50, 110), (1, 1000), (0, 1)]), shape)
    p = np.asarray(p)
    (b,) = wrap(rng, cont, p)
    ctx.close(ctx.call(gc.psychrometric_constant, b), 0.66474e-3 * p, 'psychrometric constant', rtol=1e-9)


WORKLOADS = {'values': (run, 400, 8000)}
