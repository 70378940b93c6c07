"""C19 relative humidity: table based, over ice, over water."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import span, pick, chance
from ..core import tonp
from .c17 import wrap

ID = 'C19'
RULE = ('Temperatures inside, at the ends of and outside 173.16-375.16 K, whole and fractional degrees, mixing ratios 1e-8-0.05, '
        'pressures 1-1100 hPa, rank 0-4, missing values, numpy / data array / list / numbers; oracle: linear interpolation in the '
        'published 1 K table of saturation vapour pressure, and the published Magnus forms, point by point.')
ASSUMPTIONS = ['the reference table is the one published with the original routine']

TABLE = np.array([0.01403, 0.01719, 0.02101, 0.02561, 0.03117, 0.03784, 0.04584, 0.05542, 0.06685, 0.08049, 0.09672, 0.116, 0.1388, 0.1658, 0.1977, 0.2353, 0.2796, 0.3316, 0.3925, 0.4638, 0.5472, 0.6444, 0.7577, 0.8894, 1.042, 1.22, 1.425, 1.662, 1.936, 2.252, 2.615, 3.032, 3.511, 4.06, 4.688, 5.406, 6.225, 7.159, 8.223, 9.432, 10.8, 12.36, 14.13, 16.12, 18.38, 20.92, 23.8, 27.03, 30.67, 34.76, 39.35, 44.49, 50.26, 56.71, 63.93, 71.98, 80.97, 90.98, 102.1, 114.5, 128.3, 143.6, 160.6, 179.4, 200.2, 223.3, 248.8, 276.9, 307.9, 342.1, 379.8, 421.3, 466.9, 517.0, 572.0, 632.3, 698.5, 770.9, 850.2, 937.0, 1032.0, 1146.6, 1272.0, 1408.1, 1556.7, 1716.9, 1890.3, 2077.6, 2279.6, 2496.7, 2729.8, 2980.0, 3247.8, 3534.1, 3839.8, 4164.8, 4510.5, 4876.9, 5265.1, 5675.2, 6107.8, 6566.2, 7054.7, 7575.3, 8129.4, 8719.2, 9346.5, 10013.0, 10722.0, 11474.0, 12272.0, 13119.0, 14017.0, 14969.0, 15977.0, 17044.0, 18173.0, 19367.0, 20630.0, 21964.0, 23373.0, 24861.0, 26430.0, 28086.0, 29831.0, 31671.0, 33608.0, 35649.0, 37796.0, 40055.0, 42430.0, 44927.0, 47551.0, 50307.0, 53200.0, 56236.0, 59422.0, 62762.0, 66264.0, 69934.0, 73777.0, 77802.0, 82015.0, 86423.0, 91034.0, 95855.0, 100890.0, 106160.0, 111660.0, 117400.0, 123400.0, 129650.0, 136170.0, 142980.0, 150070.0, 157460.0, 165160.0, 173180.0, 181530.0, 190220.0, 199260.0, 208670.0, 218450.0, 228610.0, 239180.0, 250160.0, 261560.0, 273400.0, 285700.0, 298450.0, 311690.0, 325420.0, 339650.0, 354410.0, 369710.0, 385560.0, 401980.0, 418980.0, 436590.0, 454810.0, 473670.0, 493170.0, 513350.0, 534220.0, 555800.0, 578090.0, 601130.0, 624940.0, 649530.0, 674920.0, 701130.0, 728190.0, 756110.0, 784920.0, 814630.0, 845280.0, 876880.0, 909450.0, 943020.0, 977610.0, 1013250.0, 1049940.0, 1087740.0, 1087740.0])


def es_table(t):
    x = np.clip(t, 173.16, 375.16) - 173.16
    return np.interp(x, np.arange(TABLE.size), TABLE) * 0.1      # Pa


def rh_table(t, w, p):
    e = es_table(t)
    return np.maximum(100 * w * (p - 0.378 * e) / (0.622 * e), 0.0001)


def magnus(t, w, p, a, b):
    e = 6.1128 * np.exp(a * (t - 273.15) / (t - b))
    return 100 * w / (0.622 * e / (p * 0.01 - 0.378 * e))


def sample(rng, lo, hi):
    rank = int(rng.integers(0, 5))
    shape = tuple(int(v) for v in rng.integers(1, 6, rank))
    t = span(rng, lo, hi, shape)
    w = 10 ** span(rng, -8, -1.3, shape)
    p = 10 ** span(rng, 2, 5.04, shape)
    return rank, shape, np.asarray(t), np.asarray(w), np.asarray(p)


def table(ctx):
    rng = ctx.rng
    reg = pick(rng, ['all', 'met', 'met', 'low', 'high', 'outside', 'whole'])
    rank, shape, t, w, p = sample(rng, *{'all': (173.2, 375.1), 'met': (220, 315), 'low': (173.16, 180), 'high': (366, 375.16), 'outside': (100, 450), 'whole': (174, 374)}[reg])
    if reg == 'whole':
        t = np.floor(t) + 0.16
    if reg == 'outside' and rank and chance(rng, 0.4):
        t.flat[0] = pick(rng, [173.16, 375.16, 0.0, 1000.0])
    nan = rank and chance(rng, 0.25)
    if nan:
        pick(rng, [t, w, p]).flat[int(rng.integers(t.size))] = np.nan
    want = rh_table(t, w, p)
    # a negative estimate (vapour pressure above the ambient one) is floored
    cont = pick(rng, ['numpy', 'xarray'] + (['numbers'] if rank == 0 else []))
    ctx.note(region=reg, rank=rank, container=cont, nan=bool(nan))
    a = (float(t), float(w), float(p)) if cont == 'numbers' else wrap(rng, cont, t, w, p)
    o = ctx.call(gc.relhum, *a)
    ctx.close(o, want, 'relhum', rtol=1e-8)
    ctx.ok(not np.any(tonp(o) < 0.0001 * (1 - 1e-12)), 'relative humidity below its floor')
    if rank:
        sat = 0.622 * es_table(t) / (p - 0.378 * es_table(t))
        ok = (sat > 0) & (sat < 10)
        if ok.any():
            r = tonp(ctx.call(gc.relhum, t, np.where(ok, sat, 0.001), p))
            ctx.close(r[ok], np.full(int(ok.sum()), 100.0), 'relhum of saturated air', rtol=1e-8)
    ctx.raises(ValueError, gc.relhum, np.ones(4) * 280, np.ones(4) * 0.01, np.ones(int(pick(rng, [1, 3, 5]))) * 9e4, what='different shapes')


def ice_water(ctx):
    rng = ctx.rng
    rank, shape, t, w, p = sample(rng, *pick(rng, [(180, 273.15), (250, 320), (230, 300)]))
    nan = rank and chance(rng, 0.2)
    if nan:
        pick(rng, [t, w, p]).flat[int(rng.integers(t.size))] = np.nan
    cont = pick(rng, ['numpy', 'xarray', 'list'])
    ctx.note(rank=rank, container=cont, nan=bool(nan))
    for fn, a, b in ((gc.relhum_ice, 22.571, 273.15 - 273.71), (gc.relhum_water, 17.269, 35.86)):
        o = ctx.call(fn, *wrap(rng, cont, t, w, p))
        ctx.close(o, magnus(t, w, p, a, b), fn.__name__, rtol=1e-9)
        if cont == 'xarray':
            ctx.ok(isinstance(o, xr.DataArray), 'data array in, something else out')
        e = 6.1128 * np.exp(a * (t - 273.15) / (t - b))
        sat = np.asarray(0.622 * e / (p * 0.01 - 0.378 * e))
        r = ctx.call(fn, t, sat, p)
        ctx.close(r, np.where(np.isnan(sat), np.nan, 100.0), f'{fn.__name__} of saturated air', rtol=1e-9)
        ctx.raises(ValueError, fn, np.ones(4) * 280, np.ones(4) * 0.01, np.ones(5) * 9e4, what='different shapes')
        ctx.raises(TypeError, fn, t, xr.DataArray(w), p, what='mixed types')
    # at the triple point both agree
    z = np.full(3, 273.15)
    ctx.close(ctx.call(gc.relhum_ice, z, z * 1e-5, z * 300), ctx.call(gc.relhum_water, z, z * 1e-5, z * 300), 'ice and water at 0 C', rtol=1e-9)


WORKLOADS = {'table': (table, 400, 8000), 'ice_water': (ice_water, 250, 5000)}
