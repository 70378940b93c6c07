"""C18 heat_index: the National Weather Service procedure."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp, Reject
from .c17 import wrap

ID = 'C18'
RULE = ('Temperatures -40..140 F and humidities 0-100 %, uniformly, clustered in each branch of the procedure and exactly on its '
        'thresholds (40, 79/80, 87, 95, 112 F; 13, 85 %), rank 0-3, numpy / data array / list / numbers, both coefficient sets; the '
        'oracle walks the procedure for each point by itself.')
ASSUMPTIONS = ['points whose simple estimate is within 1e-9 of the critical temperature are skipped']

C1 = [-42.379, 2.04901523, 10.14333127, -0.22475541, -0.00683783, -0.05481717, 0.00122874, 0.00085282, -0.00000199]
C2 = [0.363445176, 0.988622465, 4.777114035, -0.114037667, -0.000850208, -0.020716198, 0.000687678, 0.000274954, 0.0]


def point(t, r, alt):
    if np.isnan(t) or np.isnan(r):
        return t if (not np.isnan(t)) and t < 40 else np.nan
    c, crit = (C2, 70.0) if alt else (C1, 79.0)
    h = ((61.0 + (t - 68.0) * 1.2 + r * 0.094) + t) * 0.5
    if t < 40:
        h = t
    if abs(h - crit) < 1e-9:
        raise Reject('threshold')
    if h >= crit:
        h = (c[0] + c[1] * t + c[2] * r + c[3] * t * r + c[4] * t * t + c[5] * r * r + c[6] * t * t * r + c[7] * t * r * r
             + c[8] * t * t * r * r)
    if r <= 13 and 80 <= t <= 112:
        h -= ((13 - r) / 4) * np.sqrt((17 - abs(t - 95)) / 17) if abs(t - 95) <= 17 else 0
    if r > 85 and 80 <= t <= 87:
        h += ((r - 85) / 10) * ((87 - t) / 5)
    return h


def run(ctx):
    rng = ctx.rng
    rank = int(rng.integers(0, 4))
    shape = tuple(int(v) for v in rng.integers(1, 8, rank))
    reg = pick(rng, ['all', 'dry', 'humid', 'cold', 'hot', 'exact', 'edge', 'arid', 'narrow', 'narrow'])
    U = rng.uniform
    def narrow(lo, hi):
        a, b = np.sort(U(lo, hi, 2))
        a, b = pick(rng, [(a, b), (lo, lo + (b - lo) * 10 ** U(-6, 0)), (hi - (hi - a) * 10 ** U(-6, 0), hi)])
        return U(a, b, shape)
    t, r = {'arid': lambda: (U(30, 130, shape), U(0, 1, shape)), 'narrow': lambda: (narrow(-40, 140), narrow(0, 100)), 'all': lambda: (U(-40, 140, shape), U(0, 100, shape)), 'dry': lambda: (U(78, 114, shape), U(0, 16, shape)),
            'humid': lambda: (U(78, 89, shape), U(82, 100, shape)), 'cold': lambda: (U(30, 50, shape), U(0, 100, shape)),
            'hot': lambda: (U(75, 130, shape), U(10, 90, shape)),
            'exact': lambda: (rng.choice([39.0, 40, 41, 60, 75, 79, 80, 81, 87, 88, 95, 112, 113], shape), rng.choice([0.0, 5, 12, 13, 14, 50, 85, 86, 100], shape)),
            'edge': lambda: (rng.choice([40.0, 80, 87, 112], shape) + rng.choice([-1e-6, 0, 1e-6], shape), rng.choice([13.0, 85], shape) + rng.choice([-1e-6, 0, 1e-6], shape))}[reg]()
    t, r = np.asarray(t, float), np.asarray(r, float)
    # between 112 and 112+ the dry adjustment ends; |t-95| <= 17 holds on 80..112
    nan = rank and chance(rng, 0.12)
    if nan:
        (t if chance(rng, 0.5) else r).flat[int(rng.integers(t.size))] = np.nan
    alt = chance(rng, 0.4)
    cont = pick(rng, ['numpy', 'xarray', 'list'])
    ctx.note(region=reg, rank=rank, container=cont, alternate=alt, nan=bool(nan))
    want = np.array([point(a, b, alt) for a, b in zip(t.ravel(), r.ravel())]).reshape(shape)
    a, b = wrap(rng, cont, t, r)
    kw = {'alternate_coeffs': True} if alt else {}
    o = ctx.call(gc.heat_index, a, b, **kw)
    ctx.close(o, want, f'heat index ({reg})', rtol=1e-9, scale=1.0)
    if cont == 'xarray':
        ctx.ok(isinstance(o, xr.DataArray) and o.dims == a.dims, 'data array in, something else out')
    elif cont == 'list':
        ctx.ok(isinstance(o, (list, float, int)), f'{type(o)} from lists')


def bad(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 20))
    t, r = rng.uniform(60, 110, n), rng.uniform(0, 100, n)
    kind = pick(rng, ['high', 'low', 'shape', 'type'])
    ctx.note(bad=kind)
    if kind == 'high':
        r[int(rng.integers(n))] = 100 + rng.uniform(1e-6, 50)
    elif kind == 'low':
        r[int(rng.integers(n))] = -rng.uniform(1e-6, 50)
    elif kind == 'shape':
        r = r[:-1] if n > 2 else np.concatenate([r, r, r])
    if kind == 'type':
        ctx.raises(TypeError, gc.heat_index, xr.DataArray(t), r, what='mixed types')
    else:
        a, b = wrap(rng, pick(rng, ['numpy', 'list', 'xarray']), t, r) if kind != 'shape' else (t, r)
        ctx.raises(ValueError, gc.heat_index, a, b, what=kind)


WORKLOADS = {'values': (run, 500, 10000), 'invalid': (bad, 60, 800)}
