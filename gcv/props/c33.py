"""C33 points and columns are independent of each other."""
import numpy as np, xarray as xr
from ..gen import pick, chance
from ..catalog import CATALOG, POINTWISE, POINTWISE
from ..compare import same, parts, npv
from ..core import Reject

QUICK = 3
ID = 'C33'
RULE = ('Every function that acts point by point or column by column, with random valid data arrays: the result of a random selection '
        '(subset, permutation, repetition, single point) of points equals that selection of the result; missing or replaced values at '
        'one point change the result at that point only; reordering dimensions only reorders the result.')
NAMES = [n for n in CATALOG if CATALOG[n](np.random.default_rng(0)).points or n.split('.')[0] in (
    'calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season', 'fourier', 'gradient', 'interp_multidim')]
NAMES = [n for n in NAMES if not n.endswith(('.n', '.l'))]
CHEAP = set(POINTWISE) | {'wgs84', 'delta_pressure', 'delta_pressure_hybrid', 'pressure_at_hybrid_levels', 'max_daylight'}
TOL = {'nmse': 1e-9, 'pearson_r': 1e-9, 'fourier': 1e-9}


def sel(a, idx):
    if isinstance(a, (xr.DataArray, xr.Dataset)):
        i = {d: v for d, v in idx.items() if d in a.dims}
        return a.isel(i) if i else a
    return a


def alike(rng, c, size):
    """The same call with most of its points copies of one of them (a plain, a lone mountain)."""
    idx = {}
    for d, n in size.items():
        i = np.full(n, int(rng.integers(n)))
        for _ in range(int(rng.integers(0, 3))):
            i[int(rng.integers(n))] = int(rng.integers(n))
        idx[d] = i

    def copy(a):
        if not isinstance(a, (xr.DataArray, xr.Dataset)):
            return a
        b = sel(a, idx)
        return b.drop_vars([k for k in b.coords if set(b[k].dims) & set(idx)]).assign_coords(
            {k: v for k, v in a.coords.items() if set(v.dims) & set(idx)})
    return c.map(copy)


def run(ctx, name):
    rng = ctx.rng
    for _ in range(20):
        c = CATALOG[name](rng)
        dims = [d for d in c.points]
        if dims:
            break
    else:
        raise Reject()
    size = {}
    for _, a in c.everything():
        if isinstance(a, (xr.DataArray, xr.Dataset)):
            size.update({d: n for d, n in a.sizes.items() if d in dims})
    if chance(rng, 0.3):
        c = alike(rng, c, size)
    want = ctx.call(c.fn, *c.args, **c.kw)
    kind = pick(rng, ['subset', 'permute', 'single', 'poison'])
    if kind == 'poison' and c.poison is None:
        kind = 'subset'
    ctx.note(entry=name, kind=kind)
    fn = c.fn.__name__
    tol = TOL.get(fn, TOL.get(name.split('.')[0], 1e-11))
    if kind != 'poison':
        idx = {}
        for d in dims:
            n = size[d]
            if kind == 'permute':
                idx[d] = rng.permutation(n)
            elif kind == 'single':
                idx[d] = np.array([int(rng.integers(n))])
            elif chance(rng, 0.7):
                idx[d] = np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        k = c.map(lambda a: sel(a, idx))
        got = ctx.call(k.fn, *k.args, **k.kw)
        exp = [sel(o, idx) for o in want] if isinstance(want, list) else sel(want, idx)
        same(ctx, got, exp, f'{fn} of a selection of points', rtol=tol, scale=scale(want), skip=('hlev',))
        if name.split('.')[0] in CHEAP:           # every point by itself
            n = int(np.prod([size[d] for d in dims]))
            for i in (range(n) if n <= 16 else rng.choice(n, 16, replace=False)):
                idx = {d: np.array([j]) for d, j in zip(dims, np.unravel_index(int(i), [size[d] for d in dims]))}
                k = c.map(lambda a: sel(a, idx))
                got = ctx.call(k.fn, *k.args, **k.kw)
                same(ctx, got, sel(want, idx), f'{fn} of a single point', rtol=tol, scale=scale(want), skip=('hlev',))
        return
    # missing values at one point
    if np.prod([size[d] for d in dims]) == 1:
        raise Reject()
    at = {d: int(rng.integers(size[d])) for d in dims}
    a = c.args[c.poison]

    def hurt(v):
        v = v.copy(deep=True)
        vals = v.values.copy()
        vals[tuple(at.get(d, slice(None)) for d in v.dims)] = np.nan
        return v.copy(data=vals)
    k = c.map(lambda x: x)
    k.args[c.poison] = a.map(hurt, keep_attrs=True) if isinstance(a, xr.Dataset) else hurt(a)
    got = ctx.call(k.fn, *k.args, **k.kw)
    for (l, x), (_, y) in zip(parts(got), parts(want)):
        ctx.ok(x.dims == y.dims and x.shape == y.shape, f'{fn}{l}: missing values at one point change the shape {y.sizes} to {x.sizes}')
        vx, vy = npv(x).astype(float), npv(y).astype(float)
        here = tuple(at.get(d, slice(None)) for d in y.dims)
        m = np.ones(vy.shape, bool)
        m[here] = False
        if m.any():
            ctx.close(vx[m], vy[m], f'{fn}{l}: points other than the one with missing values', rtol=tol, scale=scale(want))
        ctx.ok(True, '')


def scale(r):
    v = [np.abs(npv(o)[np.isfinite(npv(o))]) for _, o in parts(r) if npv(o).dtype.kind == 'f']
    v = [x.max() for x in v if x.size]
    return max(v) if v else 1.0


def order(ctx, name):
    """The order of the dimensions of the arguments does not matter to the values."""
    rng = ctx.rng
    c = CATALOG[name](rng)
    want = ctx.call(c.fn, *c.args, **c.kw)
    a = c.args[0]
    perm = rng.permutation(list(a.dims)).tolist() if isinstance(a, xr.DataArray) else None
    ctx.note(entry=name, kind='dimension order')
    k = c.map(lambda x: x.transpose(*[d for d in perm if d in x.dims], ...) if perm and isinstance(x, xr.DataArray) else
              x.map(lambda v: v.transpose(*v.dims[::-1]), keep_attrs=True) if isinstance(x, xr.Dataset) else x)
    if 'time_axis' in k.kw:
        k.kw['time_axis'] = list(k.args[0].dims).index('time')
    got = ctx.call(k.fn, *k.args, **k.kw)
    for (l, x), (_, y) in zip(parts(got), parts(want)):
        ctx.ok(set(x.dims) == set(y.dims), f'{c.fn.__name__}{l}: dims {x.dims} and {y.dims}')
        vx, vy = npv(x.transpose(*y.dims)), npv(y)
        ctx.close(vx, vy, f'{c.fn.__name__}{l} with the dimensions in the order {perm}', rtol=1e-9, scale=scale(want))


ORDER = [n for n in NAMES if n.split('.')[0] not in ('gradient', 'interp_multidim', 'max_daylight', 'wgs84', 'delta_pressure')]
WORKLOADS = {n: ((lambda ctx, n=n: run(ctx, n)), (60 if n.split('.')[0] in POINTWISE else 20), 300) for n in NAMES}
WORKLOADS.update({f'order.{n}': ((lambda ctx, n=n: order(ctx, n)), 6, 100) for n in ORDER})
