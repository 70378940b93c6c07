"""C30 chunked (dask) inputs give the values of eager inputs."""
import numpy as np, xarray as xr, dask
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import same, parts
from ..core import Reject

QUICK = 1
ID = 'C30'
RULE = ('Every public function that takes data arrays, with random valid inputs cut into random chunks (single elements, uneven blocks, '
        'whole axes; all arguments or only some), evaluated by the serial and the threaded scheduler; oracle: the same call on eager arrays.')
ASSUMPTIONS = ['the reduced dimension of pearson_r is not cut, and the EOF functions are left out (their libraries do not support it)']

NAMES = [n for n in CATALOG if (n.endswith('.x') or n.split('.')[0] in ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season'))
         and not n.startswith('eofunc')]


def cut(rng, n):
    how = pick(rng, ['one', 'whole', 'half', 'random'])
    if how == 'whole' or n <= 1:
        return (n,)
    if how == 'one' and n <= 60:
        return (1,) * n
    if how == 'half':
        return (n - n // 2, n // 2)
    k = int(rng.integers(1, min(n, 6)))
    e = sorted(rng.choice(np.arange(1, n), k, replace=False).tolist())
    return tuple(np.diff([0] + e + [n]).tolist())


def chunk(rng, a, name, p, points=()):
    if not isinstance(a, (xr.DataArray, xr.Dataset)) or not chance(rng, p):
        return a
    whole = set(a.dims) - set(points) if name.startswith('pearson') else set()
    return a.chunk({d: (cut(rng, n) if d not in whole else (n,)) for d, n in a.sizes.items()})


def gaps(rng, a):
    """Some values missing."""
    if isinstance(a, xr.Dataset):
        return a.map(lambda v: gaps(rng, v), keep_attrs=True)
    v = a.values.astype(float)
    v[rng.random(v.shape) < pick(rng, [0.05, 0.3])] = np.nan
    return a.copy(data=v)


WHOLE = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season', 'fourier', 'gradient', 'interp_multidim',
         'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'decomposition')


def whole_numbers(a, t):
    if isinstance(a, xr.Dataset):
        return a.map(lambda v: whole_numbers(v, t), keep_attrs=True)
    i = np.iinfo(t)
    lo, hi = max(i.min, -10 ** 6), min(i.max, 10 ** 6)
    v = np.where(np.isfinite(a.values), a.values, 0.0)
    return a.copy(data=np.round(lo + (v - v.min()) / (np.ptp(v) or 1.0) * (hi - lo)).astype(t))


def run(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    if c.poison is not None and isinstance(c.args[c.poison], (xr.DataArray, xr.Dataset)) and chance(rng, 0.35):
        c.args[c.poison] = gaps(rng, c.args[c.poison])
        ctx.note(missing=True)
    elif name.split('.')[0] in WHOLE and chance(rng, 0.25):
        t = pick(rng, ['int16', 'int32', 'int64', 'uint16', 'uint8'])
        c.args[0] = whole_numbers(c.args[0], t)
        ctx.note(stored=t)
    want = ctx.call(c.fn, *c.args, **c.kw)
    p = pick(rng, [1.0, 0.6])
    k = c.map(lambda a: chunk(rng, a, name, p, c.points))
    if not any(getattr(a, 'chunks', None) for _, a in k.everything()):
        k = c.map(lambda a: chunk(rng, a, name, 1.0, c.points))
    blocks = max([int(np.prod([len(x) for x in a.chunks])) if isinstance(a, xr.DataArray) and a.chunks else 1 for _, a in k.everything()])
    sched = pick(rng, ['synchronous', 'threads'])
    ctx.note(entry=name, scheduler=sched, blocks=min(blocks, 50) // 10 * 10)
    with dask.config.set(scheduler=sched):
        got = ctx.call(k.fn, *k.args, **k.kw)
        lazy = got
        got = [o.compute() if hasattr(o, 'compute') else o for o in got] if isinstance(got, list) else got.compute() if hasattr(got, 'compute') else got
    for (l, x), (_, y) in zip(parts(lazy), parts(got)):
        if isinstance(x, xr.DataArray):
            ctx.ok(x.dtype == y.dtype and x.shape == y.shape, f'{c.fn.__name__}{l} announces {x.dtype}{x.shape} and holds {y.dtype}{y.shape}')
    same(ctx, got, want, f'{c.fn.__name__} of chunked input', rtol=1e-9)
    ctx.digest.update(str(blocks).encode())


WORKLOADS = {n: ((lambda ctx, n=n: run(ctx, n)), 20 if n.endswith('.x') else 14, 300) for n in NAMES}
