"""C08 the Fourier filters act on the time axis only, and add up."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field, wrap_da, stamps
from ..climo import D

ID = 'C08'
RULE = ('Random 1-4 dimensional signals with the time on every axis (also counted from the end), as numpy arrays, lists and '
        'data arrays; laws: other columns do not matter, linear, idempotent, pass + block = signal, no filter = signal, '
        'low + high = signal at a harmonic; data arrays keep dims, coordinates, name and attributes.')

FN = {'low': gc.fourier_low_pass, 'high': gc.fourier_high_pass, 'band_pass': gc.fourier_band_pass, 'band_block': gc.fourier_band_block}


def setup(ctx):
    rng = ctx.rng
    rank = int(rng.integers(1, 5))
    shape = [int(v) for v in rng.integers(1, 6, rank)]
    ax = int(rng.integers(rank))
    n = int(rng.integers(3, 60))
    shape[ax] = n
    x = field(rng, tuple(shape))
    kind = pick(rng, list(FN))
    freq = float(pick(rng, [24.0, 1.0, 10.0]))
    res = freq / n
    lo, hi = sorted(int(v) for v in rng.integers(0, max(1, n // 2), 2))
    lo, hi = (lo + 0.4) * res, (hi + 0.6) * res
    args = {'low': (freq, lo), 'high': (freq, hi)}.get(kind, (freq, lo, hi))
    tax = ax if chance(rng, 0.7) else ax - rank
    ctx.note(kind=kind, rank=rank, axis=tax, n=n, same=len(set(shape)) < rank)
    return rng, x, ax, tax, kind, args, np.abs(x).max() * 1e-9


def columns(ctx):
    """Every column along the time axis is filtered by itself."""
    rng, x, ax, tax, kind, args, tol = setup(ctx)
    y = ctx.call(FN[kind], x, *args, time_axis=tax)
    ctx.equal(np.shape(y), x.shape, 'shape')
    xm = np.moveaxis(x, ax, 0).reshape(x.shape[ax], -1)
    ym = np.moveaxis(y, ax, 0).reshape(x.shape[ax], -1)
    for j in rng.choice(xm.shape[1], min(3, xm.shape[1]), replace=False):
        ctx.close(ym[:, j], ctx.call(FN[kind], xm[:, j].copy(), *args), f'column {j} of a rank {x.ndim} signal, axis {tax}', rtol=0, atol=tol)
    # time axis first
    y0 = ctx.call(FN[kind], np.moveaxis(x, ax, 0), *args)
    ctx.close(np.moveaxis(y0, 0, ax), y, 'same signal with time first', rtol=0, atol=tol)


def laws(ctx):
    rng, x, ax, tax, kind, args, tol = setup(ctx)
    f = lambda v: ctx.call(FN[kind], v, *args, time_axis=tax)
    y = f(x)
    ctx.close(f(y), y, 'filter applied twice', rtol=0, atol=4 * tol)
    z = field(rng, x.shape, 'normal') * np.abs(x).max()
    c = float(rng.uniform(-3, 3))
    ctx.close(f(x + c * z), y + c * f(z), 'linearity', rtol=0, atol=40 * tol)
    n = x.shape[ax]
    freq = args[0]
    lo, hi = sorted(int(v) for v in rng.integers(0, n // 2 + 1, 2))
    F = n * 4.0
    a = ctx.call(gc.fourier_band_pass, x, F, lo * 4.0, hi * 4.0, time_axis=tax)
    b = ctx.call(gc.fourier_band_block, x, F, lo * 4.0, hi * 4.0, time_axis=tax)
    ctx.close(a + b, x, f'band pass + band block, harmonics [{lo},{hi}) of {n}', rtol=0, atol=4 * tol)
    a = ctx.call(gc.fourier_low_pass, x, F, hi * 4.0, time_axis=tax)
    b = ctx.call(gc.fourier_high_pass, x, F, hi * 4.0, time_axis=tax)
    ctx.close(a + b, x, f'low pass + high pass at harmonic {hi} of {n}', rtol=0, atol=4 * tol)
    ctx.close(ctx.call(gc.fourier_filter, x, freq, *args[1:], time_axis=tax), x, 'no filter selected', rtol=0, atol=4 * tol)


def container(ctx):
    rng, x, ax, tax, kind, args, tol = setup(ctx)
    y = ctx.call(FN[kind], x, *args, time_axis=tax)
    ctx.ok(type(y) is np.ndarray, f'numpy in, {type(y)} out')
    dims = [f'd{i}' for i in range(x.ndim)]
    dims[ax] = 'time'
    co = {d: np.arange(s) * 2.0 for d, s in zip(dims, x.shape) if d != 'time'}
    if chance(rng, 0.7):
        co['time'] = stamps('np', (2001, 2, 3), x.shape[ax], D)
    da = xr.DataArray(x, dims=dims, coords=co, name=pick(rng, ['sig', None]), attrs={'units': 'm', 'k': 3})
    if chance(rng, 0.4):
        da = da.assign_coords(aux=(tuple(dims), x * 2))
    o = ctx.call(FN[kind], da, *args, time_axis=tax)
    ctx.ok(isinstance(o, xr.DataArray), 'data array in, something else out')
    ctx.equal(o.dims, da.dims, 'dims')
    ctx.equal(dict(o.attrs), dict(da.attrs), 'attrs')
    ctx.equal(o.name, da.name, 'name')
    ctx.ok(o.coords.to_dataset().identical(da.coords.to_dataset()), 'coordinates changed')
    ctx.close(o, y, 'data array values', rtol=0, atol=tol)
    l = ctx.call(FN[kind], x.tolist(), *args, time_axis=tax)
    ctx.close(l, y, 'list values', rtol=0, atol=tol)
    xi = np.round(x).astype(int) if np.abs(x).max() < 1e9 else np.ones(x.shape, int)
    ctx.close(ctx.call(FN[kind], xi, *args, time_axis=tax), ctx.call(FN[kind], xi.astype(float), *args, time_axis=tax), 'integers', rtol=0, atol=1e-9 * (1 + np.abs(xi).max()))
    dx = xr.DataArray(xi, dims=dims)
    ctx.close(ctx.call(FN[kind], dx, *args, time_axis=tax), ctx.call(FN[kind], xi.astype(float), *args, time_axis=tax), 'integer data array', rtol=0, atol=1e-9 * (1 + np.abs(xi).max()))


WORKLOADS = {'columns': (columns, 300, 6000), 'laws': (laws, 300, 6000), 'container': (container, 300, 6000)}
