"""C28 Pearson correlation."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp, Reject

ID = 'C28'
RULE = ('Random pairs of rank 1-4, reduced over every axis, any subset of dimensions or everything, with weights of the full or the '
        'reduced shape, with missing values skipped or propagated, as numpy, list, data array and data set; oracle: the weighted '
        'correlation of each slice by explicit sums; laws: symmetry, bounds, affine invariance, +1 and -1.')


def corr(a, b, w=None, skip=False):
    a, b = np.ravel(a), np.ravel(b)
    w = np.ones(a.size) if w is None else np.ravel(w)
    ok = ~(np.isnan(a) | np.isnan(b))
    if not skip and not ok.all():
        return np.nan
    a, b, w = a[ok], b[ok], w[ok]
    if a.size < 3:
        raise Reject()      # one or two values: the coefficient is undefined or +-1 up to rounding
    da, db = a - (w * a).sum() / w.sum(), b - (w * b).sum() / w.sum()
    with np.errstate(all='ignore'):
        return (w * da * db).sum() / np.sqrt((w * da * da).sum() * (w * db * db).sum())


def reduce(a, b, axes, w, skip):
    """Correlation over the axes; w is None or of the shape of the reduced axes or of a."""
    keep = [i for i in range(a.ndim) if i not in axes]
    A, B = a.transpose(keep + list(axes)), b.transpose(keep + list(axes))
    W = None
    if w is not None:
        W = np.broadcast_to(w, A.shape[len(keep):]) if w.ndim == len(axes) and w.ndim != a.ndim else w.transpose(keep + list(axes))
    out = np.empty(A.shape[:len(keep)])
    for i in np.ndindex(*out.shape):
        out[i] = corr(A[i], B[i], None if W is None else (W[i] if W.ndim == A.ndim else W), skip)
    return out


def run(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(4, 8, nd))
    off = float(pick(rng, [0, 0, 100]))
    a = rng.standard_normal(shape) * 10.0 ** rng.uniform(*pick(rng, [(-4, 4), (-4, 4), (-20, 20)]))
    b = a * float(rng.uniform(-2, 2)) + rng.standard_normal(shape) * a.std()
    a, b = a + off * a.std(), b - off * b.std()
    nan = chance(rng, 0.35)
    if nan:
        a[rng.random(shape) < 0.03] = np.nan
        b[rng.random(shape) < 0.03] = np.nan
    skip = chance(rng, 0.5)
    cont = pick(rng, ['numpy', 'numpy', 'list', 'xarray', 'xarray', 'dataset'])
    dims = ['time', 'lev', 'lat', 'lon'][-nd:]
    how = pick(rng, ['all', 'one', 'one', 'some'])
    if cont in ('numpy', 'list') and how == 'some':
        how = 'one'
    axes = list(range(nd)) if how == 'all' else sorted(rng.choice(nd, 1 if how == 'one' else int(rng.integers(1, nd + 1)), replace=False).tolist())
    w = None
    if chance(rng, 0.45):
        sh = tuple(shape[i] for i in axes)
        if cont in ('numpy', 'list'):
            w = rng.uniform(0.05, 2, shape if (chance(rng, 0.5) or how == 'all') else sh)
        else:
            w = rng.uniform(0.05, 2, sh)
    want = reduce(a, b, axes, w, skip)
    ctx.note(container=cont, rank=nd, reduced=how, weights='none' if w is None else 'full' if w.ndim == nd else 'axis', nan=nan, skipna=skip)
    kw = {}
    if skip or chance(rng, 0.3):
        kw['skipna'] = skip
    tol = dict(rtol=1e-6, atol=1e-7)
    if cont in ('numpy', 'list'):
        f = (lambda x: x) if cont == 'numpy' else (lambda x: None if x is None else x.tolist())
        if w is not None:
            kw['weights'] = f(w)
        if how != 'all':
            kw['axis'] = axes[0] - nd if chance(rng, 0.3) and not (w is not None and w.ndim != nd and False) else axes[0]
        args = f(a), f(b)
    else:
        co = {d: np.arange(n) * 2.0 for d, n in zip(dims, shape)}
        A = xr.DataArray(a, dims=dims, coords=co, name='T', attrs={'units': 'K'})
        B = xr.DataArray(b, dims=dims, coords=co, name='T')
        if w is not None:
            kw['weights'] = xr.DataArray(w, dims=[dims[i] for i in axes], coords={dims[i]: co[dims[i]] for i in axes})
        if how == 'all':
            pass
        elif how == 'one':
            kw['dim'] = dims[axes[0]]
        else:
            kw['dim'] = [dims[i] for i in axes]
        args = (A, B)
        if cont == 'dataset':
            args = xr.Dataset({'T': A, 'U': B}), xr.Dataset({'T': B, 'U': B * 2})
        ka = chance(rng, 0.4)
        if ka:
            kw['keep_attrs'] = True
    r = ctx.call(gc.pearson_r, *args, **kw)
    if cont == 'dataset':
        ctx.ok(isinstance(r, xr.Dataset), f'data set in, {type(r).__name__} out')
        u = r['U']
        ctx.close(u, np.where(np.isnan(reduce(b, b, axes, w, skip)), np.nan, 1.0), 'correlation with a multiple of itself', **tol)
        r = r['T']
    ctx.ok(r is not None, 'no result')
    ctx.close(r, want, 'correlation', **tol)
    v = tonp(r)
    ctx.ok(not np.any(np.abs(v) > 1), 'correlation outside -1..1')
    if cont == 'xarray':
        ctx.equal(r.dims, tuple(dims[i] for i in range(nd) if i not in axes), 'dims')
        ctx.equal(dict(r.attrs), {'units': 'K'} if ka else {}, 'attrs')
    if cont in ('numpy', 'xarray'):
        ctx.close(ctx.call(gc.pearson_r, args[1], args[0], **kw), want, 'correlation of b with a', **tol)
        p, q = float(rng.uniform(0.1, 5)), float(rng.normal() * np.nanstd(a))
        ctx.close(ctx.call(gc.pearson_r, args[0] * p + q, args[1], **kw), want, 'correlation in another unit', **tol)
        ctx.close(ctx.call(gc.pearson_r, args[0] * -p, args[1], **kw), -want, 'correlation of the negative', **tol)
        if w is not None:
            kw2 = {**kw, 'weights': kw['weights'] * p}
            ctx.close(ctx.call(gc.pearson_r, *args, **kw2), want, 'correlation with weights in another unit', **tol)


WORKLOADS = {'slices': (run, 500, 10000)}
