"""C13 interp_sigma_to_hybrid."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..vert import coefficients, surface, interp_column
from ..core import tonp

ID = 'C13'
RULE = ('Random sigma profiles (2-25 levels, either direction, 0-3 other dimensions, level on any axis, ascending or descending '
        'horizontal coordinates) and hybrid coefficients with fewer, as many or more levels, surface pressure varying by column, '
        'linear and logarithmic; the oracle interpolates every column by itself at sigma = a p0 / ps + b.')
ASSUMPTIONS = ['hybrid levels are monotonic and do not fall within 1e-9 of the outermost sigma levels']


def run(ctx, profile=False):
    rng = ctx.rng
    ns, nh = int(rng.integers(2, 26)), int(rng.integers(1, 31))
    sig = np.sort(rng.uniform(0.01, 0.999, ns))
    if np.diff(sig).min() < 1e-4:
        sig = np.linspace(0.02, 0.99, ns)
    if chance(rng, 0.4):
        sig = sig[::-1].copy()
    a, b = coefficients(rng, nh)
    if chance(rng, 0.4):
        a, b = a[::-1].copy(), b[::-1].copy()
    shuffled = chance(rng, 0.15)
    if shuffled:               # a selection of levels in any order
        o = rng.permutation(nh)
        a, b = a[o], b[o]
    extra = [(), ('lat',), ('lat', 'lon'), ('time', 'lat', 'lon')][int(rng.integers(4))]
    lev = pick(rng, ['sigma', 'lev', 'level'])
    dims = list(extra)
    dims.insert(int(rng.integers(len(dims) + 1)), lev)
    size = {d: int(rng.integers(1, 5)) for d in extra}
    size[lev] = ns
    ps = surface(rng, tuple(size[d] for d in extra))
    co = {lev: sig}
    for d in extra:
        if chance(rng, 0.8):
            v = np.linspace(-50, 50, size[d]) if size[d] > 1 else np.array([3.0])
            co[d] = v[::-1].copy() if chance(rng, 0.4) else v
    p0 = float(pick(rng, [100000.0, 101325.0]))
    kw = {} if p0 == 100000.0 and chance(rng, 0.5) else {'p0': p0}
    method = pick(rng, ['linear', 'log'])
    if method == 'log' or chance(rng, 0.5):
        kw['method'] = method
    P = lambda v: v.reshape((-1,) + (1,) * ps.ndim)
    s = P(a) * p0 / ps + P(b)
    if profile:
        f = (lambda x: 2 - 3 * x) if method == 'linear' else (lambda x: 250 + 20 * np.log(x))
        col = np.broadcast_to(P(f(sig)), (ns,) + ps.shape)
        data = np.moveaxis(col, 0, dims.index(lev)).copy()
    else:
        data = field(rng, tuple(size[d] for d in dims), pick(rng, ['normal', 'temp', 'trend', 'int']))
    da = xr.DataArray(data, dims=dims, coords=co, name='T', attrs={'units': 'K'})
    if not profile and chance(rng, 0.15) and np.abs(data).max() < 1e6:
        da = da.round().astype(int)
    psda = xr.DataArray(ps, dims=extra, coords={k: v for k, v in co.items() if k in extra})
    if len(extra) > 1 and chance(rng, 0.4):
        psda = psda.transpose(*rng.permutation(extra))
    infer = chance(rng, 0.3)
    if infer:
        if lev != 'lev' or chance(rng, 0.5):      # 'lev' is the documented default
            da[lev].attrs['positive'] = 'down'
    else:
        kw['lev_dim'] = lev
    ctx.note(rank=da.ndim, lev_axis=dims.index(lev), method=method, nhyb='more' if nh > ns else 'same' if nh == ns else 'fewer', infer=infer,
             sigma='up' if sig[0] > sig[-1] else 'down', hybrid='any' if shuffled else 'up' if b[0] > b[-1] else 'down', profile=profile, dtype=str(da.dtype),
             surface='as data' if psda.dims == extra else 'reordered')
    sc_ = xr.DataArray(sig, dims=[lev])
    hd = lev if chance(rng, 0.7) else lev
    out = ctx.call(gc.interp_sigma_to_hybrid, da, sc_, psda, xr.DataArray(a, dims=[hd]), xr.DataArray(b, dims=[hd]), **kw)
    ctx.equal(out.dims, tuple('hlev' if d == lev else d for d in dims), 'dims')
    d = da.transpose(lev, *extra).values
    want = np.full((nh,) + ps.shape, np.nan)
    for idx in np.ndindex(*ps.shape):
        k = (slice(None),) + idx
        want[k] = interp_column(s[k], sig, d[k], method == 'log')
    o = out
    for x in extra:           # compare by label where the dimension has labels
        if x in co:
            ctx.equal(sorted(o[x].values.tolist()), sorted(co[x].tolist()), f'coordinate {x}')
            o = o.sel({x: co[x]})
    sc = np.abs(np.asarray(data)).max()
    ctx.close(o.transpose('hlev', *extra), want, f'{method} interpolation', rtol=1e-8, scale=sc)
    first = s.reshape(nh, -1)[:, 0]
    # the hybrid level coordinate is the sigma of one of the columns
    cols = s.reshape(nh, -1)
    h = tonp(out['hlev'])
    ctx.ok(h.shape == (nh,) and any(np.allclose(h, cols[:, j], rtol=1e-12) for j in range(cols.shape[1])), 'hlev coordinate')


WORKLOADS = {'columns': (run, 250, 5000), 'profile': (lambda c: run(c, True), 100, 2000)}
