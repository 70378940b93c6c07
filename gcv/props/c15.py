"""C15 interp_multidim: bilinear / nearest regridding of the last two dimensions."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..core import tonp, Reject

ID = 'C15'
RULE = ('Random rectilinear source grids (regular and irregular, ascending or descending latitudes, 2-20 points a side) with 0-2 '
        'leading dimensions, targets inside, outside, on grid points and across the date line, cyclic on/off, missing-value codes, '
        'fill values, linear and nearest, numpy and data arrays; the oracle evaluates the four-corner formula point by point.')
ASSUMPTIONS = ['source longitudes ascend and span less than 360 degrees; targets with missing neighbours are off the grid lines']


def axes(rng, nlat, nlon):
    lat = np.linspace(-88, 88, nlat) if chance(rng, 0.5) else np.sort(rng.uniform(-90, 90, nlat))
    if np.diff(lat).min() < 0.05:
        lat = np.linspace(-80, 80, nlat)
    if chance(rng, 0.5):
        lon = np.arange(nlon) * (360.0 / nlon) + pick(rng, [0, 0, -180, 0.5 * 360 / nlon])
    else:
        lon = np.sort(rng.uniform(0, 359, nlon)) + pick(rng, [0, -180])
        if np.diff(lon).min() < 0.05:
            lon = np.arange(nlon) * (300.0 / nlon)
    return (lat[::-1].copy() if chance(rng, 0.35) else lat), lon


def bracket(x, v):
    j = int(np.clip(np.searchsorted(x, v, side='right') - 1, 0, len(x) - 2))
    return j, (v - x[j]) / (x[j + 1] - x[j])


def evaluate(lat, lon, d, la, lo, cyclic, method, fill):
    if lat[0] > lat[-1]:
        lat, d = lat[::-1], d[..., ::-1, :]
    if cyclic:
        lon = np.concatenate([[lon[-1] - 360], lon, [lon[0] + 360]])
        d = np.concatenate([d[..., -1:], d, d[..., :1]], axis=-1)
    out = np.full(d.shape[:-2] + (len(la), len(lo)), np.nan)
    for i, y in enumerate(la):
        for k, x in enumerate(lo):
            if y < lat[0] or y > lat[-1] or x < lon[0] or x > lon[-1]:
                out[..., i, k] = fill
                continue
            j, u = bracket(lat, y)
            m, w = bracket(lon, x)
            if method == 'nearest':
                out[..., i, k] = d[..., j + (u > 0.5), m + (w > 0.5)]
            else:
                out[..., i, k] = ((1 - u) * (1 - w) * d[..., j, m] + u * (1 - w) * d[..., j + 1, m]
                                  + (1 - u) * w * d[..., j, m + 1] + u * w * d[..., j + 1, m + 1])
    return out


def run(ctx, mode):
    rng = ctx.rng
    nlat, nlon = int(rng.integers(2, 21)), int(rng.integers(2, 21))
    lat, lon = axes(rng, nlat, nlon)
    cyclic = mode == 'cyclic' or chance(rng, 0.3)
    extra = [(), (), (2,), (2, 3)][int(rng.integers(4))]
    d = field(rng, extra + (nlat, nlon), pick(rng, ['normal', 'temp', 'trend', 'const+']))
    method = 'nearest' if mode != 'missing' and chance(rng, 0.25) else 'linear'
    nla, nlo = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    la = rng.uniform(lat.min(), lat.max(), nla)
    lo = rng.uniform(lon.min(), lon.max(), nlo)
    if mode == 'cyclic':
        lo = rng.uniform(lon[-1] - 360, lon[0] + 360, nlo)
        gap = [rng.uniform(lon[-1], lon[0] + 360), rng.uniform(lon[-1] - 360, lon[0])]
        lo = np.concatenate([lo, gap])
    if mode == 'outside':
        la = np.concatenate([la, rng.uniform(-100, 100, 3)])
        lo = np.concatenate([lo, rng.uniform(-400, 400, 3)])
    if mode == 'grid':
        la, lo = rng.permutation(lat)[:max(1, nlat - 1)], rng.permutation(lon)[:max(1, nlon - 1)]
        if chance(rng, 0.3):
            la, lo = lat, lon
    if chance(rng, 0.6):
        la, lo = np.sort(la), np.sort(lo)
    mv, miss, src = None, None, d
    if mode == 'missing':
        miss = rng.random(d.shape) < pick(rng, [0.03, 0.2])
        mv = float(pick(rng, [-999.0, 1e20, -1.0, 0.0]))
        if chance(rng, 0.4):      # valid values next to the code are valid
            near = rng.random(d.shape) < 0.4
            d = np.where(near, mv * (1 + 1e-7 * rng.choice([-1, 1, 3], d.shape)) if mv else rng.uniform(-1e-9, 1e-9, d.shape), d)
        d = np.where(miss, np.nan, np.where(d == mv, 0.5, d))
        src = np.where(miss, mv, d)
        if chance(rng, 0.3):
            src, mv = d, None
    fill = np.nan
    kw = {}
    if mode in ('outside', 'missing') and chance(rng, 0.5) and method == 'linear':
        fill = float(pick(rng, [-5.0, 0.0, 1e6]))
        kw['fill_value'] = fill
        if mode == 'missing' and chance(rng, 0.5):
            la, lo = np.append(la, rng.uniform(-100, 100)), np.append(lo, rng.uniform(-400, 400))
    if mv is not None:
        kw['missing_val'] = mv
    if cyclic:
        kw['cyclic'] = True
    if method != 'linear' or chance(rng, 0.3):
        kw['method'] = method
    with np.errstate(all='ignore'):
        want = evaluate(lat, lon, d, la, lo, cyclic, method, fill)
    if method == 'nearest':
        # stay away from the mid lines
        glat = np.sort(lat)
        glon = lon if not cyclic else np.concatenate([[lon[-1] - 360], lon, [lon[0] + 360]])
        for v, g in ((la, glat), (lo, glon)):
            mid = (g[1:] + g[:-1]) / 2
            if np.any(np.abs(v[:, None] - mid) < 1e-7):
                raise Reject('tie')
    if mv is not None:
        want = np.where(np.isnan(want), mv, want)
    numpy_in = chance(rng, 0.5)
    ctx.note(mode=mode, method=method, cyclic=cyclic, rank=d.ndim, container='numpy' if numpy_in else 'xarray', lat='desc' if lat[0] > lat[-1] else 'asc',
             missing=str(mv), fill=str(fill))
    sc = np.nanmax(np.abs(d)) if np.isfinite(d).any() else 1
    if numpy_in:
        out = ctx.call(gc.interp_multidim, src, la, lo, lat_in=lat, lon_in=lon, **kw)
        ctx.ok(isinstance(out, np.ndarray), f'{type(out)} from numpy input')
    else:
        dims = ['time', 'lev'][2 - len(extra):] + list(pick(rng, [('lat', 'lon'), ('y', 'x'), ('latitude', 'longitude')]))
        co = {dims[-2]: lat, dims[-1]: lon}
        for x, s in zip(dims[:-2], extra):
            co[x] = np.arange(s) * 1.5
        da = xr.DataArray(src, dims=dims, coords=co, name='T', attrs={'units': 'K'})
        out = ctx.call(gc.interp_multidim, da, la, lo, **kw)
        ctx.equal(out.dims, da.dims, 'dims')
        ctx.close(out[dims[-2]], la, 'latitudes of the result', rtol=0)
        ctx.close(out[dims[-1]], lo, 'longitudes of the result', rtol=0)
        for x in dims[:-2]:
            ctx.close(out[x], co[x], f'coordinate {x}')
        ctx.equal((out.name, dict(out.attrs)), ('T', {'units': 'K'}), 'name and attributes')
    tol = 1e-9
    ctx.close(out, want, f'{method} regridding ({mode})', rtol=tol, scale=sc)
    o = tonp(out)
    if method == 'linear' and mode in ('inside', 'cyclic', 'grid'):
        ax = (-2, -1)
        hi, lo_ = np.nanmax(d, axis=ax, keepdims=True), np.nanmin(d, axis=ax, keepdims=True)
        ctx.ok(not np.any((o > hi + 1e-9 * sc) | (o < lo_ - 1e-9 * sc)), 'interpolated value outside the range of the field')


WORKLOADS = {m: ((lambda c, m=m: run(c, m)), n, t) for m, n, t in
             (('inside', 150, 3000), ('cyclic', 200, 4000), ('outside', 150, 3000), ('grid', 100, 2000), ('missing', 200, 4000))}
