"""C09 gradient: differences of the data divided by true distances on the ellipsoid."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..geo import arc_lat, radius
from ..core import Reject

ID = 'C09'
RULE = ('Random rectilinear grids (regular and irregular spacing, ascending and descending, 2-40 points a side, global and '
        'fine regional, given as 1-D or 2-D coordinates, float64/float32/int) and 2-4 dimensional fields; the oracle takes '
        'central differences inside and one-sided ones on the edge, over arc lengths integrated on the WGS84 ellipsoid.')
ASSUMPTIONS = ['values compared to 1e-6 of the largest gradient of the field; latitudes within 89 degrees']


def axis(rng, n, lo, hi, integer=False):
    if integer:
        v = np.sort(rng.choice(np.arange(int(lo), int(hi) + 1), n, replace=False)).astype(float)
    elif chance(rng, 0.5):
        v = np.linspace(lo, hi, n)
    else:
        v = np.sort(rng.uniform(lo, hi, n))
        if n > 1 and np.diff(v).min() < (hi - lo) / n * 0.02:
            v = np.linspace(lo, hi, n) + rng.uniform(-0.3, 0.3, n) * (hi - lo) / n
            v = np.clip(v, lo, hi)
    if chance(rng, 0.3):
        v = v[::-1].copy()
    return v


def diff(v, ax):
    """central difference of neighbours (not divided), one-sided at the ends"""
    v = np.moveaxis(np.asarray(v, float), ax, 0)
    d = np.empty_like(v)
    d[1:-1] = (v[2:] - v[:-2]) / 2
    d[0] = v[1] - v[0]
    d[-1] = v[-1] - v[-2]
    return np.moveaxis(d, 0, ax)


def grid(ctx):
    rng = ctx.rng
    nlat, nlon = int(rng.integers(2, 41)), int(rng.integers(2, 41))
    integer = chance(rng, 0.2)
    if integer:
        lat, lon = axis(rng, nlat, -85, 85, True), axis(rng, nlon, -180, 360, True)
    elif chance(rng, 0.4):
        c, w = rng.uniform(-80, 80), rng.uniform(0.2, 4)
        lat = axis(rng, nlat, c, c + w)
        c, w = rng.uniform(-180, 350), rng.uniform(0.2, 4)
        lon = axis(rng, nlon, c, c + w)
    else:
        lat, lon = axis(rng, nlat, -89, 89), axis(rng, nlon, *pick(rng, [(-180, 179), (0, 359), (-20, 40)]))
    return rng, lat, lon, integer


def expected(data, lat, lon):
    dy = diff(arc_lat(lat), 0)[:, None]
    dx = (radius(lat) * np.cos(np.deg2rad(lat)))[:, None] * diff(np.deg2rad(lon), 0)[None, :]
    return diff(data, -2) / dy, diff(data, -1) / dx


def run(ctx, rank2):
    rng, lat, lon, integer = grid(ctx)
    extra = () if rank2 else tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(1, 3))))
    data = field(rng, extra + (lat.size, lon.size))
    wy, wx = expected(data, lat, lon)
    two_d = chance(rng, 0.4)
    la, lo = (lat, lon)
    cast = pick(rng, [None, 'int'] if integer else [None, None, 'f4'])
    tol = toly = 1e-6
    if cast == 'int':
        la, lo = la.astype(int), lo.astype(int)
    elif cast == 'f4':
        la, lo = la.astype('f4'), lo.astype('f4')
        if np.unique(la).size < la.size or np.unique(lo).size < lo.size:
            raise Reject('float32')
        wy, wx = expected(data, la.astype(float), lo.astype(float))
        # distances are differences of float32 arcs counted from zero, whatever the order of the factors
        e = 16 * np.finfo('f4').eps
        toly = 1e-6 + e * np.abs(la).max() / np.abs(np.diff(la.astype(float))).min()
        tol = 1e-6 + e * np.abs(lo).max() / np.abs(np.diff(lo.astype(float))).min() + e / np.cos(np.deg2rad(np.abs(la).max()))
        if max(tol, toly) > 0.05:
            raise Reject('float32 cannot resolve the distances')
    ctx.note(rank=data.ndim, coords='2d' if two_d else '1d', dtype=str(cast), lat='desc' if lat[0] > lat[-1] else 'asc',
             lon='desc' if lon[0] > lon[-1] else 'asc', nan=False)
    if two_d:
        lo, la = np.meshgrid(lo, la)
    sy, sx = np.abs(wy).max(), np.abs(wx).max()
    with np.errstate(all='ignore'):
        g = ctx.call(gc.gradient, data, lo, la)
    ctx.equal(len(g), 2, 'number of components')
    ctx.close(g[0], wy, 'northward gradient', rtol=toly, atol=toly * sy * 1e-2 if cast != 'f4' else toly * sy)
    ctx.close(g[1], wx, 'eastward gradient', rtol=tol, atol=tol * sx * 1e-2 if cast != 'f4' else tol * sx)


def xarr(ctx):
    """Data arrays: coordinates taken from the array, labelled output, missing values stay local."""
    rng, lat, lon, integer = grid(ctx)
    extra = pick(rng, [(), (), (2,), (2, 3)])
    data = field(rng, extra + (lat.size, lon.size))
    nan = chance(rng, 0.4)
    if nan:
        data[rng.random(data.shape) < 0.05] = np.nan
    wy, wx = expected(data, lat, lon)
    dims = ['time', 'lev'][2 - len(extra):] + ['lat', 'lon']
    two_d = chance(rng, 0.4)
    if two_d:
        lo2, la2 = np.meshgrid(lon, lat)
        dims[-2:] = ['y', 'x']
        if extra == () and chance(rng, 0.5):
            dims[-2:] = ['nj', 'ni']
        co = {'lat': (dims[-2:], la2), 'lon': (dims[-2:], lo2)}
    else:
        co = {'lat': lat, 'lon': lon}
    da = xr.DataArray(data, dims=dims, coords=co, name='T')
    mode = pick(rng, ['own', 'given', 'given_np'])
    LO, LA = np.meshgrid(lon, lat)
    ctx.note(rank=data.ndim, coords='2d' if two_d else '1d', mode=mode, nan=nan)
    if two_d and dims[-2:] == ['y', 'x'] and extra:
        pass
    if mode == 'own':
        g = ctx.call(gc.gradient, da)
    else:
        lo, la = da['lon'], da['lat']
        other = chance(rng, 0.5)          # the array carries coordinates of its own which are not those of the call
        ctx.note(attached='other' if other else 'same')
        if other and two_d:
            da = da.assign_coords(lat=(dims[-2:], rng.uniform(-80, 80, LA.shape)), lon=(dims[-2:], rng.uniform(0, 300, LA.shape)))
        elif other:
            da = da.assign_coords(lat=np.arange(lat.size) * 1.0, lon=np.arange(lon.size) * 1.0)
        if mode == 'given_np':
            lo, la = lo.values, la.values
        g = ctx.call(gc.gradient, da, lo, la)
    sy, sx = np.nanmax(np.abs(wy)), np.nanmax(np.abs(wx))
    for o, w, s, nm in ((g[0], wy, sy, 'northward'), (g[1], wx, sx, 'eastward')):
        ctx.ok(isinstance(o, xr.DataArray), f'{nm}: {type(o)} from a data array')
        ctx.close(o, w, f'{nm} gradient', rtol=1e-6, atol=1e-8 * s)
        ctx.ok('lat' in o.coords and 'lon' in o.coords, f'{nm}: coordinates lost')
        ctx.close(o['lat'], LA, 'latitudes of the result')
        ctx.close(o['lon'], LO, 'longitudes of the result')


def exact(ctx):
    """A field linear in distance has a constant gradient."""
    rng, lat, lon, integer = grid(ctx)
    k1, k2, c = rng.uniform(-2, 2, 3)
    y = arc_lat(lat)[:, None]
    x = (radius(lat) * np.cos(np.deg2rad(lat)))[:, None] * np.deg2rad(lon)[None, :]
    f1 = k1 * y + c + 0 * x
    ctx.note(kind='linear')
    g = ctx.call(gc.gradient, f1, lon, lat)
    ctx.close(g[0], np.full(f1.shape, k1), 'gradient of a field linear in the northward distance', rtol=1e-6, atol=1e-8)
    ctx.close(g[1], np.zeros(f1.shape), 'eastward gradient of a zonally constant field', rtol=0, atol=1e-9)
    g = ctx.call(gc.gradient, k2 * x + c, lon, lat)
    ctx.close(g[1], np.full(f1.shape, k2), 'gradient of a field linear in the eastward distance', rtol=1e-6, atol=1e-8)


WORKLOADS = {'plane': (lambda c: run(c, True), 200, 6000), 'stack': (lambda c: run(c, False), 150, 4000),
             'xarray': (xarr, 200, 5000), 'linear': (exact, 100, 3000)}
