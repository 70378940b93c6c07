"""C27 normalised mean squared error."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp

QUICK = 2
ID = 'C27'
RULE = ('Random pairs of fields on regular grids (one- and two-dimensional coordinates, any direction, name and order, with or without '
        'time and level), with differing missing points, as data arrays and data sets; oracle: the weighted formula summed '
        'explicitly; laws: zero for equal fields, one for the mean, scale and shift invariance.')
ASSUMPTIONS = ['coordinates of both inputs are identical']


def cos(lat):
    return np.cos(lat * np.pi / 180)


def make(rng):
    ny, nx = int(rng.integers(2, 12)), int(rng.integers(2, 14))
    lim = pick(rng, [90, 80, 60])
    lat = np.linspace(-lim, lim, ny) if chance(rng, 0.6) else np.linspace(rng.uniform(-80, 0), rng.uniform(10, 85), ny)
    if chance(rng, 0.4):
        lat = lat[::-1].copy()
    lon = float(pick(rng, [0, -180, 33])) + np.arange(nx) * float(pick(rng, [360 / nx, 2.5]))
    lead = pick(rng, [(), ('time',), ('time', 'lev'), ('member',)])
    shape = tuple(int(v) for v in rng.integers(1, 5, len(lead)))
    latn, lonn, at = pick(rng, [('lat', 'lon', 0), ('latitude', 'longitude', 0), ('y', 'x', 1), ('a', 'b', 1), ('p', 'q', 2)])
    latat = {0: {}, 1: {'standard_name': 'latitude', 'units': 'degrees_north'}, 2: {'units': 'degrees_north'}}[at]
    lonat = {0: {}, 1: {'standard_name': 'longitude', 'units': 'degrees_east'}, 2: {'units': 'degrees_east'}}[at]
    two = chance(rng, 0.25) and at != 1
    return ny, nx, lat, lon, lead, shape, latn, lonn, latat, lonat, two


def build(rng, g, v, perm):
    ny, nx, lat, lon, lead, shape, latn, lonn, latat, lonat, two = g
    if two:
        yd, xd = 'jj', 'ii'
        co = {latn: ((yd, xd), np.repeat(lat[:, None], nx, 1), latat), lonn: ((yd, xd), np.repeat(lon[None], ny, 0), lonat)}
    else:
        yd, xd = latn, lonn
        co = {latn: ((latn,), lat, latat), lonn: ((lonn,), lon, lonat)}
    co.update({d: np.arange(n) * 1.0 for d, n in zip(lead, shape) if d != 'member'})
    dims = lead + (yd, xd)
    da = xr.DataArray(v, dims=dims, coords=co, name='T', attrs={'units': 'K'})
    return da.transpose(*[dims[i] for i in perm]) if perm is not None else da


def formula(o, m, lat):
    """Over the last two axes (lat, lon)."""
    w = np.repeat(cos(lat)[:, None], o.shape[-1], 1)
    out = np.empty(o.shape[:-2])
    for i in np.ndindex(*out.shape):
        ok = ~(np.isnan(o[i]) | np.isnan(m[i]))
        W = w[ok]
        if W.size == 0 or W.sum() == 0:
            out[i] = np.nan
            continue
        a, b = o[i][ok], m[i][ok]
        mean = (W * a).sum() / W.sum()
        with np.errstate(all='ignore'):
            out[i] = (W * (b - a) ** 2).sum() / (W * (a - mean) ** 2).sum()
    return out


def run(ctx):
    rng = ctx.rng
    g = make(rng)
    ny, nx, lat, lon, lead, shape = g[:6]
    full = shape + (ny, nx)
    off = float(pick(rng, [0, 0, 250]))
    sc = 10.0 ** rng.uniform(-3, 3)

    def fields():
        o = rng.standard_normal(full) * sc + off
        m = o + rng.standard_normal(full) * sc * rng.uniform(0.01, 3)
        for a in (o, m):
            if chance(rng, 0.4) and ny * nx > 6:
                a[rng.random(full) < 0.15] = np.nan
        return o, m
    o, m = fields()
    perm = rng.permutation(len(full)) if chance(rng, 0.3) else None
    want = formula(o, m, lat)
    dset = chance(rng, 0.35)
    ctx.note(container='Dataset' if dset else 'DataArray', two_dimensional=g[10], names=g[6], lead='/'.join(lead), nan=bool(np.isnan(o).any() or np.isnan(m).any()))
    O, M = build(rng, g, o, perm), build(rng, g, m, perm)
    tol = 1e-7 * (1 + (off / sc) ** 2 * 1e-6)

    def judge(got, exp, what):
        got = got.transpose(*[d for d in lead if d in got.dims])
        ctx.close(got, exp, what, rtol=tol, atol=1e-12)
    if dset:
        o2, m2 = fields()
        O2, M2 = build(rng, g, o2, perm), build(rng, g, m2, perm)
        r = ctx.call(gc.nmse, xr.Dataset({'T': O, 'U': O2}), xr.Dataset({'T': M, 'U': M2}))
        ctx.ok(isinstance(r, xr.Dataset), 'data set in, something else out')
        for k, (x, y) in {'T': (o, m), 'U': (o2, m2)}.items():
            v = r[k]
            judge(v.sel(variable=k, drop=True) if 'variable' in v.dims else v, formula(x, y, lat), f'nmse of {k}')
        return
    r = ctx.call(gc.nmse, O, M)
    ctx.ok(isinstance(r, xr.DataArray), 'data array in, something else out')
    ctx.equal(set(r.dims), set(lead), 'dims')
    judge(r, want, 'nmse')
    for d in lead:
        if d != 'member':
            ctx.close(r[d], np.arange(r.sizes[d]) * 1.0, f'coordinate {d}')
    k, c = float(rng.uniform(0.1, 20)) * sc, float(rng.normal()) * sc
    judge(ctx.call(gc.nmse, O * k / sc + c, M * k / sc + c), want, 'nmse in another unit')
    judge(ctx.call(gc.nmse, O, O), np.where(np.isnan(formula(o, o, lat)), np.nan, 0.0), 'nmse of equal fields')
    if not np.isnan(o).any():
        w = np.repeat(cos(lat)[:, None], nx, 1)
        mean = (o * w).sum((-1, -2), keepdims=True) / w.sum() + 0 * o
        judge(ctx.call(gc.nmse, O, build(rng, g, mean, perm)), np.ones(shape), 'nmse of the mean')
    if not g[10]:
        judge(ctx.call(gc.nmse, O.isel({g[6]: slice(None, None, -1)}), M.isel({g[6]: slice(None, None, -1)})), want, 'nmse on the reversed grid')


def invalid(ctx):
    rng = ctx.rng
    ny, nx = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    lat, lon = np.linspace(-60, 60, ny), np.linspace(0, 300, nx)

    def mk(lat=lat, lon=lon, names=('lat', 'lon'), attrs=True):
        return xr.DataArray(rng.standard_normal((lat.size, lon.size)), dims=names, coords={names[0]: lat, names[1]: lon})
    o, m = mk(), mk()
    kind = pick(rng, ['type', 'mixed', 'names', 'uneven_lat', 'uneven_lon', 'unknown', 'size', 'shifted', 'extra'])
    ctx.note(bad=kind)
    if kind == 'type':
        a = [o.values, m.values, o, m, o.values.tolist()]
        ctx.raises(TypeError, gc.nmse, pick(rng, [a[0], a[4]]), pick(rng, [a[1], a[3]]), what=kind)
        ctx.raises(TypeError, gc.nmse, o, m.values, what=kind)
    elif kind == 'mixed':
        ctx.raises(TypeError, gc.nmse, o.to_dataset(name='T'), m, what=kind)
        ctx.raises(TypeError, gc.nmse, o, m.to_dataset(name='T'), what=kind)
    elif kind == 'names':
        ctx.raises(KeyError, gc.nmse, o, mk(names=('latitude', 'longitude')), what=kind)
    elif kind == 'extra':
        ctx.raises(KeyError, gc.nmse, o, m.assign_coords(height=2.0), what=kind)
    elif kind == 'uneven_lat':
        x = lat.copy()
        x[int(rng.integers(1, ny - 1))] += 0.3 * (lat[1] - lat[0])
        ctx.raises(ValueError, gc.nmse, mk(lat=x), mk(lat=x), what=kind)
    elif kind == 'uneven_lon':
        x = lon.copy()
        x[int(rng.integers(1, nx - 1))] += 0.3 * (lon[1] - lon[0])
        ctx.raises(ValueError, gc.nmse, mk(lon=x), mk(lon=x), what=kind)
    elif kind == 'unknown':
        ctx.raises(ValueError, gc.nmse, mk(names=('aa', 'bb')), mk(names=('aa', 'bb')), what=kind)
    elif kind == 'size':
        ctx.raises(ValueError, gc.nmse, o, m.isel(lon=slice(1, None)), what=kind)
    else:
        ctx.raises(ValueError, gc.nmse, o, m.assign_coords(lon=lon + 1.0), what=kind)


WORKLOADS = {'fields': (run, 250, 5000), 'invalid': (invalid, 60, 600)}
