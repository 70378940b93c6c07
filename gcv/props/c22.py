"""C22 zonal_meridional_psi: the pressure integral of the zonal mean meridional wind."""
from types import SimpleNamespace
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..vert import coefficients, interp_column
from .c16 import expect

QUICK = 1
ID = 'C22'
RULE = ('Synthetic global meshes (24-160 faces), 1-3 times, 2-12 pressure levels in either direction or 4-20 hybrid levels, '
        'variables named or labelled in every documented way, uniform and random winds and surface pressures; oracle: layer '
        'thicknesses and sum from the top of the atmosphere downwards, level by level, on the mesh library\'s zonal means.')
ASSUMPTIONS = ["uxarray's zonal_mean is taken as given, except that it preserves uniform fields",
               'the geometric factor uses the cosine of the latitude number as it stands (known finding) or of the latitude in degrees']
A, G = 6378137.0, 9.80665
PLEV = 100. * np.array([1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1])


def prepare():
    """Compile the mesh library once, before the workers are forked."""
    import uxarray as ux
    g = grid(4, 6)
    x = ux.UxDataArray(xr.DataArray(np.ones((1, g.n_face)), dims=['time', 'n_face']), uxgrid=g)
    x.zonal_mean(lat=[10.0])


def grid(nlat, nlon):
    import uxarray as ux
    w = 180.0 / nlat
    return ux.Grid.from_structured(lon=np.arange(nlon) * 360.0 / nlon + 180.0 / nlon, lat=-90 + w / 2 + np.arange(nlat) * w)


def names(rng, hybrid):
    """name, attributes of the wind and the surface pressure."""
    v = pick(rng, [('V', {}), ('vs', {}), ('meridional_wind', {}), ('v', {}), ('xx', {'standard_name': 'northward_wind'}),
                   ('Meridional_Wind', {}), ('yy', {'long_name': 'Meridional wind'})])
    p = pick(rng, [('PS', {}), ('ps', {}), ('p_surface', {}), ('surface_pressure', {}), ('pp', {'standard_name': 'surface_air_pressure'}),
                   ('qq', {'long_name': 'Surface pressure'})])
    return v, p


def psi(vz, pz, plev, lats, geometry):
    """vz (time, lev, lat), pz (time, lat)."""
    nt, nl, ny = vz.shape
    out = np.empty((nt, nl, ny))
    o = np.argsort(plev)
    for t in range(nt):
        for y in range(ny):
            dp = expect(plev, pz[t, y], plev.min())
            s = 0.0
            for k in o:
                x = vz[t, k, y] * dp[k]
                if x == x:
                    s += x
                out[t, k, y] = s
    return out * (2 * np.pi * A / G * geometry(lats))


def case(rng):
    """A random data set with everything needed to judge the result."""
    import uxarray as ux
    g = grid(int(rng.integers(4, 9)), int(rng.integers(6, 21)))
    nf = g.n_face
    nt = int(rng.integers(1, 4))
    hybrid = chance(rng, 0.35)
    uniform = chance(rng, 0.35)
    (vn, va), (pn, pa) = names(rng, hybrid)
    ny = int(rng.integers(1, 6))
    lats = np.sort(rng.uniform(-80, 80, ny))
    kind = pick(rng, ['list', 'array', 'tuple', 'float'])
    if kind == 'float':
        lats = lats[:1]
        lat = float(lats[0])
    elif kind == 'tuple':
        a, st = float(np.round(rng.uniform(-80, 0))), float(pick(rng, [5, 10, 20]))
        n = int(rng.integers(1, 8))
        lats = a + st * np.arange(n + 1)
        lats = lats[lats <= 80]
        lat = (a, float(lats[-1]), st)
    else:
        lat = lats.tolist() if kind == 'list' else lats
    ps = rng.uniform(60000, 104000, (nt, 1)) + np.zeros((nt, nf)) if uniform else rng.uniform(50000, 104000, (nt, nf))
    kw, co = {}, {'time': np.arange(nt) * 6.0}
    if hybrid:
        nl = int(rng.integers(4, 21))
        a, b = coefficients(rng, nl)
        if chance(rng, 0.3):
            a, b = a[::-1].copy(), b[::-1].copy()
        lev = 'lev'
        co[lev] = xr.DataArray(np.arange(nl) * 1.0, dims=[lev], attrs={'positive': 'down', 'standard_name': 'atmosphere_hybrid_sigma_pressure_coordinate'})
        plev = PLEV
    else:
        nl = int(rng.integers(2, 13))
        p = np.sort(rng.uniform(500, 100000, nl))
        if np.diff(p).min() < 10:
            p = np.linspace(1000, 100000, nl)
        p[0] = min(p[0], 30000.0)
        plev = p[::-1].copy() if chance(rng, 0.5) else p
        lev = pick(rng, ['plev', 'plev', 'pressure_lev', 'pressure_levels', 'myp'])
        if lev == 'myp':
            kw['plev_coordname'] = lev
        co[lev] = plev
        # no mean surface pressure may fall on a layer boundary
    V = field(rng, (nt, nl, 1 if uniform else nf), 'normal') * 10 + np.zeros((nt, nl, nf))
    if hybrid:
        V = V.copy()
    data = {pn: (('time', 'n_face'), ps, pa), vn: (('time', lev, 'n_face'), V, va)}
    if chance(rng, 0.5):
        data = dict(reversed(list(data.items())))
    if chance(rng, 0.5):
        data['T'] = (('time', 'n_face'), ps * 0 + 300.0, {'standard_name': 'air_temperature'})
    if hybrid:
        hn = pick(rng, [('hyam', 'hybm', {}, {}), ('hya', 'hyb', {}, {}),
                        ('h1', 'h2', {'long_name': 'hybrid A coefficient at layer midpoints'}, {'long_name': 'hybrid B coefficient at layer midpoints'})])
        data[hn[0]] = ((lev,), a, hn[2])
        data[hn[1]] = ((lev,), b, hn[3])
        if chance(rng, 0.4):       # another variable lives on pressure levels
            other = pick(rng, ['plev', 'pressure_lev'])
            co[other] = np.array([20000., 50000., 85000.])
            data['Z3'] = (('time', other, 'n_face'), rng.standard_normal((nt, 3, nf)))
    if chance(rng, 0.2):
        kw.update(meridional_wind_varname=vn, surface_air_pressure_varname=pn)
    ds = ux.UxDataset(xr.Dataset(data, coords=co), uxgrid=g)
    fn = gc.zonal_mpsi if chance(rng, 0.2) else gc.zonal_meridional_psi
    return SimpleNamespace(**locals())


def run(ctx):
    import uxarray as ux
    c = case(ctx.rng)
    rng, fn, ds, lat, lats, kw, V, ps, plev, hybrid, uniform = ctx.rng, c.fn, c.ds, c.lat, c.lats, c.kw, c.V, c.ps, c.plev, c.hybrid, c.uniform
    g, nt, nf, vn, va, co = c.g, c.nt, c.nf, c.vn, c.va, c.co
    ctx.note(hybrid=c.hybrid, uniform=c.uniform, wind=c.vn, surface=c.pn, level=c.lev, latitudes=c.kind, order='desc' if c.plev[0] > c.plev[-1] else 'asc',
             function=c.fn.__name__)
    o = ctx.call(fn, ds, lat=lat, **kw)
    # oracle
    vp = V
    if hybrid:
        vp = np.full((nt, plev.size, nf), np.nan)
        for t in range(nt):
            if uniform:
                vp[t] = interp_column(plev, c.a * 1e5 + c.b * ps[t, 0], V[t, :, 0])[:, None]
            else:
                for f in range(nf):
                    vp[t, :, f] = interp_column(plev, c.a * 1e5 + c.b * ps[t, f], V[t, :, f])
    if uniform:
        vz = np.repeat(vp[:, :, :1], lats.size, axis=2)
        pz = np.repeat(ps[:, :1], lats.size, axis=1)
    else:
        vz = ux.UxDataArray(xr.DataArray(vp, dims=['time', 'plev', 'n_face']), uxgrid=g).zonal_mean(lat=lat).values
        pz = ux.UxDataArray(xr.DataArray(ps, dims=['time', 'n_face']), uxgrid=g).zonal_mean(lat=lat).values
    ctx.ok({'time', 'latitudes', 'plev'} == set(o.dims), f'dims {o.dims}')
    ctx.close(o['latitudes'], lats, 'latitudes')
    ctx.close(o['plev'], plev, 'levels')
    ctx.close(o['time'], co['time'], 'times')
    got = o.transpose('time', 'plev', 'latitudes').values
    sc = 2 * np.pi * A / G * 1e5 * 10
    right = psi(vz, pz, plev, lats, lambda x: np.cos(np.deg2rad(x)))
    pinned = psi(vz, pz, plev, lats, np.cos)
    if np.allclose(got, pinned, rtol=1e-8, atol=1e-9 * sc) and not np.allclose(got, right, rtol=1e-6, atol=1e-9 * sc):
        ctx.compared += got.size
        ctx.finite += got.size
        ctx.finding('cosine-of-degrees', f'the factor cos(latitude) is evaluated as np.cos of {lats[0]:.4g} degrees')
        base = np.cos(lats) / np.cos(np.deg2rad(lats))
    else:
        ctx.close(got, right, 'streamfunction', rtol=1e-8, atol=1e-9 * sc)
        base = 1.0
    ctx.equal(o.attrs.get('units'), 'kg/s', 'units')
    # linear in the wind, and additive over layers
    k = float(rng.uniform(-3, 3))
    ds2 = ds.copy()
    ds2[vn] = ds[vn] * k
    if not kw.get('meridional_wind_varname'):
        ds2[vn].attrs.update(va)
    o2 = ctx.call(gc.zonal_meridional_psi, ds2, lat=lat, **kw).transpose('time', 'plev', 'latitudes').values
    ctx.close(o2, got * k, 'streamfunction of a multiple of the wind', rtol=1e-8, atol=1e-9 * sc)


def invalid(ctx):
    import uxarray as ux
    rng = ctx.rng
    g = grid(4, 8)
    ps = rng.uniform(60000, 104000, (2, g.n_face))
    plev = np.array([10000., 50000., 90000.])
    V = rng.standard_normal((2, 3, g.n_face))
    kind = pick(rng, ['nan', 'negative', 'nolevel', 'nowind', 'nosurface'])
    d = {'V': (('time', 'plev', 'n_face'), V), 'PS': (('time', 'n_face'), ps)}
    exc = ValueError
    if kind == 'nan':
        ps[int(rng.integers(2))] = np.nan
    elif kind == 'negative':
        ps.flat[int(rng.integers(ps.size))] = -float(rng.uniform(0, 10))
    elif kind == 'nolevel':
        d['V'] = (('time', 'n_face'), V[:, 0])
        exc = AttributeError
    elif kind == 'nowind':
        d['W'] = d.pop('V')
        exc = KeyError
    else:
        d['Q'] = d.pop('PS')
        exc = KeyError
    ds = ux.UxDataset(xr.Dataset(d, coords={'plev': plev}), uxgrid=g)
    ctx.note(bad=kind)
    ctx.raises(exc, gc.zonal_meridional_psi, ds, lat=[10.0, 20.0], what=kind)


WORKLOADS = {'streamfunction': (run, 160, 3000), 'invalid': (invalid, 30, 200)}
