"""C36 quantities with units through the vertical interpolations."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..vert import coefficients, surface, interp_column

ID = 'C36'
RULE = ('Random columns (2-20 hybrid or sigma levels, 0-3 other dimensions, level on any axis) whose data and pressures are plain or carry units '
        'of a registry of the caller, pressures in Pa, hPa, kPa, mbar or atm independently of each other; oracle: column by column interpolation of '
        'the plain numbers in Pascal, the unit of the data on the result, and the same call without units.')
ASSUMPTIONS = ['target levels are at least 1e-9 of their value away from the ends of each column', 'no extrapolation below the ground, and quantities in memory']
DATA = ['meter / second', 'kelvin', 'gram / kilogram', 'dimensionless', 'pascal', 'joule / kilogram']
PRES = {'pascal': 1.0, 'hectopascal': 100.0, 'kilopascal': 1000.0, 'millibar': 100.0, 'atmosphere': 101325.0}
REG = []


def registry(rng):
    import pint
    if not REG:
        import metpy.units
        REG.extend([pint.UnitRegistry(), metpy.units.units])
    return pick(rng, REG)


def columns(rng, lev):
    extra = [(), ('lat',), ('time', 'lon'), ('time', 'lat', 'lon')][int(rng.integers(4))]
    dims = list(extra)
    dims.insert(int(rng.integers(len(dims) + 1)), lev)
    return extra, dims, {d: int(rng.integers(1, 5)) for d in extra}


def split(q, ctx, unit, u, what):
    """The plain numbers of a result that must carry the unit given (or none)."""
    d = q.data
    if unit is None:
        ctx.ok(isinstance(d, np.ndarray), f'{what}: {type(d).__name__} where no argument carries a unit of data')
        return d
    ctx.ok(hasattr(d, 'magnitude'), f'{what}: the unit {unit} was lost')
    ctx.ok(d.units == u.Unit(unit), f'{what}: unit {d.units}, expected {unit}')
    return np.asarray(d.magnitude)


def hybrid(ctx):
    rng = ctx.rng
    u = registry(rng)
    n = int(rng.integers(2, 21))
    a, b = coefficients(rng, n)
    if chance(rng, 0.3):
        a, b = a[::-1].copy(), b[::-1].copy()
    extra, dims, size = columns(rng, 'lev')
    ps = surface(rng, tuple(size.values()))
    co = {d: np.arange(k) * 1.0 for d, k in size.items() if chance(rng, 0.7)}
    size = {**size, 'lev': n}
    v = field(rng, tuple(size[d] for d in dims))
    data = xr.DataArray(v, dims=dims, coords={**co, 'lev': np.arange(n) * 1.0}, name='x', attrs={'long_name': 'something'})
    psd = xr.DataArray(ps, dims=list(extra), coords=co)
    A, B = xr.DataArray(a, dims=['lev']), xr.DataArray(b, dims=['lev'])
    p0 = float(pick(rng, [100000.0, 101325.0]))
    levels = rng.uniform(2000, 100000, int(rng.integers(1, 8)))
    method = pick(rng, ['linear', 'log'])
    du = pick(rng, [None, *DATA])
    pu = chance(rng, 0.8) or du is None
    units = [pick(rng, list(PRES)) for _ in range(3)] if pu else None
    ctx.note(data=str(du), pressures='/'.join(units) if pu else 'plain', method=method, rank=len(dims), function='interp_hybrid_to_pressure')
    args = [data, psd, A, B]
    kw = {'p0': p0, 'new_levels': levels, 'method': method}
    if du:
        args[0] = data.copy(data=u.Quantity(v.copy(), du))
    if pu:
        args[1] = psd.copy(data=u.Quantity(ps / PRES[units[0]], units[0]))
        kw['p0'] = u.Quantity(p0 / PRES[units[1]], units[1])
        kw['new_levels'] = u.Quantity(levels / PRES[units[2]], units[2])
    if chance(rng, 0.5):
        kw['lev_dim'] = 'lev'
    else:
        args[0] = args[0].assign_coords(lev=('lev', np.arange(n) * 1.0, {'axis': 'Z', 'positive': 'down'}))
        data = data.assign_coords(lev=args[0].lev)
    o = ctx.call(gc.interp_hybrid_to_pressure, *args, **kw)
    got = split(o, ctx, du, u, 'interpolated field')
    ctx.equal(o.dims, tuple('plev' if d == 'lev' else d for d in dims), 'dims')
    ctx.close(np.asarray(o.plev.values, float), levels / (PRES[units[2]] if pu else 1), 'levels', rtol=1e-12)
    w = np.moveaxis(v, dims.index('lev'), 0).reshape(n, -1)
    want = np.empty((levels.size, w.shape[1]))
    for j, s in enumerate(ps.ravel() if ps.ndim else [float(ps)]):
        p = a * p0 + b * s
        if (np.abs(levels[:, None] - [p.min(), p.max()]) < 1e-9 * levels[:, None]).any():
            from ..core import Reject
            raise Reject()
        want[:, j] = interp_column(levels, p, w[:, j], method == 'log')
    want = np.moveaxis(want.reshape((levels.size,) + tuple(size[d] for d in extra)), 0, dims.index('lev'))
    ctx.close(got, want, 'interpolated magnitudes', rtol=1e-7, scale=np.abs(v).max() * 1e-2)
    plain = ctx.call(gc.interp_hybrid_to_pressure, data, psd, A, B, p0=p0, new_levels=levels, method=method, **{k: x for k, x in kw.items() if k == 'lev_dim'})
    ctx.close(got, plain, 'magnitudes with and without units', rtol=1e-7, scale=np.abs(v).max() * 1e-2)
    ctx.ok(type(plain.data) is np.ndarray, 'plain numbers in, something else out')


def pressures(ctx):
    rng = ctx.rng
    u = registry(rng)
    n = int(rng.integers(1, 20))
    a, b = rng.uniform(0, 0.3, n), rng.uniform(0, 1, n)
    extra, _, size = columns(rng, 'lev')
    ps = surface(rng, tuple(size.values()))
    psd = xr.DataArray(ps, dims=list(extra))
    p0 = float(rng.uniform(90000, 110000))
    x, y = pick(rng, list(PRES)), pick(rng, list(PRES))
    ctx.note(pressures=f'{x}/{y}', function='pressure_at_hybrid_levels', rank=ps.ndim)
    o = ctx.call(gc.pressure_at_hybrid_levels, psd.copy(data=u.Quantity(ps / PRES[x], x)), xr.DataArray(a, dims=['lev']),
                 xr.DataArray(b, dims=['lev']), u.Quantity(p0 / PRES[y], y))
    ctx.ok(hasattr(o.data, 'to'), 'pressure_at_hybrid_levels: the unit was lost')
    want = (a * p0).reshape((-1,) + (1,) * ps.ndim) + b.reshape((-1,) + (1,) * ps.ndim) * ps
    ctx.close(np.asarray(o.transpose('lev', *extra).data.to('pascal').magnitude), want, 'pressures', rtol=1e-10)


def sigma(ctx):
    rng = ctx.rng
    u = registry(rng)
    ns, nh = int(rng.integers(2, 15)), int(rng.integers(1, 15))
    sig = np.linspace(0.01, 0.99, ns) + rng.uniform(-0.3, 0.3, ns) / ns * 0.5
    a, b = coefficients(rng, nh)
    extra, dims, size = columns(rng, 'lev')
    ps = surface(rng, tuple(size.values()))
    size = {**size, 'lev': ns}
    v = field(rng, tuple(size[d] for d in dims))
    du = pick(rng, DATA)
    x, y = pick(rng, list(PRES)), pick(rng, list(PRES))
    p0 = float(pick(rng, [100000.0, 101325.0]))
    method = pick(rng, ['linear', 'log'])
    ctx.note(data=du, pressures=f'{x}/{y}', method=method, rank=len(dims), function='interp_sigma_to_hybrid')
    data = xr.DataArray(v, dims=dims, coords={'lev': sig})
    S, A, B = (xr.DataArray(q, dims=[d]) for q, d in ((sig, 'lev'), (a, 'hlev'), (b, 'hlev')))
    want = ctx.call(gc.interp_sigma_to_hybrid, data, S, xr.DataArray(ps, dims=list(extra)), A, B, p0=p0, lev_dim='lev', method=method)
    sg = a.reshape((-1,) + (1,) * ps.ndim) * p0 / ps + b.reshape((-1,) + (1,) * ps.ndim)
    if min(np.abs(sg - sig.min()).min(), np.abs(sg - sig.max()).min()) < 1e-9:
        from ..core import Reject
        raise Reject()
    o = ctx.call(gc.interp_sigma_to_hybrid, data.copy(data=u.Quantity(v.copy(), du)), S,
                 xr.DataArray(u.Quantity(ps / PRES[x], x), dims=list(extra)), A, B, p0=u.Quantity(p0 / PRES[y], y), lev_dim='lev', method=method)
    ctx.equal(o.dims, want.dims, 'dims')
    got = split(o, ctx, du, u, 'interpolated field')
    ctx.close(got, want, 'magnitudes with and without units', rtol=1e-7, scale=np.abs(v).max() * 1e-2)


WORKLOADS = {'hybrid': (hybrid, 120, 3000), 'pressures': (pressures, 60, 1500), 'sigma': (sigma, 60, 1500)}
