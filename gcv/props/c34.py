"""C34 legacy names: the NCL names and the retired names keep meaning what they say."""
import inspect, warnings
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import same, parts, npv
from .c22 import grid, prepare  # noqa: F401  (the mesh library is compiled once, before the workers are forked)
from ..vert import coefficients

QUICK = 1
ID = 'C34'
RULE = ('The same random call under the legacy and the current name (positional or keyword arguments, every default left out or given), '
        'compared exactly with all warnings recorded; every retired name called with arbitrary arguments; every public name looked up.')
RETIRED = ['grid_to_triple', 'linint1', 'linint2', 'linint2pts', 'moc_globe_atl', 'rcm2points', 'rcm2rgrid', 'rgrid2rcm', 'triple_to_grid']
PUBLIC = ['climatology_average', 'calendar_average', 'climate_anomaly', 'month_to_season', 'fourier_filter', 'fourier_low_pass', 'fourier_high_pass',
          'fourier_band_pass', 'fourier_band_block', 'gradient', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim',
          'pressure_at_hybrid_levels', 'delta_pressure_hybrid', 'dewtemp', 'heat_index', 'relhum', 'relhum_ice', 'relhum_water',
          'actual_saturation_vapor_pressure', 'max_daylight', 'psychrometric_constant', 'saturation_vapor_pressure',
          'saturation_vapor_pressure_slope', 'delta_pressure', 'dpres_plev', 'zonal_meridional_psi', 'zonal_mpsi', 'decomposition',
          'recomposition', 'scale_voronoi', 'eofunc', 'eofunc_eofs', 'eofunc_pcs', 'eofunc_ts', 'pearson_r', 'nmse']


def recorded(ctx, fn, *args, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = ctx.call(fn, *args, **kw)
    return r, w


def dpres(ctx):
    rng = ctx.rng
    c = CATALOG[pick(rng, ['delta_pressure.x', 'delta_pressure.n'])](rng)
    p, ps = c.args
    top = c.kw.get('pressure_top')
    if chance(rng, 0.3):
        top = pick(rng, [0, 0.0, float(npv(p).min()), 1, np.float32(50)])
    if chance(rng, 0.3):
        k = float(npv(ps).ravel()[0])
        ps = pick(rng, [k, int(k)])
    form = pick(rng, ['positional', 'keyword', 'mixed'])
    ctx.note(form=form, top=top is not None, container=type(p).__name__, surface=type(ps).__name__)
    want = ctx.call(gc.delta_pressure, p, ps, pressure_top=top)
    if form == 'positional':
        got = ctx.call(gc.dpres_plev, p, ps, *([] if top is None else [top]))
    elif form == 'keyword':
        got = ctx.call(gc.dpres_plev, pressure_lev=p, surface_pressure=ps, **({} if top is None else {'pressure_top': top}))
    else:
        got = ctx.call(gc.dpres_plev, p, surface_pressure=ps, pressure_top=top)
    ctx.ok(type(got) is type(want), f'dpres_plev returns {type(got).__name__}, delta_pressure {type(want).__name__}')
    same(ctx, got, want, 'dpres_plev against delta_pressure', exact=True)


def eof_data(rng):
    nd = int(rng.integers(2, 5))
    shape = [int(v) for v in rng.integers(2, 5, nd)]
    t = int(rng.integers(-nd, nd)) if chance(rng, 0.6) else None
    shape[-1 if t is None else t] = int(rng.integers(6, 15))
    v = rng.standard_normal(shape) * np.linspace(1, 4, shape[0]).reshape((-1,) + (1,) * (nd - 1)) + rng.uniform(-5, 5)
    return v, t


def wrap(rng, v):
    k = pick(rng, ['numpy', 'list', 'data array'])
    if k == 'numpy':
        return v, k
    if k == 'list':
        return v.tolist(), k
    return xr.DataArray(v, dims=[f'q{i}' for i in range(v.ndim)], attrs={'units': 'K'}), k


def aligned(got, want, n):
    """Undo the arbitrary sign of each mode (each mode's computation is repeatable, but not promised bit by bit)."""
    for i in range(n):
        if np.nansum(got[i] * want[i]) < 0:
            got[i] = -got[i]
    return got


def eof(ctx, which):
    rng = ctx.rng
    v, t = eof_data(rng)
    n = int(rng.integers(1, 3))
    data, cont = wrap(rng, v)
    axis = v.ndim - 1 if t is None else t
    kw = {} if t is None else {'time_dim': t}
    for k, x in (('jopt', 'covariance'), ('meta', chance(rng, 0.7)), ('pcrit', 80)):
        if chance(rng, 0.2):
            kw[k] = x
    ctx.note(container=cont, time_dim='default' if t is None else 'given', function=which)
    if which == 'eofunc':
        want = npv(ctx.call(gc.eofunc_eofs, v, neofs=n, time_dim=axis))
        got, w = recorded(ctx, gc.eofunc, data, n, **kw)
        ctx.ok(isinstance(got, xr.DataArray), f'eofunc returned {type(got).__name__}')
        ref = ctx.call(gc.eofunc_eofs, v, neofs=n, time_dim=axis, meta=bool(kw.get('meta')))
        ctx.equal(got.dims, ref.dims, 'eofunc: dims')
        ctx.equal(set(got.coords), set(ref.coords), 'eofunc: coordinates')
        for k in ref.attrs:
            ctx.ok(k in got.attrs, f'eofunc: attribute {k} lost')
            ctx.close(np.asarray(got.attrs[k]), np.asarray(ref.attrs[k]), f'eofunc attribute {k}', rtol=1e-9)
    else:
        want = npv(ctx.call(gc.eofunc_pcs, v, npcs=n, time_dim=axis))
        evec = rng.standard_normal((n,) + tuple(int(q) for q in rng.integers(1, 4, 2)))
        got, w = recorded(ctx, gc.eofunc_ts, data, pick(rng, [evec, xr.DataArray(evec)]), **kw)
        ctx.ok(isinstance(got, xr.DataArray), f'eofunc_ts returned {type(got).__name__}')
        ctx.ok(got.dims == ('pc', 'time'), f'eofunc_ts: dims {got.dims}')
    g = npv(got).copy()
    ctx.ok(g.shape == want.shape, f'{which}: shape {g.shape}, expected {want.shape}')
    ctx.close(aligned(g, want, n), want, f'{which}', rtol=1e-8, scale=np.nanmax(np.abs(want)))
    ctx.ok(any(issubclass(x.category, PendingDeprecationWarning) for x in w), f'{which}: no PendingDeprecationWarning')
    ctx.ok(any(('eofunc_eofs' if which == 'eofunc' else 'eofunc_pcs') in str(x.message) for x in w), f'{which}: the warning does not name the replacement')


def retired(ctx):
    rng = ctx.rng
    name = pick(rng, RETIRED)
    fn = getattr(gc, name)
    args = [pick(rng, [1.0, None, np.arange(3.0), xr.DataArray(np.ones((2, 2))), 'x', [1, 2]]) for _ in range(int(rng.integers(0, 5)))]
    kw = {k: 1 for k in ('msg', 'meta', 'icycx')[:int(rng.integers(0, 4))]}
    ctx.note(function=name, args=len(args), kwargs=len(kw))
    before = [a.copy() if hasattr(a, 'copy') else a for a in args]
    r, w = recorded(ctx, fn, *args, **kw)
    ctx.ok(r is None, f'{name} returned {r!r}')
    ctx.ok(len(w) > 0, f'{name}: no warning')
    ctx.ok(any(f'geocat.f2py.{name}`' in str(x.message) for x in w), f'{name}: the warning {[str(x.message) for x in w]} does not name geocat.f2py.{name}')
    for a, b in zip(args, before):
        ctx.ok(np.array_equal(a, b) if isinstance(a, np.ndarray) else (a.identical(b) if hasattr(a, 'identical') else a == b), f'{name} changed its argument')


def names(ctx):
    for n in PUBLIC + RETIRED:
        f = getattr(gc, n, None)
        ctx.ok(callable(f), f'geocat.comp.{n} is missing')
        ctx.called = True
        ctx.events['name ' + n] = 1
    for legacy, base in ((gc.dpres_plev, gc.delta_pressure), (gc.zonal_mpsi, gc.zonal_meridional_psi)):
        ctx.ok(base.__doc__ and base.__doc__.strip()[:200] in (legacy.__doc__ or ''), f'{legacy.__name__} does not document {base.__name__}')
        ctx.ok(base.__name__ in legacy.__doc__, f'{legacy.__name__} does not name {base.__name__}')
        a, b = inspect.signature(legacy), inspect.signature(base)
        ctx.ok(list(a.parameters) == list(b.parameters), f'{legacy.__name__}{a} and {base.__name__}{b} take different arguments')
        for k in b.parameters:
            ctx.ok(a.parameters[k].default == b.parameters[k].default, f'{legacy.__name__}: default of {k}')
    ctx._feed('names')


def zonal(ctx):
    """zonal_mpsi passes every argument on: each keyword names a variable that automatic lookup would not choose."""
    import uxarray as ux
    rng = ctx.rng
    g = grid(int(rng.integers(4, 7)), int(rng.integers(6, 12)))
    nf, nt = g.n_face, int(rng.integers(1, 3))
    hybrid = chance(rng, 0.5)
    nl = int(rng.integers(4, 8))
    plev = np.sort(rng.uniform(5, 1000, nl)) * 100
    lev = 'lev' if hybrid else pick(rng, ['plev', 'myp'])
    co = {'time': np.arange(nt) * 1.0, lev: np.arange(nl) * 1.0 if hybrid else plev}
    if hybrid:
        co[lev] = xr.DataArray(co[lev], dims=[lev], attrs={'positive': 'down', 'standard_name': 'atmosphere_hybrid_sigma_pressure_coordinate'})
    field3 = lambda: (('time', lev, 'n_face'), rng.standard_normal((nt, nl, nf)) * 10)
    field2 = lambda: (('time', 'n_face'), rng.uniform(60000, 104000, (nt, nf)))
    data = {'V': field3(), 'other_wind': field3(), 'PS': field2(), 'other_ps': field2()}
    kw = {}
    if chance(rng, 0.6):
        kw['meridional_wind_varname'] = 'other_wind'
    if chance(rng, 0.6):
        kw['surface_air_pressure_varname'] = 'other_ps'
    if hybrid:
        for x in ('', 'other_'):
            a, b = coefficients(rng, nl)
            data[x + 'hyam'], data[x + 'hybm'] = ((lev,), a), ((lev,), b)
        if chance(rng, 0.6):
            kw['hyam_coordname'] = 'other_hyam'
        if chance(rng, 0.6):
            kw['hybm_coordname'] = 'other_hybm'
    elif lev == 'myp':
        kw['plev_coordname'] = lev
    lat = pick(rng, [(-60, 60, 20), [10.0, 35.0], 22.5, None])
    if lat is not None:
        kw['lat'] = lat
    ds = ux.UxDataset(xr.Dataset(data, coords=co), uxgrid=g)
    ctx.note(hybrid=hybrid, keywords=','.join(sorted(kw)))
    want = ctx.call(gc.zonal_meridional_psi, ds, **kw)
    order = ['lat', 'meridional_wind_varname', 'surface_air_pressure_varname', 'plev_coordname', 'hyam_coordname', 'hybm_coordname']
    if chance(rng, 0.4):
        got = ctx.call(gc.zonal_mpsi, ds, *[kw.get(k, (-90, 90, 10) if k == 'lat' else None) for k in order])
    else:
        got = ctx.call(gc.zonal_mpsi, ds, **kw)
    same(ctx, got, want, 'zonal_mpsi against zonal_meridional_psi', rtol=1e-12)


WORKLOADS = {'zonal_mpsi': (zonal, 60, 600), 'dpres_plev': (dpres, 200, 4000), 'eofunc': (lambda c: eof(c, 'eofunc'), 150, 3000), 'eofunc_ts': (lambda c: eof(c, 'eofunc_ts'), 150, 3000),
             'retired': (retired, 200, 2000), 'names': (names, 1, 1)}
