"""C11 interp_hybrid_to_pressure inside the model's pressure range."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance, field
from ..vert import coefficients, surface, interp_column
from ..core import tonp

ID = 'C11'
RULE = ('Random columns: 2-40 hybrid levels (either direction, both formulations of the coefficients), 0-3 other dimensions in '
        'any order with the level on any axis, surface pressures 480-1045 hPa varying per column, 1-25 target levels in any '
        'order inside and outside the column, linear and logarithmic; the oracle interpolates each column by itself.')
ASSUMPTIONS = ['level pressures are strictly monotonic in every column; targets do not fall within 1e-9 of the end levels']


def make(rng, nan=False, nlev=None):
    nlev = nlev or int(rng.integers(2, 41))
    a, b = coefficients(rng, nlev)
    if chance(rng, 0.4):
        a, b = a[::-1].copy(), b[::-1].copy()
    extra = [(), ('time',), ('lat', 'lon'), ('time', 'lat', 'lon'), ('time', 'ncol')][int(rng.integers(5))]
    dims = list(extra)
    levname = pick(rng, ['lev', 'lev', 'level', 'hybrid'])
    dims.insert(int(rng.integers(len(dims) + 1)) if chance(rng, 0.6) else min(1, len(dims)), levname)
    size = {d: int(rng.integers(1, 5)) for d in extra}
    size[levname] = nlev
    p0 = float(pick(rng, [100000.0, 100000.0, 101325.0]))
    ps = surface(rng, tuple(size[d] for d in extra))
    data = field(rng, tuple(size[d] for d in dims), pick(rng, ['normal', 'temp', 'trend', 'const+']))
    if nan:
        data[rng.random(data.shape) < 0.1] = np.nan
    co = {levname: np.arange(nlev) * 10.0 + 5}
    for d in extra:
        if chance(rng, 0.7):
            v = np.linspace(-50, 50, size[d]) if size[d] > 1 else np.array([3.0])
            co[d] = v[::-1].copy() if chance(rng, 0.3) else v
    da = xr.DataArray(data, dims=dims, coords=co, name='T', attrs={'units': 'K', 'long_name': 'Temperature'})
    psda = xr.DataArray(ps, dims=extra, coords={k: v for k, v in co.items() if k in extra})
    if len(extra) > 1 and chance(rng, 0.3):
        psda = psda.transpose(*extra[::-1])
    form2 = chance(rng, 0.25)
    A = a * p0 if form2 else a
    hya, hyb = xr.DataArray(A, dims=[levname]), xr.DataArray(b, dims=[levname])
    if chance(rng, 0.3):
        hya, hyb = hya.assign_coords({levname: co[levname]}), hyb.assign_coords({levname: co[levname]})
    kw = {'p0': 1.0 if form2 else p0}
    if not form2 and p0 == 100000.0 and chance(rng, 0.6):
        kw = {}
    press = a.reshape((-1,) + (1,) * ps.ndim) * p0 + b.reshape((-1,) + (1,) * ps.ndim) * ps   # level first
    return dict(da=da, ps=psda, hya=hya, hyb=hyb, kw=kw, press=press, dims=dims, extra=extra, lev=levname, size=size, nlev=nlev,
                psv=ps, form2=form2)


def targets(rng, press, below=False):
    lo, hi = press.min(), press.max()
    n = int(rng.integers(1, 26))
    pl = rng.uniform(max(lo * 0.5, 1.0), hi * (1.15 if below else 1.05), n)
    if chance(rng, 0.3):
        pl = np.concatenate([pl, [1000e2, 850e2, 500e2, 250e2]])
    if press.ndim > 1 and chance(rng, 0.4):
        c = press.reshape(press.shape[0], -1)[:, int(rng.integers(press[0].size))]
        if press.shape[0] > 2:
            pl = np.concatenate([pl, c[1:-1][:3]])       # exactly on interior model levels
    order = pick(rng, ['asc', 'desc', 'random'])
    pl = np.sort(pl)
    pl = pl[::-1].copy() if order == 'desc' else rng.permutation(pl) if order == 'random' else pl
    ends = np.concatenate([press.min(0).ravel(), press.max(0).ravel()])
    bad = np.array([np.any(np.abs(v - ends) < 1e-9 * v) for v in pl])
    pl = pl[~bad]
    return (pl if pl.size else np.array([0.5 * (lo + hi)])), order


def columns(m):
    """data with level first, the other dims in the order of extra"""
    return m['da'].transpose(m['lev'], *m['extra']).values


def expected(m, pl, log):
    d = columns(m)
    out = np.full((len(pl),) + d.shape[1:], np.nan)
    for idx in np.ndindex(*d.shape[1:]):
        out[(slice(None),) + idx] = interp_column(pl, m['press'][(slice(None),) + idx], d[(slice(None),) + idx], log)
    return out


def run(ctx, nan=False):
    rng = ctx.rng
    m = make(rng, nan)
    pl, order = targets(rng, m['press'])
    if nan:
        near = np.abs(pl[:, None] / m['press'].reshape(1, -1) - 1).min(1) < 1e-9
        pl = pl[~near]
        if not pl.size:
            pl = np.array([0.4321 * m['press'].min() + 0.5679 * m['press'].max()])
    method = pick(rng, ['linear', 'log'])
    kw = dict(m['kw'])
    if method == 'log' or chance(rng, 0.5):
        kw['method'] = method
    if chance(rng, 0.3):          # without extrapolate=True the companions of extrapolation have no effect
        kw['variable'] = pick(rng, ['temperature', 'geopotential', 'other', None])
        if chance(rng, 0.3):
            kw['extrapolate'] = False
        if kw['variable'] in ('temperature', 'geopotential') or chance(rng, 0.3):
            kw.update(t_bot=m['ps'] * 0 + 280.0, phi_sfc=m['ps'] * 0 + 900.0)
    infer = chance(rng, 0.3)
    da = m['da']
    if infer:
        da = da.copy()
        da[m['lev']].attrs.update(pick(rng, [{'positive': 'down'}, {'positive': 'down', 'axis': 'Z'}] + [{}] * (m['lev'] == 'lev')))
        if m['lev'] == 'lev' and not da['lev'].attrs and chance(rng, 0.5):
            da = da.drop_vars('lev')
    else:
        kw['lev_dim'] = m['lev']
    ctx.note(method=method, rank=da.ndim, lev_axis=m['dims'].index(m['lev']), targets=order, infer=infer, nan=nan, form2=m['form2'],
             direction='down' if m['press'].reshape(m['nlev'], -1)[0, 0] < m['press'].reshape(m['nlev'], -1)[-1, 0] else 'up')
    out = ctx.call(gc.interp_hybrid_to_pressure, da, m['ps'], m['hya'], m['hyb'], new_levels=pl, **kw)
    want = expected(m, pl, method == 'log')
    wd = tuple('plev' if d == m['lev'] else d for d in m['dims'])
    ctx.equal(out.dims, wd, 'dims')
    ctx.close(out['plev'], pl, 'plev coordinate', rtol=0)
    sc = np.nanmax(np.abs(da.values))
    ctx.close(out.transpose('plev', *m['extra']), want, f'{method} interpolation', rtol=1e-8, scale=sc)
    for d in m['extra']:
        if d in da.coords:
            ctx.ok(d in out.coords and np.array_equal(out[d].values, da[d].values), f'coordinate {d}')
    ctx.equal(dict(out.attrs), dict(da.attrs), 'attributes')
    ctx.equal(out.name, da.name, 'name')
    # bounded by the column
    if not nan:
        d = columns(m)
        o = tonp(out.transpose('plev', *m['extra']))
        eps = 1e-9 * sc
        ctx.ok(np.all(~(o > d.max(0) + eps)) and np.all(~(o < d.min(0) - eps)), 'interpolated value outside the range of its column')


def exact(ctx):
    """A profile linear in p (or ln p) is reproduced."""
    rng = ctx.rng
    m = make(rng)
    pl, order = targets(rng, m['press'])
    method = pick(rng, ['linear', 'log'])
    f = (lambda p: 3 - 2e-5 * p) if method == 'linear' else (lambda p: 250 + 10 * np.log(p / 1e5))
    vals = xr.DataArray(f(m['press']), dims=[m['lev'], *m['extra']]).transpose(*m['dims'])
    da = m['da'].copy(data=vals.values)
    ctx.note(method=method, rank=da.ndim, profile=True)
    kw = dict(m['kw'], method=method, lev_dim=m['lev'])
    out = ctx.call(gc.interp_hybrid_to_pressure, da, m['ps'], m['hya'], m['hyb'], new_levels=pl, **kw)
    lo, hi = m['press'].min(0), m['press'].max(0)
    P = pl.reshape((-1,) + (1,) * lo.ndim)
    want = np.where((P >= lo) & (P <= hi), f(P) + 0 * lo, np.nan)
    ctx.close(out.transpose('plev', *m['extra']), want, f'profile {method} in pressure', rtol=1e-8, scale=300)


def default_levels(ctx):
    """Without new_levels the 21 mandatory levels are used."""
    rng = ctx.rng
    m = make(rng)
    out = ctx.call(gc.interp_hybrid_to_pressure, m['da'], m['ps'], m['hya'], m['hyb'], lev_dim=m['lev'], **m['kw'])
    mand = np.array([1000, 925, 850, 700, 500, 400, 300, 250, 200, 150, 100, 70, 50, 30, 20, 10, 7, 5, 3, 2, 1]) * 100.0
    ctx.close(out['plev'], mand, 'mandatory levels', rtol=1e-6)
    want = expected(m, mand, False)
    ctx.note(default=True)
    ctx.close(out.transpose('plev', *m['extra']), want, 'mandatory levels', rtol=1e-6, scale=np.abs(m['da'].values).max())


WORKLOADS = {'columns': (run, 250, 6000), 'missing': (lambda c: run(c, True), 80, 2000), 'profile': (exact, 100, 2000),
             'default': (default_levels, 40, 400)}
