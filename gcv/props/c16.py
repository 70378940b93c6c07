"""C16 delta_pressure: layer thicknesses that tile the column from the top to the ground."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp

ID = 'C16'
RULE = ('Random pressure levels (2-40, either direction, integer or real, with lists) and surface pressures of rank 0-3, above, inside and '
        'below the range of the levels, with and without an explicit top; oracle: layer bounds at mid points, clipped at the '
        'ground, level by level.')
ASSUMPTIONS = ['surface pressures do not coincide with a mid point of two levels']


def expect(lev, ps, top):
    o = np.argsort(lev)
    p = np.asarray(lev, float)[o]
    up = np.concatenate([[top], (p[1:] + p[:-1]) / 2])
    dn = np.concatenate([(p[1:] + p[:-1]) / 2, [np.inf]])
    th = np.minimum(dn, ps) - up
    th[1:][up[1:] >= ps] = np.nan
    out = np.empty_like(th)
    out[o] = th
    return out


def run(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 41))
    hi = pick(rng, [1000.0, 100000.0])
    p = np.sort(rng.uniform(0.001, 1.0, n)) * hi
    if np.diff(p).min() < 1e-6 * hi:
        p = np.linspace(0.01, 1, n) * hi
    if chance(rng, 0.2):
        p = np.round(p / hi * 5000) + 1
        p = np.unique(p)
        hi = 5000.0
        if p.size < 2:
            p = np.array([100.0, 200.0])
    n = p.size
    top = None
    if chance(rng, 0.4):
        top = float(p[0] * rng.uniform(0, 1)) if chance(rng, 0.8) else 0.0
    t0 = p[0] if top is None else top
    desc = chance(rng, 0.5)
    rank = int(rng.integers(0, 4))
    shape = tuple(int(v) for v in rng.integers(1, 5, rank))
    kind = pick(rng, ['low', 'mid', 'mid', 'top', 'all'])
    lo_, hi_ = {'low': (p[-1], p[-1] * 1.1), 'mid': (t0 + 1e-3 * (p[-1] - t0), p[-1] * 1.02), 'top': (t0, p[1]), 'all': (t0, p[-1] * 1.2)}[kind]
    ps = rng.uniform(lo_ * (1 + 1e-6), hi_, shape)
    mids = (p[1:] + p[:-1]) / 2
    ps = np.where(np.any(np.abs(ps[..., None] - mids) < 1e-9 * hi, axis=-1), ps * (1 + 1e-6), ps)
    pl = p[::-1].copy() if desc else p
    want = np.stack([expect(pl, v, t0) for v in np.ravel(ps)]).reshape(shape + (n,))
    cont = pick(rng, ['numpy', 'xarray', 'xarray_ps', 'list_lev', 'int'] if np.all(p == np.round(p)) else ['numpy', 'xarray', 'xarray_ps', 'list_lev'])
    kw = {} if top is None else {'pressure_top': top}
    ctx.note(levels=min(n, 10), order='desc' if desc else 'asc', rank=rank, surface=kind, top=str(top is not None), container=cont,
             missing=bool(np.isnan(want).any()))
    dims = ['time', 'lat', 'lon'][:rank]
    a, b = pl, ps
    if rank == 0:
        b = float(ps) if cont != 'xarray' else float(ps)
    if cont == 'list_lev':
        a = pl.tolist()
    elif cont == 'int':
        a = pl.astype(int)
    elif cont in ('xarray', 'xarray_ps'):
        if cont == 'xarray':
            a = xr.DataArray(pl, dims=['plev'], coords={'plev': pl}, attrs={'units': 'Pa'})
        if rank:
            co = {d: np.linspace(0, 30, s) for d, s in zip(dims, shape)}
            b = xr.DataArray(ps, dims=dims, coords=co, attrs={'source': 'model'})
    d = ctx.call(gc.delta_pressure, a, b, **kw)
    ctx.close(d, want, 'thickness', rtol=1e-9, atol=1e-9 * hi)
    v = tonp(d).reshape(-1, n)
    ctx.ok(not np.any(v < 0), 'negative thickness')
    ctx.close(np.nansum(v, axis=1), np.ravel(ps) - t0, 'sum of the thicknesses', rtol=1e-9, atol=1e-9 * hi)
    if rank and cont.startswith('xarray'):
        ctx.ok(isinstance(d, xr.DataArray), 'data array in, something else out')
        ctx.equal(d.dims[:-1], tuple(dims), 'dims')
        for k in dims:
            ctx.close(d[k], co[k], f'coordinate {k}')
        ctx.close(d[d.dims[-1]], pl, 'level coordinate')
        ctx.equal({k: v for k, v in d.attrs.items() if k in ('source', 'units')}, {'units': 'Pa'} if isinstance(a, xr.DataArray) else {'source': 'model'}, 'attributes')
    # the order of the levels only permutes the result
    r = ctx.call(gc.delta_pressure, pl[::-1].copy(), ps if rank else float(ps), **kw)
    ctx.close(tonp(r)[..., ::-1], want, 'levels in the other order', rtol=1e-9, atol=1e-9 * hi)


def bad(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 20))
    p = np.sort(rng.uniform(10, 1000, n))
    if np.diff(p).min() < 1e-3:
        p = np.linspace(10, 1000, n)
    pl = p[::-1].copy() if chance(rng, 0.5) else p
    shape = pick(rng, [(), (3,), (2, 2)])
    ps = rng.uniform(p[-1], p[-1] * 1.1, shape)
    kind = pick(rng, ['top_below', 'negative', 'surface'])
    kw = {}
    if kind == 'top_below':
        kw['pressure_top'] = float(p[0] + rng.uniform(1e-3, 1) * (p[-1] - p[0]))
    elif kind == 'negative':
        kw['pressure_top'] = -float(rng.uniform(1e-3, 100))
    else:
        v = float(p[0] * rng.uniform(0.01, 0.99))
        if shape:
            ps.flat[int(rng.integers(ps.size))] = v
        else:
            ps = v
    ctx.note(bad=kind)
    ctx.raises(ValueError, gc.delta_pressure, pl, float(ps) if shape == () else ps, what=kind, **kw)


WORKLOADS = {'columns': (run, 400, 10000), 'invalid': (bad, 100, 1500)}
