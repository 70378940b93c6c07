"""C41 results respect the symmetries of space, time and order."""
import datetime
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import parts, npv
from ..core import Reject
from .c40 import modify

QUICK = 2
ID = 'C41'
RULE = ('Random valid calls and a random symmetry of the problem, metamorphic oracle between executions: shift of the time axis by whole leap cycles, circular shift and reversal of a signal, '
        'rotation of the longitudes (values or columns, over the seam), mirror image of the hemispheres, reversal or permutation of levels, targets, samples and grid points. '
        'The result must be the transformed result.')
ASSUMPTIONS = ['time shifts keep numpy and standard dates within 1901-2099, where every 28 years are alike', 'EOF modes up to their sign']

CLIMO = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season')


def data(a, v):
    return a.copy(data=v) if isinstance(a, xr.DataArray) else v


def flip(a, ax):
    return a.isel({a.dims[ax]: slice(None, None, -1)}) if isinstance(a, xr.DataArray) else np.flip(a, ax)


def take(a, idx, ax):
    return a.isel({a.dims[ax]: idx}) if isinstance(a, xr.DataArray) else np.take(a, idx, ax)


def coord(a, **kw):
    return a.assign_coords({k: a[k].copy(data=v) if a[k].dims != (k,) else v for k, v in kw.items()})


# every symmetry: (label, call, expected(values of the result) -> values, {coordinate: transform})
def climo(rng, c):
    a = c.args[0]
    t = a['time'].values
    years = 28 * int(rng.integers(1, 3))
    first = t[0].year if t.dtype == object else int(str(t[0])[:4])
    free = t.dtype == object and t[0].calendar in ('noleap', '360_day')
    if free:
        years = 2 * int(rng.integers(1, 200))        # the median year is rounded to an even one
        n = years * (365 if t[0].calendar == 'noleap' else 360)
    else:
        n = years // 4 * 1461
        if first + years > 2090:
            n = -n
        elif first - years > 1905 and chance(rng, 0.5):
            n = -n
        if not 1904 < first + n / 365.25 < 2091:
            raise Reject()
    d = np.array([datetime.timedelta(days=n)] * 1, object)
    later = lambda x: x + (d[0] if x.dtype == object else np.timedelta64(n, 'D'))
    k = modify(c, {0: a.assign_coords(time=('time', later(t), a['time'].attrs))})
    return 'time axis moved by whole cycles', k, lambda v: v, {'time': later}, 1e-12


def fourier(rng, c):
    a, ax = c.args[0], c.kw['time_axis']
    v = npv(a)
    s = int(rng.integers(1, v.shape[ax]))
    if chance(rng, 0.5):
        return 'signal rolled', modify(c, {0: data(a, np.roll(v, s, ax))}), lambda r: np.roll(r, s, ax), {}, 1e-9
    return 'signal reversed', modify(c, {0: data(a, np.flip(v, ax).copy())}), lambda r: np.flip(r, ax), {}, 1e-9


def gradient(rng, c):
    a = c.args[0]
    x = isinstance(a, xr.DataArray)
    lon, lat = (a['lon'].values, a['lat'].values) if x else c.args[1:3]

    def put(lo, la, v=None):
        v = npv(a) if v is None else v
        return modify(c, {0: coord(data(a, v), lon=lo, lat=la)} if x else {0: v, 1: lo, 2: la})
    two = np.ndim(lon) == 2
    co = {'lon': None, 'lat': None}
    kind = pick(rng, ['rotated', 'mirrored', 'rows reversed', 'columns reversed'])
    if kind == 'rotated':
        s = float(rng.uniform(-200, 200))
        return kind, put(lon + s, lat), lambda r, i: r, {'lon': lambda q: q + s}, 1e-8
    if kind == 'mirrored':
        return kind, put(lon, -lat), lambda r, i: -r if i == 0 else r, {'lat': lambda q: -q}, 1e-9
    ax = -2 if kind == 'rows reversed' else -1
    v = np.flip(npv(a), ax).copy()
    f = lambda q: np.flip(q, ax)
    if two:
        k = put(f(lon).copy(), f(lat).copy(), v)
    else:
        k = put(lon, lat[::-1].copy(), v) if ax == -2 else put(lon[::-1].copy(), lat, v)
    return kind, k, lambda r, i: f(r), {'lon': f, 'lat': f}, 1e-9


def wgs(rng, c):
    fn = c.fn.__name__
    if fn == '_arc_lon_wgs84':
        if chance(rng, 0.5):
            return 'mirrored', modify(c, {1: -c.args[1]}), lambda r: r, {}, 1e-12
        return 'longitudes negated', modify(c, {0: -c.args[0]}), lambda r: -r, {}, 1e-12
    s = -1 if fn == '_arc_lat_wgs84' else 1
    return 'mirrored', modify(c, {0: -c.args[0]}), lambda r: s * r, {}, 1e-12


def hybrid(rng, c):
    a, ps, A, B = c.args
    if chance(rng, 0.5):
        p = rng.permutation(len(c.kw['new_levels']))
        ax = a.dims.index('lev')
        f = lambda r: np.take(r, p, ax)
        return 'target levels permuted', modify(c, {}, {'new_levels': c.kw['new_levels'][p]}), f, {'plev': lambda q: q[p]}, 1e-12
    r = slice(None, None, -1)
    return 'levels reversed', modify(c, {0: a.isel(lev=r), 2: A.isel(lev=r), 3: B.isel(lev=r)}), lambda q: q, {}, 1e-10


def sigma(rng, c):
    p = rng.permutation(c.args[3].size)
    ax = c.args[0].dims.index('lev')
    return 'target levels permuted', modify(c, {3: c.args[3][p], 4: c.args[4][p]}), lambda r: np.take(r, p, ax), {'hlev': lambda q: q[p]}, 1e-12


def pressures(rng, c):
    ps, A, B = c.args
    n = len(A)
    if c.fn is gc.pressure_at_hybrid_levels:
        p = rng.permutation(n)
        q = p
    else:
        p, q = np.arange(n)[::-1], np.arange(n - 1)[::-1]
    ax = 0
    if chance(rng, 0.4) and isinstance(ps, xr.DataArray) and ps.ndim > 1:
        d = ps.dims[::-1]
        return 'surface transposed', modify(c, {0: ps.transpose(*d)}), None, {}, 1e-12
    return 'levels reordered', modify(c, {1: take(A, p, 0), 2: take(B, p, 0)}), (lambda r, x: np.take(r, q, list(x.dims).index('lev' if 'lev' in x.dims else 'ilev') if isinstance(x, xr.DataArray) else ax)), {'lev': lambda z: z[q], 'ilev': lambda z: z[q]}, 1e-12


def delta(rng, c):
    p, ps = c.args
    f = lambda r, x: np.flip(r, list(x.dims).index('lev') if isinstance(x, xr.DataArray) and 'lev' in x.dims else list(x.dims).index('plev') if isinstance(x, xr.DataArray) else -1)
    return 'levels reversed', modify(c, {0: flip(p, 0)}), f, {'lev': lambda q: q[::-1], 'plev': lambda q: q[::-1]}, 1e-12


def multidim(rng, c):
    x = isinstance(c.args[0], xr.DataArray)
    a, la, lo = c.args
    lat, lon = (a['lat'].values, a['lon'].values) if x else (c.kw['lat_in'], c.kw['lon_in'])

    def put(v, lat_, lon_, la_, lo_):
        if x:
            return modify(c, {0: coord(data(a, v), lat=lat_, lon=lon_), 1: la_, 2: lo_})
        return modify(c, {0: v, 1: la_, 2: lo_}, {'lat_in': lat_, 'lon_in': lon_})
    v = npv(a)
    kind = pick(rng, ['mirrored', 'rotated', 'targets permuted', 'columns rolled', 'rows reversed'])
    if kind == 'mirrored':
        return kind, put(v, -lat, lon, -la, lo), lambda r: r, {'lat': lambda q: -q}, 1e-9
    if kind == 'rotated':
        s = float(rng.uniform(-180, 180))
        return kind, put(v, lat, lon + s, la, lo + s), lambda r: r, {'lon': lambda q: q + s}, 1e-9
    if kind == 'rows reversed':
        return kind, put(np.flip(v, -2).copy(), lat[::-1].copy(), lon, la, lo), lambda r: r, {}, 1e-9
    if kind == 'targets permuted':
        p, q = rng.permutation(la.size), rng.permutation(lo.size)
        return kind, put(v, lat, lon, la[p], lo[q]), lambda r: r[..., p, :][..., q], {'lat': lambda z: z[p], 'lon': lambda z: z[q]}, 1e-12
    if not c.kw['cyclic'] or isinstance(c.kw['fill_value'], str):
        raise Reject()
    n, s = lon.size, int(rng.integers(1, lon.size))
    lo2 = (lo + s * 360.0 / n) % 360
    return kind, put(np.roll(v, s, -1), lat, lon, la, lo2), lambda r: r, {'lon': lambda q: lo2}, 1e-9


def daylight(rng, c):
    k = modify(c, {1: -c.args[1] if not isinstance(c.args[1], xr.DataArray) else c.args[1].copy(data=-c.args[1].data).assign_coords(lat=-c.args[1].data)})
    return 'mirrored', k, lambda r: 24 - r, {'lat': lambda q: -q}, 1e-6       # single precision


def nmse(rng, c):
    o, m = c.args
    kind = pick(rng, ['columns rolled', 'mirrored', 'rotated', 'times permuted', 'rows reversed'])
    n = o.sizes['lon']
    if kind == 'columns rolled':
        s = int(rng.integers(1, n))
        f = lambda a: a.roll(lon=s, roll_coords=False)
    elif kind == 'mirrored':
        f = lambda a: a.assign_coords(lat=-a['lat'].values)
    elif kind == 'rotated':
        s = float(rng.uniform(-180, 180))
        f = lambda a: a.assign_coords(lon=a['lon'].values + s)
    elif kind == 'rows reversed':
        f = lambda a: a.isel(lat=slice(None, None, -1))
    else:
        p = rng.permutation(o.sizes['time'])
        f = lambda a: a.isel(time=p)
        g = lambda r, x: np.take(r, p, x.dims.index('time'))
        return kind, modify(c, {0: f(o), 1: f(m)}), g, {'time': lambda q: q[p]}, 1e-10
    return kind, modify(c, {0: f(o), 1: f(m)}), lambda r: r, {}, 1e-10


def pearson(rng, c):
    a, b = c.args
    x = isinstance(a, xr.DataArray)
    if x:
        d = c.kw.get('dim')
        dims = list(a.dims) if d is None else [d] if isinstance(d, str) else list(d)
        d = dims[int(rng.integers(len(dims)))]
        p = rng.permutation(a.sizes[d])
        f = lambda v: v.isel({d: p}) if isinstance(v, xr.DataArray) and d in v.dims else v
    else:
        ax = c.kw.get('axis', int(rng.integers(a.ndim)))
        p = rng.permutation(a.shape[ax])
        f = lambda v: np.take(v, p, ax) if isinstance(v, np.ndarray) else v
    return 'samples permuted', c.map(f), lambda r: r, {}, 1e-9


def eof(rng, c):
    a = c.args[0]
    pcs = c.fn in (gc.eofunc_pcs, gc.eofunc_ts)
    t = c.kw.get('time_dim', -1 if c.fn in (gc.eofunc, gc.eofunc_ts) else 0) % a.ndim
    ax = int(rng.integers(a.ndim))
    p = rng.permutation(a.shape[ax])
    rest = [i for i in range(a.ndim) if i != t]
    kw = {}
    if ax != t and 'weights' in c.kw:
        kw['weights'] = np.take(c.kw['weights'], p, rest.index(ax))
    k = modify(c, {0: take(a, p, ax)}, kw)
    f = lambda r: r
    if pcs and ax == t:
        f = lambda r: np.take(r, p, 1)
    elif not pcs and ax != t:
        f = lambda r: np.take(r, p, 1 + rest.index(ax))
    return 'times permuted' if ax == t else 'points permuted', k, f, {d: None for d in (a.dims if isinstance(a, xr.DataArray) else ())}, 1e-6


def orders(n):
    return np.array([[i, m] for i in range(n + 1) for m in range(i + 1)]).T


def spherical(rng, c):
    fn = c.fn.__name__
    n, m = orders(c.kw.get('max_harm', 23))
    at = {'decomposition': 2, 'recomposition': 1, 'scale_voronoi': 0}[fn]
    th, ph = c.args[at], c.args[at + 1]
    kind = pick(rng, ['rotated', 'mirrored', 'points reversed'])
    if kind == 'points reversed':
        f = lambda v: data(v, npv(v)[::-1, ::-1].copy()) if npv(v).ndim == 2 else v
        return kind, c.map(lambda v: f(v) if isinstance(v, (np.ndarray, xr.DataArray)) else v), (lambda r: r) if fn == 'decomposition' else (lambda r: r[::-1, ::-1]), {}, 1e-7
    s = float(rng.uniform(-3, 3))
    new = {at: th + s} if kind == 'rotated' else {at + 1: np.pi - ph}
    g = np.exp(1j * m * s) if kind == 'rotated' else (-1.0) ** (n + m)
    if fn == 'decomposition':
        return kind, modify(c, new), lambda r: r * g, {}, 1e-9
    if fn == 'recomposition':
        return kind, modify(c, {**new, 0: data(c.args[0], npv(c.args[0]) * g)}), lambda r: r, {}, 1e-9
    return kind, modify(c, new), lambda r: r, {}, 1e-7


KIND = {**{n: climo for n in CLIMO}, 'fourier': fourier, 'gradient': gradient, 'wgs84': wgs, 'interp_hybrid_to_pressure': hybrid, 'interp_sigma_to_hybrid': sigma,
        'pressure_at_hybrid_levels': pressures, 'delta_pressure_hybrid': pressures, 'delta_pressure': delta, 'interp_multidim': multidim, 'max_daylight': daylight,
        'nmse': nmse, 'pearson_r': pearson, 'eofunc_eofs': eof, 'eofunc_pcs': eof, 'eofunc': eof, 'eofunc_ts': eof,
        'decomposition': spherical, 'recomposition': spherical, 'scale_voronoi': spherical}
NAMES = [n for n in CATALOG if n.split('.')[0] in KIND and not n.endswith('.l')]


def run(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = c.fn.__name__
    what, k, f, co, tol = KIND[name.split('.')[0]](rng, c)
    ctx.note(entry=name, symmetry=what)
    want = ctx.call(c.fn, *c.args, **c.kw)
    got = ctx.call(k.fn, *k.args, **k.kw)
    A, B = parts(got), parts(want)
    ctx.ok([l for l, _ in A] == [l for l, _ in B], f'{fn}, {what}: structure changes')
    for i, ((l, x), (_, y)) in enumerate(zip(A, B)):
        lab = f'{fn}{l}, {what}'
        vx, vy = npv(x), npv(y)
        if f is None:                     # the same dimensions in another order
            ctx.ok(set(x.dims) == set(y.dims), f'{lab}: dimensions {x.dims}')
            e = vy
            vx = npv(x.transpose(*y.dims))
        else:
            n = f.__code__.co_argcount
            e = f(vy) if n == 1 else f(vy, i if fn == 'gradient' else y)
        if fn.startswith('eofunc'):
            s = np.sign(np.nansum(vx * e, axis=tuple(range(1, e.ndim)), keepdims=True))
            vx = vx * np.where(s == 0, 1, s)
        q = np.abs(e[np.isfinite(e)]) if e.size else np.zeros(1)
        sc = q.max() if q.size else 1.0
        if fn in ('climate_anomaly', 'fourier_high_pass', 'fourier_band_pass', 'fourier_filter'):
            sc = max(sc, float(np.nanmax(np.abs(npv(parts(c.args[0])[min(i, len(parts(c.args[0])) - 1)][1])))))
        ctx.close(vx, e, lab, rtol=tol, scale=sc)
        if isinstance(y, xr.DataArray) and f is not None:
            ctx.ok(x.dims == y.dims and set(x.coords) == set(y.coords), f'{lab}: dimensions {x.dims} or coordinates {sorted(x.coords)}')
            for d in y.coords:
                g = co.get(d, lambda z: z)
                if g is None:
                    continue
                cx, cy = npv(x[d]), g(npv(y[d]))
                if cy.dtype.kind == 'f':
                    ctx.close(cx, cy, f'{lab}: coordinate {d}', rtol=1e-9, atol=1e-9)
                else:
                    ctx.ok(cx.shape == cy.shape and all(p == q for p, q in zip(cx.ravel(), cy.ravel())), f'{lab}: coordinate {d} is {cx.ravel()[:3]}, expected {cy.ravel()[:3]}')


WORKLOADS = {n: ((lambda ctx, n=n: run(ctx, n)), 24, 300) for n in NAMES}


def psi(ctx):
    """The streamfunction with times, latitudes or levels in another order."""
    from . import c22
    c = c22.case(ctx.rng)
    rng = ctx.rng
    what = pick(rng, ['times permuted', 'latitudes permuted', 'levels reversed'])
    ctx.note(entry='psi', symmetry=what, hybrid=c.hybrid)
    want = ctx.call(c.fn, c.ds, lat=c.lat, **c.kw)
    ds, lat, co = c.ds, c.lat, {}
    if what == 'times permuted':
        p = rng.permutation(c.nt)
        ds = ds.isel(time=p)
        e = want.isel(time=p)
    elif what == 'latitudes permuted':
        p = rng.permutation(len(c.lats))
        lat = np.asarray(c.lats)[p]
        e = want.isel(latitudes=p)
    else:
        ds = ds.isel({c.lev: slice(None, None, -1)})
        e = want if c.hybrid else want.isel(plev=slice(None, None, -1))
    got = ctx.call(c.fn, ds, lat=lat, **c.kw)
    ctx.equal(got.dims, e.dims, f'{what}: dims')
    ctx.close(got, e.values, f'{c.fn.__name__}, {what}', rtol=1e-9, scale=float(np.nanmax(np.abs(e.values))) if np.isfinite(e.values).any() else 1.0)
    for d in e.coords:
        if npv(e[d]).dtype.kind == 'f':
            ctx.close(got[d], npv(e[d]), f'{what}: coordinate {d}')


def prepare():
    from . import c22
    c22.prepare()


WORKLOADS['psi'] = (psi, 15, 200)
