"""C31 the container and precision of the input do not change the answer; data arrays keep their metadata."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..catalog import CATALOG, POINTWISE
from ..compare import same, parts, npv
from ..core import Reject

ID = 'C31'
RULE = ('Random valid inputs given as numpy array, nested list, plain number, data array, Fortran-ordered / strided / byte-swapped / '
        'zero-dimensional arrays, single precision and integers, data arrays with further coordinates or without any; oracle: the double precision numpy result, element by element; for data '
        'arrays also dims, coordinates and the documented attributes.')
ATTRS = {'dewtemp': {'long_name': 'dew point temperature', 'units': 'Kelvin'}, 'relhum': {'long_name': 'relative humidity', 'units': 'percentage'},
         'heat_index': {'long_name': 'heat index: NWS', 'units': 'F'},
         'saturation_vapor_pressure': {'long_name': 'saturation vapor pressure', 'units': 'kPa'},
         'actual_saturation_vapor_pressure': {'long_name': 'actual saturation vapor pressure via Tdew', 'units': 'kPa'},
         'saturation_vapor_pressure_slope': {'long_name': 'slope saturation vapor pressure curve', 'units': 'kPa/C'},
         'psychrometric_constant': {'long_name': 'psychrometric constant', 'units': 'kPa/C'},
         'max_daylight': {'long_name': 'maximum daylight: FAO_56', 'units': 'hours/day'},
         'relhum_ice': {'comment': 'x0'}, 'relhum_water': {'comment': 'x0'}}     # those of the temperature


def layout(rng, a, swap=False):
    """The same numbers in another memory layout (byte-swapped only where no scipy/numba kernel, which refuses it, is behind the function)."""
    k = pick(rng, ['F', 'strided', 'negative', 'readonly'] + (['swapped'] if swap else []))
    if k == 'F':
        return np.asfortranarray(a), k
    if k == 'strided':
        big = np.zeros(tuple(2 * n for n in a.shape))
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v, k
    if k == 'negative':
        f = tuple(slice(None, None, -1) for _ in a.shape)
        return a[f].copy()[f], k
    if k == 'swapped':
        return a.astype(a.dtype.newbyteorder()), k
    if k == 'readonly':
        b = a.copy()
        b.setflags(write=False)
        return b, k


def met(ctx, name):
    rng = ctx.rng
    c = POINTWISE[name]('n')(rng)
    fn = c.fn
    want = npv(ctx.call(fn, *c.args, **c.kw))
    ctx.ok(want.shape == c.args[0].shape, f'{name}: shape {want.shape} for input {c.args[0].shape}')
    kind = pick(rng, ['list', 'xarray', 'number', 'layout', 'float32', 'int', 'zero_dim', 'empty_dims'])
    if kind == 'int' and name.startswith('relhum'):
        kind = 'layout'
    ctx.note(function=name, container=kind)
    what = f'{name} given as {kind}'
    tol = 1e-12
    if kind == 'list':
        ctx.close(ctx.call(fn, *[a.tolist() for a in c.args], **c.kw), want, what, rtol=tol)
    elif kind == 'xarray':
        dims = ['time', 'lat', 'lon'][-c.args[0].ndim:]
        co = {d: np.arange(n) * 2.5 for d, n in zip(dims, c.args[0].shape)}
        co['height'] = 2.0
        o = ctx.call(fn, *[xr.DataArray(a, dims=dims, coords=co, name=f'v{i}', attrs={'comment': f'x{i}'}) for i, a in enumerate(c.args)], **c.kw)
        ctx.ok(isinstance(o, xr.DataArray), f'{what}: {type(o).__name__}')
        ctx.equal(o.dims, tuple(dims), f'{what}: dims')
        for k, v in co.items():
            ctx.ok(k in o.coords and np.array_equal(o.coords[k].values, v), f'{what}: coordinate {k} lost')
        for k, v in ATTRS.get(name, {}).items():
            ctx.equal(o.attrs.get(k), v, f'{what}: attribute {k}')
        ctx.close(o, want, what, rtol=tol)
    elif kind == 'number':
        for _ in range(4):
            i = tuple(int(rng.integers(n)) for n in want.shape)
            o = ctx.call(fn, *[float(a[i]) for a in c.args], **c.kw)
            ctx.close(npv(o).reshape(()), want[i], what, rtol=tol)
    elif kind == 'zero_dim':
        i = tuple(int(rng.integers(n)) for n in want.shape)
        o = ctx.call(fn, *[np.array(a[i]) for a in c.args], **c.kw)
        ctx.close(npv(o).reshape(()), want[i], what, rtol=tol)
    elif kind == 'empty_dims':
        s = tuple([1] * int(rng.integers(0, 3))) + want.shape + tuple([1] * int(rng.integers(0, 2)))
        ctx.close(ctx.call(fn, *[a.reshape(s) for a in c.args], **c.kw), want.reshape(s), what, rtol=tol)
    elif kind == 'layout':
        ls = [layout(rng, a, swap=True) for a in c.args]
        ctx.note(layout=ls[0][1])
        ctx.close(ctx.call(fn, *[a for a, _ in ls], **c.kw), want, what, rtol=tol)
    else:
        t = np.float32 if kind == 'float32' else int
        args = [a.astype(t) for a in c.args]
        if kind == 'int':
            args = [np.maximum(a, 1) for a in args]
        want = npv(ctx.call(fn, *[a.astype(float) for a in args], **c.kw))
        if kind == 'float32' and name == 'heat_index':
            pass
        ctx.close(ctx.call(fn, *args, **c.kw), want, what, rtol=1e-4 if kind == 'float32' else tol, atol=1e-3 if kind == 'float32' else 0.0)


def value(o):
    return [npv(x) for _, x in parts(o)]


def convert(c, f):
    return c.map(lambda a: f(a) if isinstance(a, (np.ndarray, xr.DataArray)) else a)


NUM = [n for n in CATALOG if n.endswith('.n') and n.split('.')[0] not in POINTWISE and not n.startswith('eofunc')]


def arrays(ctx, name):
    """Other functions that take plain arrays."""
    rng = ctx.rng
    c = CATALOG[name](rng)
    want = value(ctx.call(c.fn, *c.args, **c.kw))
    kind = pick(rng, ['layout', 'float32'])
    ctx.note(function=c.fn.__name__, container=kind)
    if kind == 'layout':
        k = convert(c, lambda a: layout(rng, a)[0] if a.dtype == float and a.ndim else a)
        got = value(ctx.call(k.fn, *k.args, **k.kw))
        tol, at = 1e-9, 1e-12
    else:
        k = convert(c, lambda a: a.astype(np.float32) if a.dtype == float else a)
        b = convert(k, lambda a: a.astype(float) if a.dtype == np.float32 else a)
        want = value(ctx.call(b.fn, *b.args, **b.kw))
        got = value(ctx.call(k.fn, *k.args, **k.kw))
        tol, at = 2e-3, 1e-4
    for i, (x, y) in enumerate(zip(got, want)):
        s = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 1.0
        ctx.close(x, y, f'{c.fn.__name__}[{i}] given as {kind}', rtol=0 if kind == 'float32' else tol, atol=(tol if kind == 'float32' else 1e-11) * s)


def unwrap(a):
    return a.values if isinstance(a, xr.DataArray) else a


PAIRS = ['fourier.x', 'wgs84.x', 'pressure_at_hybrid_levels.x', 'delta_pressure_hybrid.x', 'delta_pressure.x', 'decomposition.x', 'recomposition.x',
         'scale_voronoi.x', 'gradient.x', 'interp_multidim.x', 'pearson_r.x', 'eofunc_eofs.x', 'eofunc_pcs.x', 'eofunc.x', 'eofunc_ts.x', 'max_daylight.x']


def pairs(ctx, name):
    """Data array and numpy array of the same numbers."""
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = c.fn.__name__
    r = ctx.call(c.fn, *c.args, **c.kw)
    for k, v in ATTRS.get(fn, {}).items():
        ctx.equal(r.attrs.get(k), v, f'{fn}: attribute {k}')
    want = [npv(o) for _, o in parts(r)]
    k = c.map(unwrap)
    ctx.note(function=fn, container='numpy and data array')
    if fn == 'interp_multidim':
        k.kw.update(lat_in=c.args[0]['lat'].values, lon_in=c.args[0]['lon'].values)
    elif fn == 'gradient':
        k.args += [c.args[0]['lon'].values, c.args[0]['lat'].values]
    elif fn == 'pearson_r':
        over = k.kw.pop('dim', None)
        n = 1 if isinstance(over, str) else len(over) if over else k.args[0].ndim
        k.args = [a.reshape((-1,) + a.shape[n:]) for a in k.args]
        k.kw.pop('keep_attrs')
        k.kw['axis'] = 0
    elif fn.startswith('eofunc'):
        k.kw.pop('meta', None)
    got = [npv(o) for _, o in parts(ctx.call(k.fn, *k.args, **k.kw))]
    for i, (x, y) in enumerate(zip(got, want)):
        s = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 1.0
        if fn in ('pressure_at_hybrid_levels', 'delta_pressure_hybrid'):
            y = np.moveaxis(y, list(range(y.ndim)), list(range(y.ndim)))
        ctx.close(x, y, f'{fn}[{i}]: numpy against data array', rtol=1e-6 if fn == 'max_daylight' else 1e-10, atol=(1e-5 if fn == 'max_daylight' else 1e-11) * s)


VERT = ['interp_hybrid_to_pressure.x', 'interp_sigma_to_hybrid.x', 'calendar_average.monthly', 'climatology_average.monthly', 'climate_anomaly.monthly',
        'month_to_season.monthly', 'nmse.x', 'fourier.x', 'gradient.x', 'interp_multidim.x', 'delta_pressure.x', 'decomposition.x', 'pearson_r.x',
        'pressure_at_hybrid_levels.x', 'delta_pressure_hybrid.x', 'calendar_average.daily', 'climatology_average.daily', 'climate_anomaly.daily']


def single(ctx, name):
    """Data arrays in single precision, and integer data."""
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = c.fn.__name__
    kind = pick(rng, ['float32', 'int', 'layout'])
    if kind == 'int' and (fn not in ('interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season',
                                     'gradient') and not fn.startswith('fourier')):
        kind = 'float32'
    ctx.note(function=fn, container=f'data array {kind}')

    def cast(a, t):
        if isinstance(a, xr.Dataset):
            return a.map(lambda v: cast(v, t), keep_attrs=True)
        return a.astype(t) if isinstance(a, xr.DataArray) and a.dtype.kind in 'fi' else a
    if kind == 'layout':
        k = c.map(lambda a: a.copy(data=layout(rng, a.values)[0]) if isinstance(a, xr.DataArray) and a.ndim and a.dtype == float else a)
        b = c
        tol = 1e-10
    elif kind == 'float32':
        k = c.map(lambda a: cast(a, np.float32))
        b = k.map(lambda a: cast(a, np.float64))
        tol = 5e-4
    else:
        k = c.map(lambda a: a)
        k.args[0] = cast((c.args[0] * (10 if not isinstance(c.args[0], xr.Dataset) else 1)), int)
        b = k.map(lambda a: a)
        b.args[0] = cast(k.args[0], float)
        tol = 1e-9
    want = ctx.call(b.fn, *b.args, **b.kw)
    got = ctx.call(k.fn, *k.args, **k.kw)
    for (l, x), (_, y) in zip(parts(got), parts(want)):
        vx, vy = npv(x), npv(y)
        ctx.ok(x.dims == y.dims, f'{fn}{l}: dims {x.dims} for {kind}, {y.dims} for float64')
        s = np.abs(vy[np.isfinite(vy)]).max() if np.isfinite(vy).any() else 1.0
        ctx.close(vx, vy, f'{fn}{l} given as {kind}', rtol=0, atol=tol * s)


KEEP = {'gradient': ('lat', 'lon'), 'interp_multidim': ('lat', 'lon'), 'nmse': ('lat', 'lon'), 'eofunc_eofs': ('time',), 'eofunc_pcs': ('time',), 'eofunc_ts': ('time',), 'eofunc': ('time',)}
LABELS = [n for n in CATALOG if not n.endswith(('.n', '.l'))]


def labels(ctx, name):
    """Further coordinates, or none at all, do not change the numbers; a coordinate along untouched dimensions keeps its values."""
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = c.fn.__name__
    arrays = [a for _, a in c.everything() if isinstance(a, (xr.DataArray, xr.Dataset))]
    dims = {d: n for a in arrays for d, n in a.sizes.items()}
    new = {}
    for d, n in dims.items():
        if chance(rng, 0.5):
            new[f'label_{d}'] = (d, [f's{i}' for i in range(n)])
        if chance(rng, 0.5):
            new[f'aux_{d}'] = (d, rng.random(n))
    if chance(rng, 0.6):
        new.update(height=2.0, member='r1i1p1')
    if len(dims) > 1 and chance(rng, 0.5):
        two = [str(d) for d in rng.permutation(list(dims))[:2]]
        new['area'] = (tuple(two), rng.random([dims[d] for d in two]))
    share = 1.0 if fn == 'nmse' else pick(rng, [1.0, 0.6])     # nmse wants the same coordinates on both
    bare = [d for d in c.points if d not in KEEP.get(fn, ()) and d != 'time'] if chance(rng, 0.4) else []

    def dress(a):
        if not isinstance(a, (xr.DataArray, xr.Dataset)):
            return a
        a = a.drop_vars(bare, errors='ignore')
        if not chance(rng, share):
            return a
        return a.assign_coords({k: v for k, v in new.items() if not isinstance(v, tuple) or set(np.atleast_1d(v[0])) <= set(a.dims)})
    k = c.map(dress)
    ctx.note(function=fn, container='data array with further coordinates', bare=bool(bare), dims=max([len(np.atleast_1d(v[0])) for v in new.values() if isinstance(v, tuple)] or [0]))
    want = c()
    got = ctx.call(k.fn, *k.args, **k.kw)
    for (l, x), (_, y) in zip(parts(got), parts(want)):
        ctx.ok(type(x) is type(y), f'{fn}{l}: {type(x).__name__}, without further coordinates {type(y).__name__}')
        vx, vy = npv(x), npv(y)
        if isinstance(y, xr.DataArray):
            ctx.ok(x.dims == y.dims, f'{fn}{l}: dims {x.dims}, without further coordinates {y.dims}')
        s = np.abs(vy[np.isfinite(vy)]).max() if np.isfinite(vy).any() else 1.0
        ctx.close(vx, vy, f'{fn}{l} with further coordinates', rtol=0, atol=1e-11 * s)
        if not isinstance(x, xr.DataArray):
            continue
        for n, v in new.items():
            if n in x.coords:
                d = tuple(np.atleast_1d(v[0]).tolist()) if isinstance(v, tuple) else ()
                if set(d) <= set(c.points) and set(x.coords[n].dims) == set(d):
                    w = np.asarray(v[1] if d else v)
                    ctx.compared += 1
                    ctx.finite += 1
                    ctx.ok(np.array_equal(x.coords[n].transpose(*d).values, w), f'{fn}{l}: coordinate {n} changed')
        for d in x.dims:
            if d in y.coords and d in x.coords and d not in bare:
                ctx.ok(np.array_equal(npv(x[d]), npv(y[d])), f'{fn}{l}: coordinate {d} differs with further coordinates')


INTEGERS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']
ANY = {'calendar_average': 1, 'climatology_average': 1, 'climate_anomaly': 1, 'month_to_season': 1, 'fourier': 1, 'gradient': 1, 'interp_multidim': 1,
       'interp_hybrid_to_pressure': 1, 'interp_sigma_to_hybrid': 1, 'nmse': 2, 'pearson_r': 2, 'decomposition': 1, 'eofunc_eofs': 1, 'eofunc_pcs': 1,
       'eofunc': 1, 'eofunc_ts': 1}                     # fields of any values
ASIS = {'wgs84': 2, 'max_daylight': 2, 'delta_pressure': 2, 'pressure_at_hybrid_levels': 1, 'delta_pressure_hybrid': 1}
WHOLE = [n for n in CATALOG if n.split('.')[0] in {**ANY, **ASIS, **POINTWISE} and not n.endswith('.l')]


def fits(v, t):
    i = np.iinfo(t)
    return v.size and v.min() >= i.min and v.max() <= i.max


def integers(ctx, name):
    """Whole numbers stored in any type of integer, also in one that they just fit."""
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = name.split('.')[0]
    used = []

    def number(a, f):
        if isinstance(a, xr.Dataset):
            return a.map(lambda v: number(v, f), keep_attrs=True)
        if isinstance(a, xr.DataArray):
            return a.copy(data=f(a.values)) if a.dtype.kind == 'f' else a
        return f(a) if isinstance(a, np.ndarray) and a.dtype.kind == 'f' else a

    def stretched(v):
        t = pick(rng, INTEGERS)
        i = np.iinfo(t)
        lo, hi = max(i.min, -10 ** 6), min(i.max, 10 ** 6)
        if chance(rng, 0.3):
            lo, hi = lo // 2, lo // 2 + 50
        v = np.where(np.isfinite(v), v, np.nanmin(v) if np.isfinite(v).any() else 0.0)
        w = np.ptp(v) or 1.0
        used.append(t)
        return np.asarray(np.round(lo + (v - v.min()) / w * (hi - lo))).astype(t)

    def plain(v):
        v = np.asarray(np.round(np.where(np.isfinite(v), v, np.nanmin(v) if np.isfinite(v).any() else 1.0)))
        if fn in POINTWISE:
            v = np.maximum(v, 1)
        ts = [t for t in INTEGERS if fits(v, t)]
        if not ts:
            raise Reject()
        used.append(ts[0] if chance(rng, 0.3) else pick(rng, ts))
        return v.astype(used[-1])
    k = c.map(lambda a: a)
    n = min(len(k.args), ANY.get(fn) or ASIS.get(fn) or 9)
    if fn == 'delta_pressure':                # distinct levels, the surface not above the first of them
        x = npv(k.args[0])
        if np.unique(np.round(x)).size < x.size or (np.round(npv(k.args[1])) < np.round(x).min()).any():
            raise Reject()
        if k.kw.get('pressure_top') is not None:
            k.kw['pressure_top'] = np.floor(min(k.kw['pressure_top'], np.round(x).min()))
    for i in range(n):
        k.args[i] = number(k.args[i], stretched if fn in ANY else plain)
    if fn in ('gradient', 'interp_multidim') and name.endswith('.x') and chance(rng, 0.5):      # coordinates of whole degrees
        for d in ('lat', 'lon'):
            v = k.args[0][d]
            r = np.round(v.values)
            ts = [t for t in INTEGERS if fits(r, t)]
            if v.ndim == 1 and ts and (np.diff(r) > 0).all() | (np.diff(r) < 0).all():
                k.args[0] = k.args[0].assign_coords({d: (v.dims, r.astype(pick(rng, ts)), v.attrs)})
                used.append(str(k.args[0][d].dtype))
    if not used:
        raise Reject()

    def double(a):
        if isinstance(a, xr.Dataset):
            return a.map(double, keep_attrs=True)
        if isinstance(a, xr.DataArray):
            a = a.astype(float) if a.dtype.kind in 'iu' else a
            return a.assign_coords({d: (a[d].dims, a[d].values.astype(float), a[d].attrs) for d in ('lat', 'lon') if d in a.coords and a[d].dtype.kind in 'iu'})
        return a.astype(float) if isinstance(a, np.ndarray) and a.dtype.kind in 'iu' else a
    b = k.map(double)
    ctx.note(function=c.fn.__name__, container='integers', types=sorted(set(used)))
    want = ctx.call(b.fn, *b.args, **b.kw)
    got = ctx.call(k.fn, *k.args, **k.kw)
    for (l, x), (_, y) in zip(parts(got), parts(want)):
        vx, vy = npv(x), npv(y)
        s = np.abs(vy[np.isfinite(vy)]).max() if np.isfinite(vy).any() else 1.0
        ctx.close(vx, vy, f'{fn}{l} of whole numbers stored as {sorted(set(used))}', rtol=1e-9 if fn in POINTWISE else 0, atol=1e-9 if fn in POINTWISE else 1e-5 * s)


WORKLOADS = {f'met.{n}': ((lambda ctx, n=n: met(ctx, n)), 40, 600) for n in POINTWISE}
WORKLOADS.update({f'arrays.{n}': ((lambda ctx, n=n: arrays(ctx, n)), 12, 200) for n in NUM})
WORKLOADS.update({f'pairs.{n}': ((lambda ctx, n=n: pairs(ctx, n)), 12, 200) for n in PAIRS})
WORKLOADS.update({f'precision.{n}': ((lambda ctx, n=n: single(ctx, n)), 12, 150) for n in VERT})
WORKLOADS.update({f'labels.{n}': ((lambda ctx, n=n: labels(ctx, n)), 10, 150) for n in LABELS})
WORKLOADS.update({f'integers.{n}': ((lambda ctx, n=n: integers(ctx, n)), 16, 250) for n in WHOLE})
