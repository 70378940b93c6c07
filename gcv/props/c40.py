"""C40 results follow the units and the superposition of the data."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import same, parts, npv
from ..core import Reject

QUICK = 2
ID = 'C40'
RULE = ('Random valid calls, metamorphic oracle between executions. units: the data (or all the pressures, or both fields) are multiplied by the same power of two, power of ten or -1, over 60 orders of magnitude; '
        'the result must be multiplied by the power of that factor that the quantity has (1 for averages, filters, gradients, interpolated values, coefficients and thicknesses; 0 for ratios, correlations and fractions; '
        '2 for variances), to rounding. superposition: the result for a weighted sum of two fields is the weighted sum of the results. constant: averages and interpolations reproduce a constant, '
        'anomalies, derivatives and high frequencies of a constant vanish, whatever the constant.')
ASSUMPTIONS = ['factors between 1e-30 and 1e30', 'extrapolation of temperature and geopotential is not homogeneous in the data and is claimed for the pressures only', 'relhum above its lower limit only']

AVERAGES = ('calendar_average', 'climatology_average', 'month_to_season')
NAMES = [n for n in CATALOG if n.split('.')[0] in AVERAGES + (
    'climate_anomaly', 'fourier', 'gradient', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim', 'decomposition', 'recomposition',
    'pressure_at_hybrid_levels', 'delta_pressure_hybrid', 'delta_pressure', 'nmse', 'pearson_r', 'eofunc_eofs', 'eofunc_pcs', 'eofunc', 'eofunc_ts',
    'psychrometric_constant', 'relhum', 'relhum_ice', 'relhum_water') and not n.endswith('.l')]


def mul(a, s):
    if s is None:
        return a
    if isinstance(a, xr.Dataset):
        return a.map(lambda v: v.copy(data=v.data * s), keep_attrs=True)
    if isinstance(a, xr.DataArray):
        return a.copy(data=a.data * s)
    if isinstance(a, list):
        return (np.asarray(a) * s).tolist()
    return np.asarray(a * s)


def add(a, b, f=1.0, g=1.0):
    """f*a + g*b with everything else from a"""
    if isinstance(a, xr.Dataset):
        return a.map(lambda v: v.copy(data=f * v.data + g * b[v.name].data), keep_attrs=True)
    if isinstance(a, xr.DataArray):
        return a.copy(data=f * a.data + g * npv(b))
    if isinstance(a, list):
        return [add(x, y, f, g) for x, y in zip(a, b)]
    return np.asarray(f * a + g * b)


def factor(rng, sign=True):
    """(factor, exact?)"""
    if chance(rng, 0.55):
        s = 2.0 ** int(rng.integers(-100, 101)), True
    else:
        s = 10.0 ** int(rng.integers(-30, 31)), False
    return (-s[0], s[1]) if sign and chance(rng, 0.3) else s


def modify(c, args={}, kw={}):
    k = c.map(lambda x: x)
    for i, v in args.items():
        k.args[i] = v
    k.kw.update(kw)
    return k


def variants(name, c, rng):
    """[(what is scaled, call, {result power or (coord, power)})] for the units of a call"""
    fn = c.fn.__name__
    A, K = c.args, c.kw
    s, exact = factor(rng)
    if fn.startswith('eofunc'):        # nearly equal eigenvalues: no rounding
        s, exact = 2.0 ** int(rng.integers(-100, 101)), True
    p = abs(s)
    if name.split('.')[0] in AVERAGES + ('climate_anomaly', 'fourier', 'gradient', 'interp_sigma_to_hybrid', 'decomposition', 'recomposition'):
        out = [('the data', modify(c, {0: mul(A[0], s)}), s, {})]
        if fn == 'decomposition':
            out.append(('the areas', modify(c, {1: mul(A[1], p)}), 1, {}))
        if fn == 'interp_sigma_to_hybrid':
            out.append(('the pressures', modify(c, {2: mul(A[2], p)}, {'p0': K.get('p0', 1e5) * p}), 1, {}))
        return out, exact
    if fn == 'interp_multidim':
        kw = {}
        if 'missing_val' in K:
            kw['missing_val'] = K['missing_val'] * s
        if not isinstance(K['fill_value'], str):
            kw['fill_value'] = K['fill_value'] * s
        return [('the data', modify(c, {0: mul(A[0], s)}, kw), s, {})], exact
    if fn == 'interp_hybrid_to_pressure':
        out = [('the pressures', modify(c, {1: mul(A[1], p)}, {'p0': K.get('p0', 1e5) * p, 'new_levels': K['new_levels'] * p}), 1, {'plev': p})]
        if K.get('variable') not in ('temperature', 'geopotential'):
            out.append(('the data', modify(c, {0: mul(A[0], s)}), s, {}))
        return out, exact
    if fn in ('pressure_at_hybrid_levels', 'delta_pressure_hybrid'):
        return [('the pressures', modify(c, {0: mul(A[0], p)}, {'p0': K.get('p0', 1e5) * p}), p, {}),
                ('the coefficients', modify(c, {1: mul(A[1], p), 2: mul(A[2], p)}), p, {})], exact
    if fn in ('delta_pressure', 'dpres_plev'):
        kw = {'pressure_top': K['pressure_top'] * p} if 'pressure_top' in K else {}
        return [('the pressures', modify(c, {0: mul(A[0], p), 1: mul(A[1], p)}, kw), p, {'lev': p})], exact
    if fn == 'nmse':
        return [('both fields', modify(c, {0: mul(A[0], s), 1: mul(A[1], s)}), 1, {})], exact
    if fn == 'pearson_r':
        q, e2 = factor(rng)
        out = [('each field', modify(c, {0: mul(A[0], s), 1: mul(A[1], q)}), np.sign(s) * np.sign(q), {})]
        if 'weights' in K:
            out.append(('the weights', modify(c, {}, {'weights': mul(K['weights'], p)}), 1, {}))
        return out, exact and e2
    if fn in ('eofunc_eofs', 'eofunc'):
        o = {0: 1, 1: 1 / p, 2: p}[K.get('eofscaling', 0)]
        at = {'eigenvalues': p * p, 'totalAnomalyVariance': p * p, 'varianceFraction': 1, 'northTest': 1 if K.get('vfscaled') else p * p}
        return [('the data', modify(c, {0: mul(A[0], p)}), o, {'attrs': at})], exact
    if fn in ('eofunc_pcs', 'eofunc_ts'):
        return [('the data', modify(c, {0: mul(A[0], p)}), {0: p, 1: 1, 2: p * p}[K.get('pcscaling', 0)], {})], exact
    if fn == 'psychrometric_constant':
        return [('the pressure', modify(c, {0: mul(A[0], s)}), s, {})], exact
    if fn in ('relhum', 'relhum_ice', 'relhum_water'):
        p = 2.0 ** int(rng.integers(-6, 7)) if fn == 'relhum' else p
        return [('the mixing ratio', modify(c, {1: mul(A[1], p)}), p, {})], exact
    raise AssertionError(fn)


LOOSE = ('eofunc_eofs', 'eofunc_pcs', 'eofunc', 'eofunc_ts', 'nmse', 'pearson_r', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'decomposition', 'recomposition')


def values(r):
    return [npv(o) for _, o in parts(r)]


def units(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = c.fn.__name__
    want = ctx.call(c.fn, *c.args, **c.kw)
    vs, exact = variants(name, c, rng)
    what, k, s, extra = vs[int(rng.integers(len(vs)))]
    ctx.note(entry=name, scaled=what, factor=f'1e{6 * round(np.log10(abs(s)) / 6) if s else 0:+d}')
    got = ctx.call(k.fn, *k.args, **k.kw)
    tol = 1e-7 if fn.startswith('eofunc') else 1e-9 if fn in LOOSE or not exact else 1e-13
    A, B = parts(got), parts(want)
    ctx.ok([l for l, _ in A] == [l for l, _ in B], f'{fn} with {what} multiplied by {s:g}: structure changes')
    for (l, x), (_, y) in zip(A, B):
        vx, vy = npv(x), npv(y)
        lab = f'{fn}{l} with {what} in another unit (result expected {s:g} times)'
        ctx.ok(type(x) is type(y) and vx.dtype == vy.dtype, f'{lab}: {type(x).__name__} of {vx.dtype}, expected {type(y).__name__} of {vy.dtype}')
        if fn.startswith('eofunc'):        # the sign of a mode is arbitrary
            sign = np.sign(np.nansum(vx * vy * s, axis=tuple(range(1, vy.ndim)), keepdims=True))
            vx = vx * np.where(sign == 0, 1, sign)
        if fn == 'relhum':
            m = (vy > 1e-3) & (vy * s > 1e-3)
            vx, vy = np.where(m, vx, 0), np.where(m, vy, 0)
        if vy.dtype.kind not in 'fc':
            ctx.ok(np.array_equal(vx, vy), f'{lab}: values differ')
            continue
        e = vy * s
        f = np.abs(e[np.isfinite(e)])
        ctx.close(vx, e, lab, rtol=tol, scale=f.max() if f.size else 1.0)
        if isinstance(y, xr.DataArray):
            ctx.ok(x.dims == y.dims and set(x.coords) == set(y.coords), f'{lab}: dimensions or coordinates change')
            for d in y.coords:
                cx, cy = npv(x[d]), npv(y[d])
                if cy.dtype.kind == 'f':
                    ctx.close(cx, cy * extra.get(d, 1), f'{lab}: coordinate {d}', rtol=1e-9)
                else:
                    ctx.ok(cx.shape == cy.shape and bool((cx == cy).all()), f'{lab}: coordinate {d} changes')
            for a, g in extra.get('attrs', {}).items():
                ctx.close(npv(x.attrs[a]), npv(y.attrs[a]) * g, f'{lab}: {a}', rtol=1e-7, scale=float(np.max(np.abs(npv(y.attrs[a])))) * g)


LINEAR = [n for n in NAMES if n.split('.')[0] in AVERAGES + ('climate_anomaly', 'fourier', 'gradient', 'interp_hybrid_to_pressure', 'interp_sigma_to_hybrid', 'interp_multidim',
                                                              'decomposition', 'recomposition', 'pressure_at_hybrid_levels')]


def linear_call(name, rng):
    for _ in range(30):
        c = CATALOG[name](rng)
        K = c.kw
        if K.get('variable') in ('temperature', 'geopotential') or 'missing_val' in K:
            continue
        if c.fn is gc.interp_multidim and not isinstance(K['fill_value'], str):
            c.kw['fill_value'] = np.nan
        return c
    raise Reject()


def superposition(ctx, name):
    rng = ctx.rng
    c = linear_call(name, rng)
    fn = c.fn.__name__
    args = (1, 2) if fn in ('pressure_at_hybrid_levels', 'delta_pressure_hybrid') else (0,)
    f, g = rng.uniform(-3, 3, 2)
    big = 10.0 ** rng.uniform(-3, 3)

    def like(v):
        n = npv(v)
        w = big * rng.standard_normal(n.shape)
        if n.dtype.kind == 'c':
            w = w + 1j * big * rng.standard_normal(n.shape)
        if fn not in ('recomposition', 'pressure_at_hybrid_levels', 'delta_pressure_hybrid') and chance(rng, 0.4):
            w = np.where(rng.random(n.shape) < 0.5, 0, w)          # zeros, a spike
        return w
    other, total = {}, {}
    for i in args:
        a = c.args[i]
        other[i] = a.map(lambda v: v.copy(data=like(v)), keep_attrs=True) if isinstance(a, xr.Dataset) else a.copy(data=like(a)) if isinstance(a, xr.DataArray) else like(a)
        total[i] = add(a, other[i], f, g)
    ctx.note(entry=name)
    x, y = modify(c, other), modify(c, total)
    r = [ctx.call(k.fn, *k.args, **k.kw) for k in (c, x, y)]
    for (l, a), (_, b), (_, t) in zip(*map(parts, r)):
        va, vb, vt = npv(a), npv(b), npv(t)
        m = [np.abs(q[np.isfinite(q)]) for q in (f * va, g * vb)]
        sc = max([q.max() for q in m if q.size] or [1.0])
        if fn == 'climate_anomaly' or name.startswith('fourier'):
            sc = max(sc, *[float(np.nanmax(np.abs(npv(o)))) for i in args for o in [z for q in (c.args[i], other[i]) for _, z in parts(q)]]) * max(abs(f), abs(g))
        ctx.close(vt, f * va + g * vb, f'{fn}{l} of {f:.3g} times one field plus {g:.3g} times another', rtol=1e-9, scale=sc)


CONSTANT = [n for n in LINEAR if n.split('.')[0] not in ('decomposition', 'recomposition', 'pressure_at_hybrid_levels')]


def constant(ctx, name):
    rng = ctx.rng
    c = linear_call(name, rng)
    fn = c.fn.__name__
    k = float(pick(rng, [0.0, 1.0, rng.normal(), 273.15, *(rng.uniform(-9, 9) * 10.0 ** rng.integers(-15, 16) for _ in range(3))]))
    a = c.args[0]
    flat = lambda v: np.full(npv(v).shape, k)
    b = a.map(lambda v: v.copy(data=flat(v)), keep_attrs=True) if isinstance(a, xr.Dataset) else a.copy(data=flat(a)) if isinstance(a, xr.DataArray) else flat(a)
    r = ctx.call(c.fn, b, *c.args[1:], **c.kw)
    ref = ctx.call(c.fn, *c.args, **c.kw)
    zero = fn in ('climate_anomaly', 'gradient', 'fourier_high_pass', 'fourier_band_pass') or c.kw.get('band_pass')
    e = 0.0 if zero else k
    ctx.note(entry=name, function=fn, constant='zero' if k == 0 else f'1e{6 * round(np.log10(abs(k)) / 6):+d}')
    for (l, x), (_, y) in zip(parts(r), parts(ref)):
        vx, vy = npv(x), npv(y)
        if vy.dtype.kind not in 'f':
            continue
        w = np.where(np.isnan(vy), np.nan, e)
        ctx.close(vx, w, f'{fn}{l} of the constant {k:g}', rtol=1e-11, scale=abs(k) if k else 1e-300)


WORKLOADS = {f'units.{n}': ((lambda ctx, n=n: units(ctx, n)), 24, 300) for n in NAMES}
WORKLOADS.update({f'superposition.{n}': ((lambda ctx, n=n: superposition(ctx, n)), 10, 120) for n in LINEAR})
WORKLOADS.update({f'constant.{n}': ((lambda ctx, n=n: constant(ctx, n)), 8, 100) for n in CONSTANT})


def psi(ctx):
    """The streamfunction of a scaled wind, of a sum of winds, and with all pressures in another unit."""
    from . import c22
    rng = ctx.rng
    c = c22.case(rng)
    want = ctx.call(c.fn, c.ds, lat=c.lat, **c.kw)
    s, exact = factor(rng)
    top = float(np.nanmax(np.abs(want.values))) if np.isfinite(want.values).any() else 1.0

    def wind(v):
        d = c.ds.copy()
        d[c.vn] = c.ds[c.vn].copy(data=v)
        return d
    V = c.ds[c.vn].values
    got = ctx.call(c.fn, wind(V * s), lat=c.lat, **c.kw)
    ctx.note(entry='psi', scaled='wind', hybrid=c.hybrid)
    ctx.close(got, want.values * s, f'{c.fn.__name__} of the wind times {s:g}', rtol=1e-9, scale=top * abs(s))
    W = rng.standard_normal(V.shape) * 10
    f, g = rng.uniform(-3, 3, 2)
    a, b = ctx.call(c.fn, wind(W), lat=c.lat, **c.kw), ctx.call(c.fn, wind(f * V + g * W), lat=c.lat, **c.kw)
    sc = max(top * abs(f), float(np.nanmax(np.abs(a.values))) * abs(g) if np.isfinite(a.values).any() else 0, 1.0)
    ctx.close(b, f * want.values + g * a.values, f'{c.fn.__name__} of a weighted sum of winds', rtol=1e-9, scale=sc)
    if not c.hybrid:
        p = 2.0 ** int(rng.integers(-40, 41))
        d = c.ds.copy()
        d[c.pn] = c.ds[c.pn].copy(data=c.ds[c.pn].values * p)
        d = d.assign_coords({c.lev: (c.lev, c.ds[c.lev].values * p, c.ds[c.lev].attrs)})
        got = ctx.call(c.fn, d, lat=c.lat, **c.kw)
        ctx.close(got, want.values * p, f'{c.fn.__name__} with the pressures times {p:g}', rtol=1e-9, scale=top * p)
        ctx.close(got['plev'], want['plev'].values * p, 'levels in another unit', rtol=1e-12)


def prepare():
    from . import c22
    c22.prepare()


WORKLOADS['psi'] = (psi, 12, 150)
