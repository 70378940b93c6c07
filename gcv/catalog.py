"""One generator of valid calls per public function and container, for the properties that quantify over the whole interface."""
import datetime
import numpy as np, xarray as xr
import geocat.comp as gc
from .gen import span, pick, chance, stamps
from .vert import coefficients


class Call:
    def __init__(self, fn, args, kw=None, points=(), poison=None, exact=True):
        self.fn, self.args, self.kw = fn, list(args), dict(kw or {})
        self.points = tuple(points)      # dims over which the function acts point by point (or column by column)
        self.poison = poison             # index of the argument in which missing values are allowed
        self.exact = exact

    def everything(self):
        return list(enumerate(self.args)) + list(self.kw.items())

    def map(self, f):
        c = Call(self.fn, [f(a) for a in self.args], {k: f(v) for k, v in self.kw.items()}, self.points, self.poison, self.exact)
        return c

    def __call__(self):
        return self.fn(*self.args, **self.kw)


CATALOG = {}


def entry(name):
    def deco(f):
        CATALOG[name] = f
        return f
    return deco


def fld(rng, shape, loc=0.0, sc=1.0):
    return loc + sc * rng.standard_normal(shape)


def rand_space(rng, n=2, lo=1, hi=4):
    dims = ['lat', 'lon'][:n]
    return {d: int(v) for d, v in zip(dims, rng.integers(lo, hi + 1, n))}


def da(v, dims, co=None, **attrs):
    return xr.DataArray(v, dims=dims, coords={k: c for k, c in (co or {}).items() if k in dims}, attrs=attrs)


def spatial_coords(space):
    return {d: np.linspace(-50, 60, n) if n > 1 else np.array([7.0]) for d, n in space.items()}


# ---------------------------------------------------------------- climatologies
def series(rng, kind, years=None):
    cal = pick(rng, ['np', 'np', 'np', 'noleap', '360_day', 'standard'])
    if kind == 'monthly':
        n = 12 * (years or int(rng.integers(2, 5)))
        day = pick(rng, [1, 15])
        t = stamps(cal, (int(rng.integers(1950, 2050)), 1, day), n, ('M', 1, day))
    elif kind == 'daily':
        n = int(rng.integers(400, 900))
        t = stamps(cal, (int(rng.integers(1950, 2050)), int(rng.integers(1, 13)), 3), n, datetime.timedelta(days=1))
    else:
        n = int(rng.integers(60, 200))
        t = stamps(cal, (int(rng.integers(1950, 2050)), int(rng.integers(1, 13)), 3), n, datetime.timedelta(hours=3))
    return t


def climo_call(fn, freqs, kind):
    def build(rng):
        t = series(rng, kind)
        space = rand_space(rng, int(rng.integers(0, 3)))
        dims = list(space)
        ax = int(rng.integers(len(dims) + 1))
        dims.insert(ax, 'time')
        shape = [len(t) if d == 'time' else space[d] for d in dims]
        v = fld(rng, shape, 280, 10)
        co = dict(spatial_coords(space), time=t)
        a = da(v, dims, co, units='K')
        a.name = 'T'
        if chance(rng, 0.3):
            a = xr.Dataset({'T': a, 'Q': a * 2 + 1}, attrs={'title': 'x'})
        kw = {}
        if fn is gc.month_to_season:
            args = [a, pick(rng, ['DJF', 'MAM', 'JJA', 'SON', 'NDJ', 'AMJ'])]
        else:
            args = [a, pick(rng, freqs)]
            if fn is gc.climatology_average and args[1] == 'season' and kind == 'monthly' and chance(rng, 0.5):
                kw['custom_seasons'] = [str(q) for q in rng.permutation(['NDJ', 'JFM', 'ASO', 'MJJ'])[:int(rng.integers(1, 4))]]
        if chance(rng, 0.6):
            kw['keep_attrs'] = pick(rng, [True, False, None])
        if chance(rng, 0.3):
            kw['time_coord_name' if fn is gc.month_to_season else 'time_dim'] = 'time'
        return Call(fn, args, kw, points=tuple(space), poison=0)
    return build


for _f in (gc.calendar_average, gc.climatology_average, gc.climate_anomaly):
    CATALOG[_f.__name__ + '.monthly'] = climo_call(_f, ['month', 'season', 'year'] if _f is not gc.climatology_average else ['month', 'season'], 'monthly')
    CATALOG[_f.__name__ + '.daily'] = climo_call(_f, ['day', 'month', 'season', 'year'] if _f is not gc.climatology_average else ['day', 'month', 'season'], 'daily')
    CATALOG[_f.__name__ + '.hourly'] = climo_call(_f, ['hour', 'day', 'month'] if _f is not gc.climate_anomaly else ['day', 'month'], 'hourly')
CATALOG['month_to_season.monthly'] = climo_call(gc.month_to_season, None, 'monthly')


# ---------------------------------------------------------------- Fourier
def fourier(container):
    def build(rng):
        n = int(rng.integers(16, 120))
        space = rand_space(rng, int(rng.integers(0, 3)))
        dims = list(space)
        ax = int(rng.integers(len(dims) + 1))
        dims.insert(ax, 'time')
        v = fld(rng, [n if d == 'time' else space[d] for d in dims])
        fn, nc = pick(rng, [(gc.fourier_low_pass, 1), (gc.fourier_high_pass, 1), (gc.fourier_band_pass, 2), (gc.fourier_band_block, 2), (gc.fourier_filter, 0)])
        f = float(pick(rng, [1.0, 10.0, 24.0]))
        c = sorted((rng.uniform(0.05, 0.45, 2) * f).tolist())
        if container == 'x':
            v = da(v, dims, {**spatial_coords(space), 'time': np.arange(n) * 1.0}, units='m')
        if nc == 0:
            kw = {'cutoff_frequency_low': c[0], 'cutoff_frequency_high': c[1], pick(rng, ['band_pass', 'band_block']): True, 'time_axis': ax}
            return Call(fn, [v, f], kw, points=tuple(space))
        return Call(fn, [v, f] + c[:nc], {'time_axis': ax}, points=tuple(space))
    return build


CATALOG['fourier.x'], CATALOG['fourier.n'] = fourier('x'), fourier('n')


# ---------------------------------------------------------------- gradient
def gradient(container):
    def build(rng):
        ny, nx = int(rng.integers(3, 9)), int(rng.integers(3, 9))
        lead = [(), ('time',), ('time', 'lev')][int(rng.integers(3))]
        ls = tuple(int(v) for v in rng.integers(1, 4, len(lead)))
        lat = np.linspace(rng.uniform(-80, -10), rng.uniform(10, 80), ny)
        lon = np.linspace(0, 200, nx)
        if chance(rng, 0.3):
            lat = lat[::-1].copy()
        if chance(rng, 0.2):
            lon = lon[::-1].copy()
        v = fld(rng, ls + (ny, nx))
        co = {d: np.arange(n) for d, n in zip(lead, ls)}
        if chance(rng, 0.3):          # curvilinear grid
            lo2, la2 = np.meshgrid(lon, lat)
            lo2 = lo2 + rng.uniform(-2, 2, lo2.shape)
            if container == 'n':
                return Call(gc.gradient, [v, lo2, la2], points=(), poison=0)
            a = xr.DataArray(v, dims=lead + ('y', 'x'), coords={**co, 'lat': (('y', 'x'), la2), 'lon': (('y', 'x'), lo2)}, attrs={'units': 'K'})
            return Call(gc.gradient, [a], points=lead, poison=0)
        if container == 'x':
            a = da(v, lead + ('lat', 'lon'), {'lat': lat, 'lon': lon, **co}, units='K')
            return Call(gc.gradient, [a], points=lead, poison=0)
        return Call(gc.gradient, [v, lon, lat], points=(), poison=0)
    return build


CATALOG['gradient.x'], CATALOG['gradient.n'] = gradient('x'), gradient('n')


@entry('wgs84.n')
def _wgs(rng):
    f = pick(rng, [gc._rad_lat_wgs84, gc._arc_lat_wgs84, gc._arc_lon_wgs84])
    lat = rng.uniform(-89, 89, int(rng.integers(1, 20)))
    if f is gc._arc_lon_wgs84:
        return Call(f, [rng.uniform(0, 360, lat.size), lat])
    return Call(f, [lat])


@entry('wgs84.x')
def _wgsx(rng):
    c = _wgs(rng)
    return Call(c.fn, [da(a, ['pt'], {'pt': np.arange(a.size)}) for a in c.args], points=('pt',), poison=0)


# ---------------------------------------------------------------- vertical
def column_fields(rng, nlev=None):
    nlev = nlev or int(rng.integers(4, 20))
    a, b = coefficients(rng, nlev)
    if chance(rng, 0.3):
        a, b = a[::-1].copy(), b[::-1].copy()
    space = rand_space(rng, 2)
    space = {'time': int(rng.integers(1, 4)), **space}
    outer = ['time', 'lat', 'lon'] if chance(rng, 0.5) else pick(rng, [[], ['time'], ['lon'], ['lat', 'lon'], ['time', 'lat']])
    dims = list(outer)
    dims.insert(min(1, len(dims)) if chance(rng, 0.6) else int(rng.integers(len(dims) + 1)), 'lev')
    co = {**spatial_coords({d: space[d] for d in outer if d != 'time'}), 'lev': np.arange(nlev) * 10.0 + 5}
    if 'time' in outer:
        co['time'] = np.arange(space['time']) * 1.0
    space['lev'] = nlev
    v = fld(rng, tuple(space[d] for d in dims), 270, 15)
    ps = rng.uniform(50000, 104000, tuple(space[d] for d in outer))
    return (da(v, dims, co, units='K', long_name='Temperature'), da(ps, outer, co, units='Pa'),
            da(a, ['lev'], co), da(b, ['lev'], co), co)


@entry('interp_hybrid_to_pressure.x')
def _h2p(rng):
    v, ps, a, b, co = column_fields(rng)
    pl = np.sort(rng.uniform(3000, 103000, int(rng.integers(2, 9))))[::-1].copy()
    kw = {'lev_dim': 'lev', 'new_levels': pl, 'method': pick(rng, ['linear', 'log'])}
    ex = pick(rng, [None, None, 'temperature', 'geopotential', 'other'])
    if ex:
        kw.update(extrapolate=True, variable=ex)
        if ex != 'other':
            kw['t_bot'] = ps * 0 + rng.uniform(230, 310, ps.shape)
            kw['phi_sfc'] = ps * 0 + rng.uniform(10, 40000, ps.shape)
    if chance(rng, 0.3):
        kw['p0'] = float(pick(rng, [100000.0, 101325.0]))
    return Call(gc.interp_hybrid_to_pressure, [v, ps, a, b], kw, points=ps.dims, poison=0)


@entry('interp_sigma_to_hybrid.x')
def _s2h(rng):
    v, ps, a, b, co = column_fields(rng)
    n = v.sizes['lev']
    sig = np.linspace(rng.uniform(0.01, 0.1), rng.uniform(0.9, 1), n)
    m = int(rng.integers(3, 15))
    A, B = coefficients(rng, m)
    return Call(gc.interp_sigma_to_hybrid, [v, da(sig, ['lev'], {'lev': co['lev']}), ps, da(A, ['hlev']), da(B, ['hlev'])],
                {'lev_dim': 'lev', 'method': pick(rng, ['linear', 'log']), **pick(rng, [{}, {'p0': 101325.0}])}, points=ps.dims, poison=0)


@entry('pressure_at_hybrid_levels.x')
def _pah(rng):
    v, ps, a, b, co = column_fields(rng)
    return Call(gc.pressure_at_hybrid_levels, [ps, a, b], pick(rng, [{}, {'p0': 101325.0}]), points=ps.dims, poison=0)


@entry('pressure_at_hybrid_levels.n')
def _pahn(rng):
    v, ps, a, b, co = column_fields(rng)
    return Call(gc.pressure_at_hybrid_levels, [ps.values, a.values, b.values], pick(rng, [{}, {'p0': 101325.0}]), poison=0)


@entry('delta_pressure_hybrid.x')
def _dph(rng):
    v, ps, a, b, co = column_fields(rng)
    a, b = a.rename(lev='ilev'), b.rename(lev='ilev')
    return Call(gc.delta_pressure_hybrid, [ps, a, b], pick(rng, [{}, {'p0': 101325.0}]), points=ps.dims, poison=0)


@entry('delta_pressure_hybrid.n')
def _dphn(rng):
    v, ps, a, b, co = column_fields(rng)
    return Call(gc.delta_pressure_hybrid, [ps.values, a.values, b.values], pick(rng, [{}, {'p0': 101325.0}]), poison=0)


def delta(container):
    def build(rng):
        n = int(rng.integers(2, 12))
        p = np.linspace(rng.uniform(100, 5000), 100000, n)
        if chance(rng, 0.5):
            p = p[::-1].copy()
        dims = ['lat', 'lon'] if chance(rng, 0.5) else pick(rng, [['lat'], ['time', 'lat', 'lon']])
        ps = rng.uniform(40000, 104000, tuple(int(v) for v in rng.integers(1, 5, len(dims))))
        kw = {'pressure_top': float(rng.uniform(0, 90))} if chance(rng, 0.4) else {}
        if container == 'n':
            return Call(pick(rng, [gc.delta_pressure, gc.dpres_plev]), [p, ps], kw)
        co = {d: np.linspace(-40, 40, k) for d, k in zip(dims, ps.shape)}
        return Call(pick(rng, [gc.delta_pressure, gc.dpres_plev]), [da(p, ['plev'], {'plev': p}, units='Pa'), da(ps, dims, co, units='Pa')], kw,
                    points=tuple(dims))
    return build


CATALOG['delta_pressure.x'], CATALOG['delta_pressure.n'] = delta('x'), delta('n')


# ---------------------------------------------------------------- interp_multidim
def multidim(container):
    def build(rng):
        ny, nx = int(rng.integers(3, 9)), int(rng.integers(3, 9))
        lead = [(), ('time',), ('time', 'lev')][int(rng.integers(3))]
        ls = tuple(int(v) for v in rng.integers(1, 4, len(lead)))
        lat, lon = np.linspace(-60, 60, ny), np.arange(nx) * 360.0 / nx
        v = fld(rng, ls + (ny, nx))
        la, lo = rng.uniform(-70, 70, int(rng.integers(1, 6))), rng.uniform(0, 360, int(rng.integers(1, 6)))
        kw = {'cyclic': chance(rng, 0.5), 'method': pick(rng, ['linear', 'nearest']), 'fill_value': pick(rng, [np.nan, -99.0])}
        if chance(rng, 0.2):
            kw['fill_value'] = 'extrapolate'
        if chance(rng, 0.3) and kw['method'] == 'linear':
            kw['missing_val'] = -999.0
            v.flat[int(rng.integers(v.size))] = -999.0
        if container == 'x':
            a = da(v, lead + ('lat', 'lon'), {'lat': lat, 'lon': lon, **{d: np.arange(n) for d, n in zip(lead, ls)}}, units='K')
            return Call(gc.interp_multidim, [a, la, lo], kw, points=lead, poison=0 if kw['method'] == 'linear' else None)
        return Call(gc.interp_multidim, [v, la, lo], {**kw, 'lat_in': lat, 'lon_in': lon})
    return build


CATALOG['interp_multidim.x'], CATALOG['interp_multidim.n'] = multidim('x'), multidim('n')


# ---------------------------------------------------------------- meteorology
def pointwise(fn, gens, nan=True, kws=({},)):
    def make(container):
        def build(rng):
            rank = int(rng.integers(1, 4))
            dims = ['time', 'lat', 'lon'][-rank:]
            shape = tuple(int(v) for v in rng.integers(1, 6, rank))
            vals = [g(rng, shape) for g in gens]
            if container == 'x':
                co = {d: np.arange(n) * 2.0 for d, n in zip(dims, shape)}
                vals = [da(v, dims, co, orig=i) for i, v in enumerate(vals)]
                return Call(fn, vals, pick(rng, kws), points=dims, poison=0 if nan else None)
            if container == 'l':
                return Call(fn, [v.tolist() for v in vals], pick(rng, kws))
            return Call(fn, vals, pick(rng, kws), poison=0 if nan else None)
        return build
    return make


def u(lo, hi):
    return lambda rng, shape: span(rng, lo, hi, shape, 0.12)


def mostly(a, *others, share=0.3):
    """draws from a, and a share of the arrays point by point, or as a whole, from another range"""
    def g(rng, shape):
        v = a(rng, shape)
        return np.where(rng.random(shape) < pick(rng, [0.15, 0.5, 1.0]), pick(rng, others)(rng, shape), v) if chance(rng, share) else v
    return g


POINTWISE = {
    'dewtemp': pointwise(gc.dewtemp, [mostly(u(220, 320), u(150, 350)), mostly(u(1, 100), u(0.001, 1))]),
    'heat_index': pointwise(gc.heat_index, [mostly(u(30, 115), u(-40, 130)), mostly(u(2, 100), u(0, 15), u(0, 1))], kws=({}, {'alternate_coeffs': True})),
    'relhum': pointwise(gc.relhum, [mostly(u(200, 320), u(120, 420)), mostly(u(1e-5, 0.03), u(0, 1e-9)), u(2e4, 1.05e5)]),
    'relhum_ice': pointwise(gc.relhum_ice, [mostly(u(200, 273), u(150, 300)), u(1e-5, 0.003), u(2e4, 1.05e5)]),
    'relhum_water': pointwise(gc.relhum_water, [mostly(u(250, 310), u(190, 340)), u(1e-5, 0.03), u(2e4, 1.05e5)]),
    'saturation_vapor_pressure': pointwise(gc.saturation_vapor_pressure, [mostly(u(25, 120), u(-60, 180))], kws=({}, {'tfill': -99.0})),
    'actual_saturation_vapor_pressure': pointwise(gc.actual_saturation_vapor_pressure, [mostly(u(25, 100), u(-60, 180))], kws=({}, {'tfill': -99.0})),
    'saturation_vapor_pressure_slope': pointwise(gc.saturation_vapor_pressure_slope, [mostly(u(25, 120), u(-60, 180))], kws=({}, {'tfill': -99.0})),
    'psychrometric_constant': pointwise(gc.psychrometric_constant, [u(50, 105)]),
}
for _n, _m in POINTWISE.items():
    for _c in ('x', 'n', 'l'):
        CATALOG[f'{_n}.{_c}'] = _m(_c)


@entry('max_daylight.n')
def _md(rng):
    return Call(gc.max_daylight, [rng.uniform(1, 366, int(rng.integers(1, 20))), rng.uniform(-54, 54, int(rng.integers(1, 9))) if chance(rng, 0.7) else rng.uniform(-90, 90, int(rng.integers(1, 9)))])


@entry('max_daylight.x')
def _mdx(rng):
    c = _md(rng)
    return Call(c.fn, [da(c.args[0], ['doy'], {'doy': c.args[0]}), da(c.args[1], ['lat'], {'lat': c.args[1]})], points=('doy', 'lat'))


# ---------------------------------------------------------------- spherical
def sphere(rng):
    ny, nx = int(rng.integers(3, 8)), int(rng.integers(3, 9))
    th, ph = np.meshgrid(np.arange(nx) * 2 * np.pi / nx, np.linspace(0.2, 2.9, ny))
    return th, ph


def sph(which, container):
    def build(rng):
        th, ph = sphere(rng)
        N = int(rng.integers(0, 6))
        w = lambda v, d=('lat', 'lon'): da(v, d) if container == 'x' else v
        if which == 'decomposition':
            return Call(gc.decomposition, [w(fld(rng, th.shape)), w(np.sin(ph)), w(th), w(ph)], {'max_harm': N})
        if which == 'recomposition':
            k = (N + 1) * (N + 2) // 2
            return Call(gc.recomposition, [w(rng.standard_normal(k) + 1j * rng.standard_normal(k), ['harmonic']), w(th), w(ph)], {'max_harm': N})
        return Call(gc.scale_voronoi, [w(th), w(ph)])
    return build


for _w in ('decomposition', 'recomposition', 'scale_voronoi'):
    for _c in ('x', 'n'):
        CATALOG[f'{_w}.{_c}'] = sph(_w, _c)


# ---------------------------------------------------------------- statistics
@entry('nmse.x')
def _nmse(rng):
    ny, nx, nt = int(rng.integers(3, 8)), int(rng.integers(3, 8)), int(rng.integers(1, 4))
    co = {'time': np.arange(nt), 'lat': np.linspace(-80, 80, ny), 'lon': np.arange(nx) * 360.0 / nx}
    o, m = fld(rng, (nt, ny, nx)), fld(rng, (nt, ny, nx))
    if chance(rng, 0.3):
        o[:, 0, 0] = np.nan
    o, m = da(o, list(co), co, units='K'), da(m, list(co), co, units='K')
    if chance(rng, 0.3):
        return Call(gc.nmse, [xr.Dataset({'T': o, 'U': o + 1}), xr.Dataset({'T': m, 'U': m + 2})], points=('time',))
    return Call(gc.nmse, [o, m], points=('time',), poison=1)


@entry('pearson_r.x')
def _pr(rng):
    sh = (int(rng.integers(5, 20)), int(rng.integers(1, 5)), int(rng.integers(1, 5)))
    if chance(rng, 0.3):
        sh = sh[:int(rng.integers(1, 3))]
    dims = ['time', 'lat', 'lon'][:len(sh)]
    co = {d: np.arange(n) * 1.0 for d, n in zip(dims, sh)}
    a, b = fld(rng, sh), fld(rng, sh)
    skip = chance(rng, 0.5)
    if skip:
        a[0] = np.nan
    over = ['time'] if chance(rng, 0.6) else dims[:int(rng.integers(1, len(dims) + 1))]
    kw = {'dim': 'time' if over == ['time'] and chance(rng, 0.7) else over, 'skipna': skip, 'keep_attrs': chance(rng, 0.5)}
    if over == dims and chance(rng, 0.5):
        kw.pop('dim')
    if chance(rng, 0.4) and over == ['time']:
        kw['weights'] = da(rng.uniform(0.1, 1, sh[0]), ['time'], co)
    return Call(gc.pearson_r, [da(a, dims, co, units='K'), da(b, dims, co)], kw, points=tuple(d for d in dims if d not in over), poison=1)


@entry('pearson_r.n')
def _prn(rng):
    sh = (int(rng.integers(5, 20)), int(rng.integers(1, 5)), int(rng.integers(1, 5)))[:int(rng.integers(1, 4))]
    ax = int(rng.integers(len(sh)))
    sh = tuple(sh[d] for d in np.roll(np.arange(len(sh)), ax))
    a, b = fld(rng, sh), fld(rng, sh)
    ax = sh.index(max(sh))
    kw = {'axis': ax} if chance(rng, 0.5) else {}
    if chance(rng, 0.5):
        kw['weights'] = rng.uniform(0.1, 1, sh)
    if chance(rng, 0.5):
        a[(slice(None),) * ax + (0,)] = np.nan
        kw['skipna'] = True
    return Call(gc.pearson_r, [a, b], kw)


def eof(which, container):
    def build(rng):
        nt = int(rng.integers(5, 15))
        sh = (nt, int(rng.integers(3, 5)), int(rng.integers(3, 5)), int(rng.integers(3, 4)))
        sh = sh[:3] if chance(rng, 0.6) else pick(rng, [sh[:2], sh])
        v = fld(rng, sh, 0, np.linspace(1, 5, sh[-1]))
        n = int(rng.integers(1, 3))
        dims = ['time', 'lat', 'lon', 'lev'][:len(sh)]
        a = v if container == 'n' else da(v, dims, {d: np.arange(k) * 1.0 for d, k in zip(dims, sh)}, units='K')
        kw = {}
        if which in (gc.eofunc_eofs, gc.eofunc_pcs):
            if chance(rng, 0.4):
                kw['meta'] = True
            if chance(rng, 0.4):
                kw['weights'] = rng.uniform(0.5, 1, sh[1:])
            if chance(rng, 0.3):
                kw['center'] = False
            if chance(rng, 0.3):
                kw['ddof'] = int(rng.integers(0, 2))
        if which is gc.eofunc_eofs:
            if chance(rng, 0.4):
                kw['eofscaling'] = int(rng.integers(0, 3))
            if chance(rng, 0.3):
                kw['vfscaled'] = True
            return Call(which, [a, n], kw)
        if which is gc.eofunc_pcs:
            if chance(rng, 0.4):
                kw['pcscaling'] = int(rng.integers(0, 3))
            return Call(which, [a, n], kw)
        if which is gc.eofunc:
            return Call(which, [a, n], {'time_dim': 0} if chance(rng, 0.5) else {})
        return Call(which, [a, np.zeros((n, 2, 2))], {'time_dim': 0} if chance(rng, 0.5) else {})
    return build


for _f in (gc.eofunc_eofs, gc.eofunc_pcs, gc.eofunc, gc.eofunc_ts):
    for _c in ('x', 'n'):
        CATALOG[f'{_f.__name__}.{_c}'] = eof(_f, _c)
