"""C37 calls on fields read from files, and results written to files or pickled."""
import copy, os, pickle, shutil, tempfile, warnings
import cftime
import numpy as np, xarray as xr
from ..gen import pick, chance
from ..catalog import CATALOG
from ..compare import same, parts

RELAYOUT = False
QUICK = 1
ID = 'C37'
RULE = ('Every public function that takes data arrays, with every argument written to a netCDF file of its own (double precision, packed integers, compressed and chunked; all or only some '
        'arguments) and opened lazily, loaded, or pickled and restored; oracle: the same call on plain data arrays of the same numbers. The result is then written to a file, or '
        'pickled, and what is read back is compared with it: values, dimensions, coordinates, attributes, also after the source file is closed.')
ASSUMPTIONS = ['times are written as whole numbers of a unit that holds them exactly', 'EOF results are not written to files as they carry data arrays as attributes, and complex coefficients not either',
               'netCDF4 files only, no dask']

NAMES = [n for n in CATALOG if n.endswith('.x') or n.split('.')[0] in ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season', 'nmse', 'interp_hybrid_to_pressure',
                                                                       'interp_sigma_to_hybrid')]
NAMES = [n for n in NAMES if not n.endswith(('.n', '.l'))]
MIXED = ('calendar_average', 'climatology_average', 'climate_anomaly', 'month_to_season')


def encoding(rng, ds):
    how = pick(rng, ['plain', 'packed', 'compressed', 'single'])
    e = {}
    for k, v in ds.data_vars.items():
        if v.dtype.kind == 'f':
            if how == 'packed':
                lo, hi = float(v.min()), float(v.max())
                e[k] = dict(dtype='int16', scale_factor=(hi - lo) / 60000 or 1.0, add_offset=(hi + lo) / 2, _FillValue=-32768)
            elif how == 'compressed' and v.ndim:
                e[k] = dict(zlib=True, complevel=1, shuffle=True, chunksizes=tuple(int(rng.integers(1, n + 1)) for n in v.shape))
            elif how == 'single':
                e[k] = dict(dtype='float32')
    for k in ds.variables:
        v = ds[k]
        if v.dtype.kind == 'M' or times(v):
            e[k] = dict(units=pick(rng, ['hours since 1900-01-01', 'minutes since 1850-01-01 00:00:00']), dtype='int64')
    return e, how


def times(v):
    return v.dtype == object and v.size and isinstance(np.asarray(v.values).flat[0], cftime.datetime)


def cf(a):
    """Whether times are cftime objects."""
    return any(times(v) for v in (a.variables if isinstance(a, xr.Dataset) else {**a.coords, '': a}).values())


def compl(a):
    return isinstance(a, xr.DataArray) and a.dtype.kind == 'c'


def opener(path, a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ds = xr.open_dataset(path, decode_times=xr.coders.CFDatetimeCoder(use_cftime=cf(a)), engine='netcdf4')
    if isinstance(a, xr.Dataset):
        return ds
    o = ds['gcv_field']
    return o.rename(a.name)


def store(rng, d, i, a):
    ds = a if isinstance(a, xr.Dataset) else a.to_dataset(name='gcv_field')
    e, how = encoding(rng, ds)
    p = os.path.join(d, f'{i}.nc')
    ds.to_netcdf(p, encoding=e, engine='netcdf4')
    return p, how


def bare(a):
    a = a.load().copy(deep=True)
    return a.drop_encoding()


def through(ctx, r, d, what):
    """The result is the same after being stored."""
    for l, o in ([('', r)] if isinstance(r, (xr.Dataset, xr.DataArray)) else parts(r)):
        if not isinstance(o, (xr.Dataset, xr.DataArray)) or compl(o):
            continue
        p = os.path.join(d, f'result{l}.nc')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                o.to_netcdf(p, engine='netcdf4')
        except Exception as e:
            ctx.ok(False, f'{what}{l} cannot be written: {type(e).__name__}: {str(e)[:200]}')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            opn = xr.open_dataset if isinstance(o, xr.Dataset) else xr.open_dataarray
            with opn(p, decode_times=xr.coders.CFDatetimeCoder(use_cftime=cf(o)), engine='netcdf4') as f:
                b = f.load()
        same(ctx, b, o, f'{what}{l} read back', rtol=1e-15)


def run(ctx, name):
    rng = ctx.rng
    c = CATALOG[name](rng)
    fn = c.fn.__name__
    how = pick(rng, ['lazy', 'lazy', 'loaded', 'pickled'])
    ctx.note(entry=name, function=fn, how=how)
    p = pick(rng, [1.0, 0.6])
    if c.poison is not None and isinstance(c.args[c.poison], xr.DataArray) and chance(rng, 0.3):
        a = c.args[c.poison]
        v = a.values.astype(float)
        v[rng.random(v.shape) < 0.1] = np.nan
        c.args[c.poison] = a.copy(data=v)
    if chance(rng, 0.7):
        c = c.map(lambda a: a.rename(f'v{int(rng.integers(100))}') if isinstance(a, xr.DataArray) and a.name is None else a)
    d = tempfile.mkdtemp(prefix='gcv37.')
    opened = []
    try:
        n, plain, given = 0, {}, {}
        for k, a in c.everything():
            plain[k] = given[k] = a
            if isinstance(a, (xr.DataArray, xr.Dataset)) and not compl(a) and chance(rng, p):
                path, enc = store(rng, d, n, a)
                n += 1
                ctx.note(encoding=enc)
                plain[k] = bare(opener(path, a))
                o = opener(path, a)
                opened.append(o)
                given[k] = o if how == 'lazy' else o.load() if how == 'loaded' else pickle.loads(pickle.dumps(o.load(), protocol=int(rng.integers(2, 6))))
        one, two = c.map(lambda a: a), c.map(lambda a: a)
        for call, src in ((one, plain), (two, given)):
            call.args = [src[i] for i in range(len(c.args))]
            call.kw = {k: src[k] for k in c.kw}
        want = one()
        got = ctx.call(two.fn, *two.args, **two.kw)
        same(ctx, got, want, f'{fn} of {how} input', rtol=1e-11)
        for f in opened:
            f.close()
        same(ctx, got, want, f'{fn} after the file is closed', rtol=1e-11)
        if not fn.startswith('eofunc'):
            through(ctx, got, d, f'{fn} of {how} input')
        for what, b in (('pickled', pickle.loads(pickle.dumps(got))), ('copied', copy.deepcopy(got))):
            same(ctx, b, got, f'{fn}, result {what}', exact=True)
    finally:
        for f in opened:
            f.close()
        shutil.rmtree(d, ignore_errors=True)


WORKLOADS = {}
for _n in NAMES:
    WORKLOADS[_n] = ((lambda ctx, n=_n: run(ctx, n)), 28, 300)
