"""C10 the WGS84 helpers: radius, arc length from the equator, arc length along a parallel."""
import numpy as np, xarray as xr
import geocat.comp as gc
from geocat.comp import _rad_lat_wgs84, _arc_lat_wgs84, _arc_lon_wgs84
from ..gen import pick, chance
from .. import geo

ID = 'C10'
RULE = ('Latitudes over the whole range -90..90 (dense, random, poles and equator) and longitudes -1000..1000 as scalars, '
        'float64/float32/int arrays of any rank and data arrays; the oracle integrates the radius by Gauss quadrature.')
ASSUMPTIONS = ['0.01 mm of tolerance on float64 input']


def lats(rng):
    kind = pick(rng, ['random', 'random', 'grid', 'ends', 'int', 'f4', 'tiny'])
    shape = pick(rng, [(int(rng.integers(1, 60)),), (int(rng.integers(1, 12)), int(rng.integers(1, 12)))])
    if kind == 'grid':
        v = np.linspace(-90, 90, int(rng.integers(2, 400)))
    elif kind == 'ends':
        v = np.array(list(rng.permutation([-90.0, 0.0, 90.0, 89.999999, -89.5, 1e-9])))
    elif kind == 'int':
        v = rng.integers(-90, 91, shape)
        if chance(rng, 0.5):
            v = v.astype('i4')
    elif kind == 'f4':
        v = rng.uniform(-90, 90, shape).astype('f4')
    elif kind == 'tiny':
        v = rng.uniform(-1, 1, shape) * 1e-4
    else:
        v = rng.uniform(-90, 90, shape)
    return kind, v


def run(ctx):
    rng = ctx.rng
    kind, v = lats(rng)
    cont = pick(rng, ['array', 'array', 'scalar', 'xarray'])
    x = v if cont == 'array' else v.ravel()[0] if cont == 'scalar' else xr.DataArray(v)
    if cont == 'scalar':
        x = int(x) if kind == 'int' else float(x)
        v = np.asarray(x)
    ctx.note(kind=kind, container=cont)
    w = np.asarray(v, float)
    ctx.close(ctx.call(_rad_lat_wgs84, x), geo.radius(w), 'radius', rtol=0, atol=1e-5)
    s = ctx.call(_arc_lat_wgs84, x)
    ctx.close(s, geo.arc_lat(w), 'meridional arc length', rtol=0, atol=1e-5)
    ctx.close(ctx.call(_arc_lat_wgs84, -x), -np.asarray(s), 'arc length is odd', rtol=0, atol=1e-5)
    ctx.close(ctx.call(_rad_lat_wgs84, -x), geo.radius(w), 'radius is even', rtol=0, atol=1e-5)
    lon = rng.uniform(-1, 1, np.shape(v)) * pick(rng, [10, 180, 360, 360, 1000])
    lon = lon.astype(int) if kind == 'int' else lon
    lo = lon if cont == 'array' else np.ravel(lon)[0] if cont == 'scalar' else xr.DataArray(lon)
    want = geo.radius(w) * np.cos(np.deg2rad(w)) * np.deg2rad(np.asarray(lon, float))
    ctx.close(ctx.call(_arc_lon_wgs84, lo, x), want, 'zonal arc length', rtol=0, atol=3e-4 if kind != 'f4' else 25.0)


def monotone(ctx):
    rng = ctx.rng
    v = np.sort(rng.uniform(-90, 90, int(rng.integers(10, 3000))))
    v = v[np.concatenate([[True], np.diff(v) > 1e-7])]
    s = ctx.call(_arc_lat_wgs84, v)
    ctx.note(kind='monotone')
    ctx.ok(np.all(np.diff(s) > 0), 'arc length does not increase with latitude')
    mid = (v[1:] + v[:-1]) / 2
    ctx.close(np.diff(s), np.diff(geo.arc_lat(v)), 'differences of the arc length', rtol=0, atol=2e-5)
    near = np.diff(v) < 0.5      # the derivative of the arc length is the radius
    ctx.close(np.diff(s)[near], (geo.radius(mid) * np.deg2rad(np.diff(v)))[near], 'differences against the radius', rtol=1e-5, atol=1e-4)
    r = ctx.call(_rad_lat_wgs84, v)
    ctx.ok(np.all((r >= geo.B - 1e-6) & (r <= geo.A + 1e-6)), 'radius outside [b, a]')


WORKLOADS = {'values': (run, 300, 8000), 'monotone': (monotone, 60, 1000)}
