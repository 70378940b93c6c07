"""C24 spherical harmonic decomposition and recomposition."""
import math
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp

ID = 'C24'
RULE = ('Random latitude-longitude and irregular grids, weights and fields, truncations 0-32 (mostly below 15, and the default 23), numpy and data '
        'arrays; oracles: direct quadrature against an own recurrence for the spherical harmonics, and exact round trips of random '
        'spectra on Gauss-Legendre grids.')
ASSUMPTIONS = ['theta is the longitude and phi the colatitude, in radians, as the functions document']


def ylm(N, theta, phi):
    """Orthonormal harmonics with Condon-Shortley phase, ordered n=0..N, m=0..n; shape (K, ...)."""
    x, s = np.cos(phi), np.sin(phi)
    P = {}
    for m in range(N + 1):
        if m == 0:
            P[0, 0] = np.full_like(x, math.sqrt(1 / (4 * math.pi)))
        else:
            P[m, m] = -math.sqrt((2 * m + 1) / (2 * m)) * s * P[m - 1, m - 1]
        if m + 1 <= N:
            P[m + 1, m] = math.sqrt(2 * m + 3) * x * P[m, m]
        for n in range(m + 2, N + 1):
            a = math.sqrt((4 * n * n - 1) / (n * n - m * m))
            b = math.sqrt(((n - 1) ** 2 - m * m) / (4 * (n - 1) ** 2 - 1))
            P[n, m] = a * (x * P[n - 1, m] - b * P[n - 2, m])
    return np.array([P[n, m] * np.exp(1j * m * theta) for n in range(N + 1) for m in range(n + 1)])


def mult(N):
    return np.array([1.0 if m == 0 else 2.0 for n in range(N + 1) for m in range(n + 1)])


def wrap(cont, dims, *arrs):
    if cont == 'numpy':
        return arrs
    co = {d: np.arange(s) * 1.5 for d, s in zip(dims, arrs[0].shape)}
    return tuple(xr.DataArray(a, dims=dims, coords=co) for a in arrs)


def order(rng):
    return int(rng.integers(0, 15)) if chance(rng, 0.88) else 23 if chance(rng, 0.5) else int(rng.integers(24, 33))


def quadrature(ctx):
    rng = ctx.rng
    N = order(rng)
    shape = (int(rng.integers(2, 12)), int(rng.integers(2, 14)))
    if chance(rng, 0.5):
        th, ph = np.meshgrid(np.linspace(0, 2 * np.pi, shape[1], endpoint=False), np.linspace(0.02, np.pi - 0.02, shape[0]))
        if chance(rng, 0.3):
            th = th - np.pi
    else:
        th, ph = rng.uniform(-np.pi, 2 * np.pi, shape), rng.uniform(0, np.pi, shape)
    w = rng.uniform(0.1, 2, shape) if chance(rng, 0.5) else np.sin(ph) + 0.01
    if chance(rng, 0.3):
        w = w * 10.0 ** rng.uniform(-3, 6)
    f = rng.standard_normal(shape) * 10.0 ** rng.uniform(*pick(rng, [(-2, 3), (-15, 15)]))
    cont = pick(rng, ['numpy', 'xarray'])
    dims = pick(rng, [('lat', 'lon'), ('y', 'x'), ('lon', 'lat')])
    ctx.note(order=N, container=cont, dims='/'.join(dims))
    kw = {} if N == 23 else {'max_harm': N}
    d = ctx.call(gc.decomposition, *wrap(cont, dims, f, w, th, ph), **kw)
    Y = ylm(N, th, ph)
    want = mult(N) * 4 * np.pi / w.sum() * (Y * (f * w)).sum(axis=(1, 2))
    sc = np.abs(f).max() * 4 * np.pi * np.sqrt(2 * N + 1)
    ctx.close(tonp(d).real, want.real, 'coefficients', rtol=1e-8, atol=1e-9 * sc)
    ctx.close(tonp(d).imag, want.imag, 'imaginary parts', rtol=1e-8, atol=1e-9 * sc)
    k = float(10.0 ** rng.uniform(-9, 9))
    d2 = ctx.call(gc.decomposition, *wrap(cont, dims, f, w * k, th, ph), **kw)
    ctx.close(np.abs(tonp(d2) - tonp(d)), np.zeros(want.shape), 'weights in another unit', atol=1e-9 * sc)
    if cont == 'xarray':
        ctx.ok(isinstance(d, xr.DataArray) and d.dims == ('harmonic',), 'data array in, something else out')
    # recomposition on an unrelated set of points
    big = 10.0 ** rng.uniform(-15, 15) if chance(rng, 0.3) else 1.0
    c = big * (rng.standard_normal(want.size) + 1j * rng.standard_normal(want.size))
    sh2 = (int(rng.integers(1, 9)), int(rng.integers(1, 9)))
    th2, ph2 = rng.uniform(0, 2 * np.pi, sh2), rng.uniform(0, np.pi, sh2)
    if cont == 'xarray':
        a = (xr.DataArray(c, dims=[pick(rng, ['harmonic', 'k'])]),) + wrap('xarray', dims, th2, ph2)
    else:
        a = (c, th2, ph2)
    r = ctx.call(gc.recomposition, *a, **kw)
    Y2 = ylm(N, th2, ph2)
    want = (Y2.real * c.real[:, None, None]).sum(0) + (Y2.imag * c.imag[:, None, None]).sum(0)
    ctx.close(r, want, 'recomposed field', rtol=1e-8, atol=1e-9 * big * (N + 1) ** 2)
    if cont == 'xarray':
        ctx.ok(isinstance(r, xr.DataArray), 'data array in, something else out')
        ctx.equal(r.dims, dims, 'dims of the field')


def roundtrip(ctx):
    rng = ctx.rng
    N = int(rng.integers(0, 15)) if chance(rng, 0.95) else 23
    nlat, nlon = N + 1 + int(rng.integers(0, 4)), 2 * N + 1 + int(rng.integers(0, 4))
    x, gw = np.polynomial.legendre.leggauss(nlat)
    lon0 = float(rng.uniform(-3, 3))
    th, ph = np.meshgrid(lon0 + np.arange(nlon) * 2 * np.pi / nlon, np.arccos(x))
    w = np.repeat(gw[:, None], nlon, axis=1) * float(rng.uniform(0.1, 10))
    m = np.array([m for n in range(N + 1) for m in range(n + 1)])
    c = rng.standard_normal(m.size) + 1j * rng.standard_normal(m.size) * (m > 0)
    one = chance(rng, 0.3)
    if one:
        j = int(rng.integers(m.size))
        c = np.where(np.arange(m.size) == j, c, 0)
    cont = pick(rng, ['numpy', 'xarray'])
    ctx.note(order=N, container=cont, single=one)
    tr = chance(rng, 0.3)
    if tr:
        th, ph, w = th.T.copy(), ph.T.copy(), w.T.copy()
    dims = ('lat', 'lon')
    kw = {'max_harm': N}
    W = wrap(cont, dims, w, th, ph)
    cc = c if cont == 'numpy' else xr.DataArray(c, dims=['harmonic'])
    f = ctx.call(gc.recomposition, cc, W[1], W[2], **kw)
    d = ctx.call(gc.decomposition, f, W[0], W[1], W[2], **kw)
    ctx.close(np.abs(tonp(d) - c), np.zeros(c.shape), 'spectrum after a round trip', atol=1e-9 * (N + 1) ** 2)
    f2 = ctx.call(gc.recomposition, d, W[1], W[2], **kw)
    ctx.close(f2, tonp(f), 'field after a round trip', rtol=1e-8, atol=1e-9 * (N + 1) ** 2)
    # energy: Parseval
    e = (tonp(f) ** 2 * w).sum() / w.sum() * 4 * np.pi
    ctx.close(e, (np.abs(c) ** 2 / mult(N)).sum(), 'mean square of the field', rtol=1e-8, atol=1e-10)
    k = float(rng.uniform(-9, 9))
    konst = np.full(th.shape, k)
    d = ctx.call(gc.decomposition, wrap(cont, dims, konst)[0], W[0], W[1], W[2], **kw)
    ctx.close(np.abs(tonp(d) - np.where(np.arange(m.size) == 0, k * np.sqrt(4 * np.pi), 0)), np.zeros(m.size), 'uniform field', atol=1e-10 * (N + 1) ** 2 * 10)


WORKLOADS = {'quadrature': (quadrature, 300, 5000), 'roundtrip': (roundtrip, 300, 5000)}
