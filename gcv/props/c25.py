"""C25 scale_voronoi: areas that tile the sphere."""
import numpy as np, xarray as xr
import geocat.comp as gc
from ..gen import pick, chance
from ..core import tonp

ID = 'C25'
RULE = ('Point sets on the sphere of 4-300 points (random, latitude-longitude grids of any shape and orientation, with or without a pole); '
        'oracles: areas are positive, sum to 4 pi, invariant under rotations about the axis and reflections, follow '
        'the points under permutation, equal the closed form for regular grids and a Monte Carlo estimate for irregular ones.')


def wrap(cont, th, ph, layout='C'):
    if layout == 'F':
        th, ph = np.asfortranarray(th), np.asfortranarray(ph)
    elif layout == 'mixed':
        th = np.asfortranarray(th)
    elif layout == 'strided':
        th, ph = (np.repeat(np.repeat(v, 2, 0), 3, 1)[::2, ::3] for v in (th, ph))
    elif layout == 'flipped':
        th, ph = th[::-1].copy()[::-1], ph[:, ::-1].copy()[:, ::-1]
    return (th, ph) if cont == 'numpy' else (xr.DataArray(th, dims=['lat', 'lon']), xr.DataArray(ph, dims=['lat', 'lon']))


def grid(rng):
    nlat, nlon = int(rng.integers(2, 16)), int(rng.integers(3, 25))
    half = np.pi / nlat / 2
    lat = half + np.arange(nlat) * 2 * half
    th, ph = np.meshgrid(float(rng.uniform(0, 6)) + np.arange(nlon) * 2 * np.pi / nlon, lat)
    return th, ph, nlat, nlon


def regular(ctx):
    rng = ctx.rng
    th, ph, nlat, nlon = grid(rng)
    cont = pick(rng, ['numpy', 'xarray'])
    lay = pick(rng, ['C', 'C', 'F', 'mixed', 'strided', 'flipped'])
    ctx.note(layout=lay)
    a = tonp(ctx.call(gc.scale_voronoi, *wrap(cont, th, ph, lay)))
    ctx.note(kind='grid', nlat=nlat, container=cont)
    ctx.equal(a.shape, th.shape, 'shape')
    ctx.close(a.sum(), 4 * np.pi, 'sum of the areas', rtol=1e-9)
    ctx.close(a, np.repeat(a[:, :1], nlon, axis=1), 'areas along a parallel', rtol=1e-6)
    ctx.close(a, a[::-1], 'areas of both hemispheres', rtol=1e-6)
    # the region nearer to row i than to any other row
    V = np.stack([np.sin(ph) * np.cos(th), np.sin(ph) * np.sin(th), np.cos(ph)], -1).reshape(-1, 3)
    n = 4000
    x = rng.standard_normal((n, 3))
    x /= np.linalg.norm(x, axis=1)[:, None]
    row = np.argmax(x @ V.T, axis=1) // nlon
    est = np.bincount(row, minlength=nlat) / n
    p = a.sum(1) / (4 * np.pi)
    sd = np.sqrt(np.maximum(p * (1 - p), 1e-6) / n)
    ctx.ok(np.all(np.abs(est - p) < 6.5 * sd + 1e-9), f'fractions of the sphere nearest to each parallel {est}, areas say {p}')


def irregular(ctx):
    rng = ctx.rng
    n1, n2 = int(rng.integers(2, 14)), int(rng.integers(3, 20))
    x = rng.standard_normal((n1 * n2, 3))
    x /= np.linalg.norm(x, axis=1)[:, None]
    th, ph = np.arctan2(x[:, 1], x[:, 0]).reshape(n1, n2), np.arccos(x[:, 2]).reshape(n1, n2)
    cont = pick(rng, ['numpy', 'xarray'])
    ctx.note(kind='random', points=n1 * n2 // 50 * 50, container=cont)
    lay = pick(rng, ['C', 'C', 'F', 'mixed', 'strided', 'flipped'])
    ctx.note(layout=lay)
    a = tonp(ctx.call(gc.scale_voronoi, *wrap(cont, th, ph, lay)))
    ctx.equal(a.shape, th.shape, 'shape')
    ctx.close(a.sum(), 4 * np.pi, 'sum of the areas', rtol=1e-9)
    ctx.ok((a > 0).all(), 'an area is not positive')
    s = float(rng.uniform(-4, 4))
    b = tonp(ctx.call(gc.scale_voronoi, *wrap(cont, th + s, ph)))
    ctx.close(b, a, 'areas of the rotated points', rtol=1e-6, atol=1e-9)
    b = tonp(ctx.call(gc.scale_voronoi, *wrap(cont, th, np.pi - ph)))
    ctx.close(b, a, 'areas of the reflected points', rtol=1e-6, atol=1e-9)
    o = rng.permutation(n1 * n2)
    b = tonp(ctx.call(gc.scale_voronoi, *wrap(cont, th.ravel()[o].reshape(n1, n2), ph.ravel()[o].reshape(n1, n2))))
    ctx.close(b.ravel(), a.ravel()[o], 'areas of the permuted points', rtol=1e-6, atol=1e-9)
    b = tonp(ctx.call(gc.scale_voronoi, th.reshape(n2, n1), ph.reshape(n2, n1)))
    ctx.close(b.ravel(), a.ravel(), 'areas of the same points in another shape', rtol=1e-6, atol=1e-9)
    # nearest-point Monte Carlo with a set of points grouped into four
    V = np.stack([np.sin(ph) * np.cos(th), np.sin(ph) * np.sin(th), np.cos(ph)], -1).reshape(-1, 3)
    m = 4000
    y = rng.standard_normal((m, 3))
    y /= np.linalg.norm(y, axis=1)[:, None]
    k = np.arange(n1 * n2) % 3
    est = np.bincount(k[np.argmax(y @ V.T, axis=1)], minlength=3) / m
    p = np.bincount(k, weights=a.ravel(), minlength=3) / (4 * np.pi)
    ctx.ok(np.all(np.abs(est - p) < 6.5 * np.sqrt(np.maximum(p * (1 - p), 1e-6) / m)), f'fractions nearest to three groups {est}, areas say {p}')


WORKLOADS = {'grid': (regular, 120, 2500), 'irregular': (irregular, 120, 2500)}
