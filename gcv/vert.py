"""Generators and independent formulas for hybrid levels."""
import numpy as np, xarray as xr
from .gen import pick, chance, field


def coefficients(rng, n, full=False):
    """hybrid a (times p0) and b coefficients, pressure increasing downward for any ps in 40..110 kPa."""
    for _ in range(50):
        eta = np.sort(rng.uniform(0.002, 0.999, n)) if chance(rng, 0.5) else np.linspace(rng.uniform(0.001, 0.1), rng.uniform(0.9, 1.0), n)
        if full:
            eta[-1] = 1.0
        e0 = rng.uniform(0.0, 0.25)
        b = np.clip((eta - e0) / (1 - e0), 0, None) ** pick(rng, [1.0, 1.3, 2.0])
        a = eta - b
        if all((np.diff(a * 1e5 + b * ps) > 1.0).all() for ps in (40000., 110000.)) and (a * 1e5 + b * 40000. > 1).all():
            return a, b
    a = np.zeros(n)
    return a, np.linspace(0.05, 0.99, n)


def surface(rng, shape):
    return rng.uniform(48000, 104500, shape)


def interp_column(x, xp, fp, log=False):
    """Piecewise linear in x (or ln x); missing outside the range of xp; NaN where a bracketing value is missing."""
    o = np.argsort(xp)
    xs, fs = np.asarray(xp, float)[o], np.asarray(fp, float)[o]
    if log:
        x, xs = np.log(x), np.log(xs)
    out = np.full(len(x), np.nan)
    for i, v in enumerate(x):
        if v < xs[0] or v > xs[-1]:
            continue
        j = int(np.searchsorted(xs, v, side='right')) - 1
        if j == len(xs) - 1:
            j -= 1
        w = (v - xs[j]) / (xs[j + 1] - xs[j])
        out[i] = fs[j] + w * (fs[j + 1] - fs[j])
    return out


RD, G = 287.04, 9.80616
GAM = 0.0065


def extrap_T(tb, p, pb, ps, phi):
    """ECMWF below-ground temperature."""
    a = GAM * RD / G
    ts = tb * (1 + a * (ps / pb - 1))
    h = phi / G
    t0 = ts + GAM * h
    if h < 2000:
        y = a * np.log(p / ps)
    else:
        tpl = min(t0, 298.0)
        tp = tpl if h > 2500 else 0.002 * ((2500 - h) * t0 + (h - 2000) * tpl)
        y = 0.0 if tp < ts else RD * (tp - ts) / phi * np.log(p / ps)
    return ts * (1 + y + y * y / 2 + y ** 3 / 6)


def extrap_Z(tb, p, pb, ps, phi):
    """ECMWF below-ground geopotential height."""
    a = GAM * RD / G
    ts = tb * (1 + a * (ps / pb - 1))
    h = phi / G
    t0 = ts + GAM * h
    if t0 > 290.5:
        if ts <= 290.5:
            a = RD / phi * (290.5 - ts)
        else:
            a = 0.0
            ts = 0.5 * (290.5 + ts)
    if ts < 255:
        ts = 0.5 * (ts + 255)
    y = a * np.log(p / ps)
    return h - RD * ts / G * np.log(p / ps) * (1 + y / 2 + y * y / 6)
