"""WGS84 ellipsoid, computed by quadrature rather than by the library's polynomials."""
import numpy as np
A, B = 6378137.0, 6356752.314245179


def radius(lat):
    """sqrt((a cos)^2 + (b sin)^2) at the given latitude (degrees)."""
    p = np.deg2rad(np.asarray(lat, float))
    return np.hypot(A * np.cos(p), B * np.sin(p))


_X, _W = np.polynomial.legendre.leggauss(48)


def arc_lat(lat, f=None):
    """Length along the meridian from the equator: integral of the radius over latitude."""
    p = np.asarray(lat, float)
    h = p[..., None] / 2
    return (f or radius)(h * (_X + 1)) @ _W * np.deg2rad(p) / 2
